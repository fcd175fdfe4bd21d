"""C01-C05: src/lib and the storage classes of src/data, by histories generated from the specification."""
from vf import *


def chunks(seq, n):
    out = [[] for _ in range(n)]
    for i, h in enumerate(seq):
        out[i % n].append(h)
    return [x for x in out if x]


def script(histories):
    ops = []
    for h in histories:
        ops.append({'op': 'reset'})
        ops += h
    return ops


def run_lib(ctx, module, groups, timeout=600):
    """groups: name -> list of ops. Drives each and validates all traces."""
    exe = ctx.build('drv_lib')
    traces = [ctx.drive(exe, ops, name) for name, ops in groups.items()]
    for ops in groups.values():
        if len(ops) > 3:
            ctx.sample(ops[2])
    ctx.cov['operations'] = ctx.cov.get('operations', 0) + sum(len(o) for o in groups.values())
    ctx.validate(module, traces, timeout=timeout)


def grouped(prefix, hs, n):
    return {'%s%d' % (prefix, i): script(c) for i, c in enumerate(chunks(hs, n))}


# ---------------------------------------------------------------- C01
def rnd_range(r, nd, lo=-6, hi=7, nonempty=False):
    b = []
    for _ in range(nd):
        a = r.randint(lo, hi)
        c = r.randint(a + (1 if nonempty else 0), max(hi, a + 1))
        b.append([a, c])
    return b


def c01(ctx):
    ctx.model_check('MC_Range')
    if ctx.thorough:
        ctx.model_check('MC_Range', 'MC_Range_big.cfg', timeout=3000)
    hs = ctx.simulate('MC_Range', 'Sim_Range.cfg', ctx.n(60, 800)) + ctx.simulate('MC_Range', 'Sim_Range_nd.cfg', ctx.n(40, 500))
    r = ctx.rng
    big = []
    for _ in range(ctx.n(40, 300)):   # large bounds, many dimensions (volumes below 2^31)
        h, nd = [], r.randint(1, 9)
        b, vol = [], 1
        for _ in range(nd):
            L = r.choice([0, 1, 1, 2, 3, 5, 16, 40000, 65536]) if vol < 2000 else r.choice([1, 1, 2, 3])
            vol *= max(L, 1)
            lo = r.choice([0, -1, 1, -1000000, 900000, r.randint(-50, 50)])
            b.append([lo, lo + L])
        h.append({'op': 'r.lu', 's': 0, 'b': b})
        h.append({'op': 'r.dims', 's': 1, 'd': [x[1] - x[0] for x in b]})
        for k in range(8):
            d = r.randrange(nd)
            h += [r.choice([{'op': 'r.shift', 's': 0, 'd': d, 'a': r.randint(-999, 999)}, {'op': 'r.copy', 's': 2, 't': 0}, {'op': 'r.assign', 's': 1, 't': 0},
                            {'op': 'r.resize', 's': 1, 't': 0}, {'op': 'r.set', 's': 1, 'd': d, 'a': -3, 'b': r.choice([-3, -2, 0])},
                            {'op': 'r.cmp', 's': 0, 't': 1}, {'op': 'r.print', 's': r.choice([0, 1])}, {'op': 'r.cmp', 's': 1, 't': 0}])]
        big.append(h)
    near = []
    for _ in range(ctx.n(60, 500)):   # ranges that differ in little: every edit of one dimension, compared both ways
        nd = r.randint(1, 9)
        b = rnd_range(r, nd, -4, 5) if nd < 5 else [[a, a + r.choice([0, 1, 1, 2, 2, 3])] for a in (r.randint(-4, 4) for _ in range(nd))]
        h = [{'op': 'r.lu', 's': 0, 'b': b}, {'op': 'r.copy', 's': 1, 't': 0}, {'op': 'r.cmp', 's': 0, 't': 1}]
        cur = {0: [list(x) for x in b], 1: [list(x) for x in b]}
        for _ in range(r.randint(3, 9)):
            s, k = r.choice([0, 1, 1]), r.random()
            n = len(cur[s])
            d = r.randrange(n)
            lo, hi = cur[s][d]
            if k < .35:
                a, c = r.choice([-1, 0, 1, 2]), r.choice([-1, 0, 1, 2])
                if lo + a > hi + c:
                    continue
                h.append({'op': 'r.expand', 's': s, 'd': d, 'a': a, 'b': c})
                cur[s][d] = [lo + a, hi + c]
            elif k < .55:
                a = r.choice([-1, 1, hi - lo, lo - hi])
                h.append({'op': 'r.shift', 's': s, 'd': d, 'a': a})
                cur[s][d] = [lo + a, hi + a]
            elif k < .75:
                cur[s][d] = r.choice([[lo, hi + 1], [lo - 1, hi], [hi, hi], list(cur[1 - s][d % len(cur[1 - s])])])
                h.append({'op': 'r.set', 's': s, 'd': d, 'a': cur[s][d][0], 'b': cur[s][d][1]})
            elif k < .85 and n < 9:
                a = r.randint(-2, 2)
                cur[s].append([a, a + r.choice([1, 1, 2, 0])])
                h.append({'op': 'r.extrude', 's': s, 'a': cur[s][-1][0], 'b': cur[s][-1][1]})
            else:
                o = r.choice(['r.assign', 'r.resize', 'r.copy'])
                h.append({'op': o, 's': s, 't': 1 - s})
                cur[s] = [list(x) for x in cur[1 - s]]
            h += [{'op': 'r.cmp', 's': 0, 't': 1}, {'op': 'r.cmp', 's': 1, 't': 0}]
        near.append(h)
    g = grouped('h', hs, 6)
    g.update(grouped('b', big + near, 2))
    run_lib(ctx, 'T_Range', g)


# ---------------------------------------------------------------- C02
def sub_of(r, sup, nonempty=0.8):
    out = []
    for lo, hi in sup:
        a = r.randint(lo, hi)
        c = r.randint(a, hi)
        if r.random() < nonempty and hi > lo:
            a = r.randint(lo, hi - 1)
            c = r.randint(a + 1, hi)
        out.append([a, c])
    return out


def pair_walk(r):
    """Two iterators whose ranges are related (shifted, reordered, of equal volume, one enclosing), copied and assigned between steps."""
    nd = r.randint(1, 4)
    sub = [[a, a + r.randint(1, 3)] for a in (r.randint(-3, 3) for _ in range(nd))]
    sup = [[a - r.randint(0, 2), b + r.randint(0, 2)] for a, b in sub]

    def vary(sub, sup):
        k = r.randrange(7)
        if k == 0:          # another place of the same enclosing range
            out = []
            for (a, b), (c, d) in zip(sub, sup):
                o = r.randint(c, d - (b - a))
                out.append([o, o + b - a])
            return out, sup
        if k == 1:          # both shifted
            o = [r.randint(-3, 3) for _ in sub]
            return [[a + x, b + x] for (a, b), x in zip(sub, o)], [[a + x, b + x] for (a, b), x in zip(sup, o)]
        if k == 2:          # dimensions in another order
            p = list(range(nd))
            r.shuffle(p)
            return [sub[i] for i in p], [sup[i] for i in p]
        if k == 3:          # the same cells of a larger range
            return sub, [[a - r.randint(0, 2), b + r.randint(0, 2)] for a, b in sup]
        if k == 4:          # a unit dimension more
            return sub + [[0, 1]], sup + [[0, r.randint(1, 2)]]
        if k == 5:
            return [list(x) for x in sup], sup
        return sub_of(r, sup, 1.0), sup
    its = {0: (sub, sup), 1: vary(sub, sup), 2: vary(sub, sup)}
    st = {}
    h = []
    for s in its:
        h.append({'op': 'i.new', 's': s, 'sub': its[s][0], 'sup': its[s][1]})
        v = 1
        for a, b in its[s][0]:
            v *= b - a
        st[s] = [v, 0, len(its[s][0])]          # volume, steps made, dimensions
    for _ in range(r.randint(10, 34)):
        s, t = r.sample([0, 1, 2], 2)
        k = r.random()
        if k < .62:
            if st[s][1] < st[s][0]:
                h.append({'op': r.choice(['i.next', 'i.pp']), 's': s})
                st[s][1] += 1
        elif k < .78:
            h.append({'op': r.choice(['i.assign', 'i.assign', 'i.copy']), 's': s, 't': t})
            st[s] = list(st[t])
        elif k < .82:
            h.append({'op': 'i.assign', 's': s, 't': s})
        elif k < .9:
            d = r.randint(-1, st[s][2])
            if st[s][1] < st[s][0] or d < 0 or d >= st[s][2]:
                h.append({'op': r.choice(['i.get', 'i.get2']), 's': s, 'd': d})
        elif st[s][1] < st[s][0]:
            d = r.randrange(st[s][2])
            a, b = r.choice([('i.inc', 'i.dec'), ('i.dec', 'i.inc')])
            h += [{'op': a, 's': s, 'd': d}, {'op': b, 's': s, 'd': d}]
    return h


def c02(ctx):
    ctx.model_check('MC_Indexer')
    hs = ctx.simulate('MC_Indexer', 'Sim_Indexer.cfg', ctx.n(60, 800), depth=2000)
    r = ctx.rng
    walks = []
    for _ in range(ctx.n(400, 4000)):
        nd = r.randint(1, 6)
        lim = {1: 30, 2: 9, 3: 6, 4: 4, 5: 3, 6: 3}[nd]
        sup = []
        for _ in range(nd):
            lo = r.randint(-5, 5)
            sup.append([lo, lo + r.randint(1, lim)])
        sub = sub_of(r, sup)
        k = r.random()
        if k < 0.08:
            d = r.randrange(nd)
            sub[d] = r.choice([[sup[d][0] - 1, sub[d][1]], [sub[d][0], sup[d][1] + 1], [sup[d][1] + 2, sup[d][1] + 4]])
        elif k < 0.12:
            sub = sub[:-1] if nd > 1 and r.random() < .5 else sub + [[0, 1]]
        elif k < 0.3:
            sub = [list(x) for x in sup]
        v = 1
        for lo, hi in sub:
            v *= max(0, hi - lo)
        walks.append({'op': 'i.walk', 'sub': sub, 'sup': sup, 'cap': v + 5, 'pp': r.random() < .3})
    for _ in range(ctx.n(6, 40)):
        nd = r.randint(2, 4)
        sup, sub, vol = [], [], 1
        for d in range(nd):
            L = r.choice([1, 2, 17, 64, 300]) if vol < 5000 else r.choice([1, 3])
            vol *= L
            lo = r.randint(-20, 20)
            sub.append([lo, lo + L])
            sup.append([lo - r.randint(0, 3), lo + L + r.randint(0, 3)])
        at = sorted(set([0, vol - 1] + [r.randrange(vol) for _ in range(40)]))
        walks.append({'op': 'i.sparse', 'sub': sub, 'sup': sup, 'cap': vol + 5, 'at': at})
    for _ in range(ctx.n(3, 10)):           # one very long dimension
        lens = [r.choice([40000, 70000])] + [r.choice([1, 2])] * r.choice([0, 1, 2])
        r.shuffle(lens)
        if lens[0] > 2 and len(lens) > 1:
            lens.reverse()
        lo = [r.choice([0, -20000, 7]) for _ in lens]
        vol = 1
        for L in lens:
            vol *= L
        walks.append({'op': 'i.sparse', 'sub': [[a, a + L] for a, L in zip(lo, lens)], 'sup': [[a - r.randint(0, 1), a + L + r.randint(0, 1)] for a, L in zip(lo, lens)], 'cap': vol + 5, 'at': sorted(set([0, vol - 1, vol // 2, vol // 2 + 1] + [r.randrange(vol) for _ in range(20)]))})
    walks.append({'op': 'i.sparse', 'sub': [[0, 2], [0, 40000]], 'sup': [[0, 2], [0, 40001]], 'cap': 80005, 'at': [0, 39999, 40000, 79999]})
    walks.append({'op': 'i.sparse', 'sub': [[-1, 2], [5, 70000]], 'sup': [[-1, 2], [0, 70000]], 'cap': 210005, 'at': [0, 69994, 69995, 139990, 209984]})
    rel = [pair_walk(r) for _ in range(ctx.n(60, 600))]
    g = grouped('h', hs + rel, 6)
    for i, c in enumerate(chunks(walks, 2)):
        g['w%d' % i] = c
    run_lib(ctx, 'T_Indexer', g)


# ---------------------------------------------------------------- C03
def related(r, x):
    """A shape easily mistaken for x: the same volume, lengths or place."""
    x = [list(p) for p in x]
    k = r.random()
    d, e = r.randrange(len(x)), r.randrange(len(x))
    if k < .35:                     # another order of the dimensions
        r.shuffle(x)
    elif k < .55:                   # elsewhere
        o = r.choice([-2, -1, 1, 3])
        x[d] = [x[d][0] + o, x[d][1] + o]
    elif k < .75 and d != e and (x[d][1] - x[d][0]) % 2 == 0:    # one dimension halved, another doubled
        x[d][1] = x[d][0] + (x[d][1] - x[d][0]) // 2
        x[e][1] = x[e][0] + 2 * (x[e][1] - x[e][0])
    elif k < .85:                   # all in one dimension
        v = 1
        for lo, hi in x:
            v *= hi - lo
        x = [[lo, lo + 1] for lo, _ in x]
        x[d][1] = x[d][0] + v
    elif k < .93:
        x[d][1] += 1
    elif x[d][1] - x[d][0] > 1:
        x[d][0] += 1
    return x


def same_shape(r):
    """Arrays of equal (or nearly equal) shape; ranges at the same place, along slabs, whole rows, single cells, reordered."""
    kind = r.choice(['i', 'd', 'c', 'c', 'h'])
    nd = r.randint(1, 4 if kind not in 'ch' else 4)
    b0 = [[a, a + r.randint(1, {1: 9, 2: 5, 3: 4, 4: 3}[nd])] for a in (r.randint(-3, 3) for _ in range(nd))]
    h, b = [], {}
    for s in range(3):
        x = [list(p) for p in b0]
        k = r.random()
        if s and k < .2:
            d = r.randrange(nd)
            x[d][1] += 1
        elif s and k < .35:
            o = [r.randint(-2, 2) for _ in x]
            x = [[p + q, c + q] for (p, c), q in zip(x, o)]
        elif s and k < .5:
            r.shuffle(x)
        b[s] = x
        h += [{'op': 'a.new', 's': s, 'k': kind, 'b': x, 'm': max(1, nd - 1)}, {'op': 'a.mark', 's': s, 'v': r.randint(1, 900)}]

    def window(x):
        out = []
        for lo, hi in x:
            k = r.random()
            if k < .3:
                out.append([lo, hi])
            elif k < .5:
                c = r.randint(lo, hi - 1)
                out.append([c, c + 1])
            else:
                a = r.randint(lo, hi - 1)
                out.append([a, r.randint(a + 1, hi)])
        return out

    def inside(w, x):
        return all(p >= c and q <= d for (p, q), (c, d) in zip(w, x))
    for _ in range(r.randint(5, 12)):
        s, t = r.sample(range(3), 2)
        if r.random() < .15:                        # resized to a related shape, mostly of the same volume
            b[s] = related(r, b[s])
            h += [{'op': 'a.resize', 's': s, 'b': b[s], 'm': max(1, nd - 1)}] + ([{'op': 'a.mark', 's': s, 'v': r.randint(1, 900)}] if r.random() < .8 else [])
            continue
        if r.random() < .15:                        # the same place in one array after the other
            w = window(b[s])
            for u in r.sample(range(3), 3) + [s]:
                if inside(w, b[u]):
                    v = r.randint(1, 99)
                    o = r.choice([{'op': 'a.fillr', 's': u, 'r': w, 'v': v}, {'op': 'a.fillr', 's': u, 'r': w, 'v': v}, {'op': 'a.mul', 's': u, 'r': w, 'v': r.choice([-1, 2, 0])}])
                    h.append(o if kind in 'ch' or o['op'] != 'a.mul' else {'op': 'a.fillr', 's': u, 'r': w, 'v': v})
            continue
        k = r.random()
        f = window(b[t])
        if k < .3 and inside(f, b[s]):
            g = f                                   # the same place
        elif k < .6:
            g = []
            for (p, q), (c, d) in zip(f, b[s]):     # elsewhere, same lengths
                L = q - p
                o = r.randint(c, d - L) if d - c >= L else None
                if o is None:
                    g = None
                    break
                g.append([o, o + L])
            if g is None:
                continue
        elif k < .7:
            f, g = [list(x) for x in b[t]], [list(x) for x in b[s]]
        elif k < .78:
            h.append({'op': 'a.fillr', 's': s, 'r': window(b[s]), 'v': r.randint(1, 99)})
            continue
        elif k < .86:
            h.append({'op': r.choice(['a.pull', 'a.swap']), 's': s, 't': t})
            continue
        elif k < .93 and kind in 'ch':
            h.append({'op': 'a.mul', 's': s, 'r': window(b[s]), 'v': r.choice([-1, 1, 2, 0])})
            continue
        else:
            w = window(b[s])                        # within one array, to a disjoint place
            d = r.randrange(nd)
            L = w[d][1] - w[d][0]
            if w[d][1] + L > b[s][d][1]:
                continue
            g = [list(x) for x in w]
            g[d] = [w[d][1], w[d][1] + L]
            if r.random() < .5:
                w, g = g, w
            h.append({'op': r.choice(['a.pullr', 'a.copyto']) if kind in 'ch' else 'a.pullr', 's': s, 't': s, 'from': w, 'to': g})
            continue
        h.append({'op': r.choice(['a.pullr', 'a.copyto']) if kind in 'ch' else 'a.pullr', 's': s, 't': t, 'from': f, 'to': g})
    return h


def c03(ctx):
    ctx.model_check('MC_Array')
    hs = ctx.simulate('MC_Array', 'Sim_Array.cfg', ctx.n(70, 700), depth=2000)
    r = ctx.rng
    big = []
    for _ in range(ctx.n(8, 60)):
        nd = r.randint(1, 3)
        lens = [r.choice([1, 2, 17, 33, 40]) for _ in range(nd)]
        fb, tb, fr, to = [], [], [], []
        for L in lens:
            for b, s in ((fb, fr), (tb, to)):
                lo = r.randint(-9, 9)
                b.append([lo, lo + L + r.randint(0, 4)])
                o = r.randint(lo, b[-1][1] - L)
                s.append([o, o + L])
        vol = 1
        for lo, hi in tb:
            vol *= hi - lo
        big.append({'op': 'a.big', 'o': 'pull', 'fb': fb, 'tb': tb, 'from': fr, 'to': to, 'at': sorted(set(r.randrange(vol) for _ in range(60)))})
    for k in range(ctx.n(40, 300)):     # large parts, or parts of large chunks, changed in place
        nd = r.choice([2, 2, 3, 3, 4])
        lens = {2: [61, 70], 3: [17, 16, 18], 4: [9, 8, 7, 6]}[nd]
        r.shuffle(lens)
        tb = [[lo, lo + L] for lo, L in zip((r.randint(-9, 9) for _ in lens), lens)]
        to = [list(x) for x in tb]
        for d in r.choice([[nd - 1], [0], [r.randrange(nd)], list(range(nd)), list(range(1, nd)), r.sample(range(nd), 2), []]):
            a, b = to[d]
            to[d] = r.choice([[a, a + 1], [b - 1, b], [a + 1, b], [a, b - 1], [a + 1, b - 1], [a + (b - a) // 2, a + (b - a) // 2 + 1]])
        vol = 1
        for lo, hi in tb:
            vol *= hi - lo
        big.append({'op': 'a.big', 'o': r.choice(['fill', 'fillc', 'mul', 'mul', 'pull']), 'm': r.randint(1, nd - 1), 'fb': to, 'tb': tb, 'from': to, 'to': to, 'at': sorted(set([0, vol - 1] + [r.randrange(vol) for _ in range(30)]))})
    odd = [float('nan'), float('inf'), -float('inf'), 0.0, -0.0, 5e-324, -5e-324, 1e308, -1e308, 1.0, 1 / 3.0]
    for _ in range(ctx.n(80, 600)):     # arbitrary doubles
        nd = r.randint(2, 4)
        b = [[lo, lo + r.randint(1, 4)] for lo in (r.randint(-3, 3) for _ in range(nd))]
        vol = 1
        for lo, hi in b:
            vol *= hi - lo
        val = lambda: R(r.choice(odd) if r.random() < .5 else r.uniform(-9, 9))
        w = []
        for lo, hi in b:
            a = r.randint(lo, hi - 1)
            w.append([a, r.randint(a + 1, hi)] if r.random() < .7 else [lo, hi])
        big.append({'op': 'a.real', 'b': b, 'm': r.randint(1, nd - 1), 'o': r.choice(['mul', 'mul', 'mul', 'fill', 'fillr', 'pull', 'pullr', 'copyto', 'fullcopy', 'assign', 'swap']), 'r': w,
                    'x': R(r.choice([0.0, -0.0, 1.0, -1.0, 2.0, .5, 1e300] + odd)), 'v': [val() for _ in range(vol)], 'w': [val() for _ in range(vol)]})
    rel = [same_shape(r) for _ in range(ctx.n(60, 600))]
    g = grouped('h', hs + rel, 7)
    g['big'] = big
    run_lib(ctx, 'T_Array', g)


# ---------------------------------------------------------------- C04
def c04(ctx):
    ctx.model_check('MC_RangeSet')
    ctx.refute('MC_RangeSet', 'Neg_RangeSet_floor.cfg')
    ctx.refute('MC_RangeSet', 'Neg_RangeSet_raw.cfg')
    r = ctx.rng
    ops = []
    # all small one-dimensional splits, then random ones in up to 4 dimensions, then long ranges
    for L in range(0, ctx.n(14, 40)):
        for n in range(1, ctx.n(14, 40)):
            lo = r.choice([0, -7, 4, 100])
            ops.append({'op': r.choice(['s.split', 's.resplit']), 'b': [[lo, lo + L]], 'n': [n]})
    for _ in range(ctx.n(250, 3000)):
        nd = r.randint(2, 4)
        b = []
        for _ in range(nd):
            lo = r.randint(-9, 9)
            b.append([lo, lo + r.choice([0, 1, 2, 3, 5, 7, 8, 11, 16, 30, 100])])
        ops.append({'op': r.choice(['s.split', 's.resplit']), 'b': b, 'n': [r.randint(1, 5) for _ in range(nd)]})
    for _ in range(ctx.n(60, 600)):
        L = r.choice([2**24 + 1, 2**24 + 3, 2**25 + 5, 2**29 + 7, 10**9, r.randint(10**6, 10**9), 16777217, 33554435, 100000007])
        lo = r.choice([0, -17, -2**29, 5])
        b, n = [[lo, lo + L]], [r.choice([1, 2, 3, 5, 7, 64, 100, r.randint(1, 300)])]
        if r.random() < .4:
            b.append([0, r.randint(1, 6)])
            n.append(r.randint(1, 3))
        if r.random() < .3:
            b.reverse()
            n.reverse()
        ops.append({'op': r.choice(['s.split', 's.resplit']), 'b': b, 'n': n})
    ops = [[o] for o in ops]
    for _ in range(ctx.n(60, 600)):     # the same set again for a range, or numbers of subdivisions, easily mistaken for the last
        nd = r.randint(1, 4)
        b = [[lo, lo + r.choice([1, 2, 4, 5, 6, 8, 12])] for lo in (r.randint(-4, 4) for _ in range(nd))]
        n = [r.choice([1, 2, 2, 3, 4]) for _ in range(nd)]
        o = []
        for _ in range(r.randint(2, 5)):
            o.append({'op': 's.resplit', 'b': b, 'n': n})
            k = r.random()
            if k < .4:
                n = r.choice([n[::-1], n[1:] + n[:1]])
            elif k < .6:
                b = related(r, b)
            elif k < .7:
                n = [r.choice([1, 2, 3, 4]) for _ in range(nd)]
            elif k < .8:
                b, n = b[::-1], n[::-1]
            elif k < .9:
                d = r.randrange(nd)
                n = [x * 2 if i == d else x for i, x in enumerate(n)]
        ops.append(o)
    r.shuffle(ops)
    g = {'s%d' % i: [{'op': 'reset'}] + [o for h in c for o in h] for i, c in enumerate(chunks(ops, 8))}
    run_lib(ctx, 'T_RangeSet', g)


# ---------------------------------------------------------------- C05
def c05(ctx):
    ctx.model_check('MC_Chunk')
    r = ctx.rng
    hs = []

    def mesh(nd):
        out = []
        for _ in range(nd):
            lo = r.choice([0, 0, -3, 2, 7])
            out.append([lo, lo + r.choice([1, 2, 3, 4, 5] if nd < 4 else [1, 2])])
        return out

    def G(o):
        k = r.random()
        if k < .75:
            o['g'] = r.choice([0, 1, 1, 2, 3, 4, 6]) if len(o['mesh']) < 3 else r.choice([0, 1, 1, 2, 3]) if len(o['mesh']) < 4 else r.choice([0, 1, 1, 2])
        return o
    for _ in range(ctx.n(60, 700)):
        h, live, vlive, last = [], set(), set(), {}
        for _ in range(r.randint(3, 9)):
            s = r.randrange(3)
            k = r.random()
            if k < .35 or not live:
                if s not in live or r.random() < .3:
                    h.append({'op': 'x.new', 's': s})
                live.add(s)
                o = G({'op': 'x.resize', 's': s, 'mesh': mesh(r.randint(1, 4)), 'data': [[0, r.choice([1, 1, 2, 4])], [0, r.randint(1, 6)]]})
                if last and r.random() < .5:        # easily mistaken for the last shape
                    o = dict(r.choice([last[s], last[s], last[r.choice(sorted(last))]]) if s in last else last[r.choice(sorted(last))], s=s)
                    for _ in range(r.choice([1, 1, 2])):
                        q = r.random()
                        if q < .35:
                            o['data'] = o['data'][::-1]
                        elif q < .65:
                            o['mesh'] = related(r, o['mesh'])
                        elif q < .8:
                            o.pop('g', None)
                            o = G(o)
                        else:
                            d = r.randrange(2)
                            o['data'] = [[0, p[1] + (i == d)] for i, p in enumerate(o['data'])]
                last[s] = o
                h.append(o)
                if r.random() < .4:
                    h.append({'op': 'x.mark', 's': s, 'v': r.randint(1, 900)})
            elif k < .5:
                h.append({'op': 'x.mark', 's': r.choice(sorted(live)), 'v': r.randint(1, 900)})
            elif k < .62:
                t = r.choice(sorted(live))
                h.append({'op': 'x.copy', 's': s, 't': t})
                live.add(s)
            elif k < .74:
                h.append({'op': 'x.assign', 's': r.choice(sorted(live)), 't': r.choice(sorted(live))})
            elif k < .9 or not vlive:
                bn = r.choice(['volume_average', 'face_basis', 'custom'])
                np_ = 1 if bn == 'volume_average' else r.choice([1, 2, 4, 4 if len(hs) % 9 else 19])
                cn = ['c%d' % i for i in range(r.randint(1, 7) if r.random() < .93 else r.choice([16, 31, 33, 70]))]
                o = G({'op': 'x.var', 's': s, 'name': 'v%d' % r.randrange(9), 'comps': cn, 'basis': bn, 'np': np_, 'mesh': mesh(r.randint(1, 3))})
                h.append(o)
                vlive.add(s)
            else:
                t = r.choice(sorted(vlive))
                if r.random() < .5:
                    h.append({'op': 'x.varmark', 's': t, 'v': r.randint(1, 900)})
                h.append({'op': 'x.varcopy', 's': s, 't': t})
                vlive.add(s)
        hs.append(h)
    for k in range(ctx.n(4, 16)):       # large meshes
        m = [[[0, 300]], [[-3, 30], [2, 36]], [[0, 9], [1, 11], [0, 10]], [[0, 66], [0, 3]], [[5, 8], [0, 1030]]][k % 5]
        o = {'op': 'x.resize', 's': 0, 'mesh': m, 'data': [[0, r.choice([1, 2])], [0, 1]]}
        if r.random() < .6:
            o['g'] = r.choice([0, 1, 2, 3, 40 if len(m) == 1 else 2])
        hs.append([{'op': 'x.new', 's': 0}, o, {'op': 'x.mark', 's': 0, 'v': 5}, {'op': 'x.copy', 's': 1, 't': 0}, dict(o, s=1, mesh=related(r, m)), {'op': 'x.assign', 's': 1, 't': 0}])
    run_lib(ctx, 'T_Chunk', grouped('x', hs, 8))
