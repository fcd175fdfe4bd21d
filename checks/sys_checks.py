"""C06-C18, C20, C22: the system of managers, variables and solvers, by executions validated against T_Sys."""
import itertools
from vf import *
from lib_checks import chunks


# ------------------------------------------------------------------ building histories
def ext(mesh, g=2):
    return [[a - g, b + g] for a, b in mesh]


def points(box):
    return itertools.product(*[range(a, b) for a, b in box])


def vol(box):
    v = 1
    for a, b in box:
        v *= max(0, b - a)
    return v


class H:
    """One history: a reset, declarations and operations."""
    def __init__(self, **kw):
        self.ops = [dict({'op': 'reset'}, **kw)]
        self.grids, self.ids, self.nk, self.names = {}, {}, 0, 0
        self.plain = False

    def grid(self, m, mesh, start=None, width=None, share=None):
        if share is not None:        # another manager of the same grid object
            o = [x for x in self.ops if x['op'] == 'grid' and x['m'] == share][-1]
            self.grids[m] = self.grids[share]
            self.ops.append(dict(o, m=m, share=share))
            return self
        n = len(mesh)
        start = start or [0.0] * n
        width = width or [float(b - a) for a, b in mesh]
        self.grids[m] = mesh
        self.ops.append({'op': 'grid', 'm': m, 'b': mesh, 'start': [R(x) for x in start], 'width': [R(x) for x in width]})
        return self

    def id(self, nc, np=1, name=None, bn=None, comps=None):
        i = len(self.ids)
        if name is None:
            name = 'v%d' % i
        comps = comps or ['c%d' % k for k in range(nc)]
        bn = bn or ('volume_average' if np == 1 else 'nodes')
        self.ids[i] = (name, comps, bn, np)
        self.ops.append({'op': 'id', 'i': i, 'name': name, 'comps': comps, 'bn': bn, 'np': np})
        return i

    def size(self, m, i):
        return vol(ext(self.grids[m])) * self.ids[i][3] * len(self.ids[i][1])

    def set(self, m, i, f):
        """f: function of (cell, point, component), or list"""
        if callable(f):
            _, comps, _, np = self.ids[i]
            v = [f(x, p, c) for x in points(ext(self.grids[m])) for p in range(np) for c in range(len(comps))]
        else:
            v = f
        self.ops.append({'op': 'set', 'm': m, 'i': i, 'v': [R(x) for x in v]})
        return v

    def mk(self, s, p=None, inp=(), out=(), k=None, **kw):
        if k is None:
            k = self.nk
            self.nk += 1
        o = dict({'op': 'mk', 'k': k, 's': s, 'in': list(inp), 'out': list(out)}, **kw)
        if p is not None:
            o['p'] = {a: ([R(y) if isinstance(y, float) else y for y in b] if isinstance(b, (list, tuple)) else R(b) if isinstance(b, float) else b) for a, b in p.items()}
        self.ops.append(o)
        return k

    def solve(self, k, m=0, tag=0):
        self.ops.append({'op': 'solve', 'k': k, 'm': m, 'tag': tag})

    def op(self, **kw):
        self.ops.append(kw)


LONG = 'a_rather_long_name_for_a_variable_of_some_simulation_that_goes_on_and_on_x'
SIZES = [15, 16, 31, 32, 63, 64, 127, 128, 255, 256]     # sizes blocked loops are made of


def rmesh(r, nd, lo=(-3, 4), length=(2, 5), zero=False):
    out = []
    if r.__dict__.get('big') and nd < 4:
        box = r.choice({1: [(257,), (513,), (1027,)], 2: [(33, 34), (17, 66), (130, 6)], 3: [(9, 10, 11), (17, 6, 9)]}[nd] if r.big == 1 else {1: [(4099,)], 2: [(65, 66), (300, 15)], 3: [(17, 16, 18)]}[nd])
        return [[a, a + n] for a, n in zip([0 if zero else r.randint(*lo) for _ in range(nd)], r.sample(box, nd))]
    if nd == 1 and length[1] > 4 and r.random() < .05:
        a = 0 if zero else r.randint(*lo)
        return [[a, a + r.choice(SIZES) + r.choice([-1, 0, 0, 0, 1])]]
    for _ in range(nd):
        a = 0 if zero else r.randint(*lo)
        out.append([a, a + r.randint(*length)])
    if nd > 1 and length[1] > 1 and r.random() < .06:      # long and thin
        d = r.randrange(nd)
        out = [[a, a + (r.choice([9, 12, 17, 24]) if nd == 2 else r.choice([6, 8, 11])) if i == d else a + max(length[0], min(b - a, 2))] for i, (a, b) in enumerate(out)]
    return out


SPECIAL = [float('nan'), float('inf'), -float('inf'), 0.0, -0.0, 5e-324, -5e-324, 1e308, -1e308, 2.2250738585072014e-308]


def odd_values(r, f, p=.5):
    return lambda x, q, c: r.choice(SPECIAL) if r.random() < p else f(x, q, c)


def prior(r, mesh, f, odd=True):
    """Earlier contents: everywhere, in the interior only, around it only, in one component, in one cell, in all but the first or last, odd values."""
    inside = lambda x: all(a <= y < b for y, (a, b) in zip(x, mesh))
    e = ext(mesh)
    one = tuple(r.randint(a, b - 1) for a, b in (mesh if r.random() < .5 else e))
    first, last, comp = tuple(a for a, _ in e), tuple(b - 1 for _, b in e), r.randint(0, 4)
    w = r.choice(['all', 'all', 'inside', 'inside', 'outside', 'comp', 'momentum', 'cell', 'not first', 'not last', 'odd' if odd else 'all'])
    if w == 'odd':
        return odd_values(r, f)
    keep = {'all': lambda x, c: True, 'inside': lambda x, c: inside(x), 'outside': lambda x, c: not inside(x), 'comp': lambda x, c: c == comp, 'momentum': lambda x, c: 1 <= c <= 3,
            'cell': lambda x, c: x == one, 'not first': lambda x, c: x != first, 'not last': lambda x, c: x != last}[w]
    return lambda x, q, c: f(x, q, c) if keep(x, c) else 0.0


def lat(r, k=20, q=16.0):
    return r.randint(-k, k) / q


def pick_dims(r, nd, allow_empty=True):
    ds = list(range(nd))
    r.shuffle(ds)
    ds = ds[:r.randint(0 if allow_empty and r.random() < .1 else 1, nd)]
    if r.random() < .1 and ds:
        ds.append(r.choice(ds))
    return ds


# ------------------------------------------------------------------ variations of any history
def other_params(r, p):
    """Other values for the parameters of a solver."""
    def num(x):
        return R(abs(UR(x)) * r.choice([.5, 1.5, 2.0]) + r.choice([0.0, 0.25]))
    q = {}
    cut = r.choice([0, 0, 1, -1])
    for a, b in p.items():
        if isinstance(b, list) and len(b) == 2 and all(isinstance(x, int) for x in b) and a != 'dims':
            q[a] = num(b)
        elif isinstance(b, list) and b and isinstance(b[0], list):
            q[a] = [num(x) for x in b]
            if a in ('q', 'ms'):         # one species more, one fewer
                q[a] = q[a][:len(b) - cut] if cut > 0 else q[a] + [num(x) for x in q[a][:-cut]]
        elif a == 'dims':
            q[a] = b[1:] if len(b) > 1 else []
        else:
            q[a] = b
    return q


def twin_history(r, h, both=.6):
    """The same calls also on a second manager, whose grid differs, between those on the first."""
    old = h.grids[0]
    zero = all(a == 0 for a, b in old)
    new = []
    for a, b in old:
        n = b - a
        n = max(min(n, 2), n + r.choice([-1, 0, 1, 1]))
        lo = 0 if zero else r.choice([a, a, a + 1, -2, 3])
        new.append([lo, lo + n])
    if r.random() < .3:
        new = new[::-1]
    M = 9
    src = {x: k for k, x in enumerate(points(ext(old)))}
    cells = list(src)
    near = r.random() < .6

    def where(x):
        if near:     # the nearest cell of the other mesh
            return src[tuple(min(max(c - lo + a, a - 2), b + 1) for c, (lo, _), (a, b) in zip(x, new, old))]
        return src[r.choice(cells)]
    f, sh = r.choice([1.0, .5, 2.0]), [r.choice([1.0, .5, 2.0]) for _ in old]
    ops, first = [], r.random() < .5
    for o in h.ops:
        t = None
        if o['op'] == 'grid':
            w = [UR(x) / (b - a) * k * (d - c) for x, k, (a, b), (c, d) in zip(o['width'], sh, old, new)]
            t = dict(o, m=M, b=new, width=[R(x) for x in w])
        elif o['op'] == 'set':
            n = h.ids[o['i']][3] * len(h.ids[o['i']][1])
            v = []
            for x in points(ext(new)):
                k = where(x) * n
                v += o['v'][k:k + n]
            t = dict(o, m=M, v=v)
        elif o['op'] == 'dt':
            t = dict(o, m=M, dt=R(f * UR(o['dt'])))
        elif o['op'] in ('time', 'out', 'in') or (o['op'] in ('solve', 'vtk') and r.random() < both):
            t = dict(o, m=M)
        ops += [o] if t is None else [t, o] if first and o['op'] in ('solve', 'vtk') else [o, t]
    h.ops = ops
    h.grids[M] = new
    return h


def poked(r, h):
    """Calls repeated after a few elements of what they read or write were changed by hand."""
    ops, last, sols = [], {}, {}
    for o in h.ops:
        ops.append(o)
        if o['op'] == 'set':
            last[o['m'], o['i']] = o['v']
        elif o['op'] == 'mk':
            a = sols.get(o['k'], ([], [], '')) if 'again' in o else ([], [], o['s'])
            sols[o['k']] = ((a[0] if 'add' in o else []) + o['in'], (a[1] if 'add' in o else []) + o['out'], a[2])
        if o['op'] not in ('solve', 'vtk') or o['m'] not in h.grids or r.random() < .4:
            continue
        if o['op'] == 'vtk':
            ids, gas = o['ids'], False
        else:
            ids, gas = sols[o['k']][0] + sols[o['k']][1], sols[o['k']][2] == 'euler'
        ids = [i for i in ids if (o['m'], i) in last]
        for _ in range(r.choice([1, 1, 2])):
            if not ids:
                continue
            i = r.choice(ids)
            v, nc = last[o['m'], i], len(h.ids[i][1])
            cells = len(v) // nc
            e = ext(h.grids[o['m']])
            at, w = [], []
            for _ in range(r.choice([1, 1, 2, 4])):
                x = [r.randint(a, b - 1) for a, b in (h.grids[o['m']] if r.random() < .7 else e)]
                n = 0
                for y, (a, b) in zip(x, e):
                    n = n * (b - a) + y - a
                n = n * h.ids[i][3] + r.randrange(h.ids[i][3])
                src = r.randrange(cells)
                cs = range(nc) if gas or r.random() < .3 else [r.randrange(nc)]
                for c in cs:
                    if n * nc + c not in at:
                        at.append(n * nc + c)
                        w.append(v[src * nc + c] if gas or r.random() < .5 else R(-UR(v[n * nc + c])) if r.random() < .5 else R(lat(r)))
            ops.append({'op': 'poke', 'm': o['m'], 'i': i, 'at': at, 'v': w})
        ops.append(dict(o))
    h.ops = ops
    return h


def repeated(r, h):
    """Some calls made again and again from the same state."""
    kinds, size = {}, {}
    for o in h.ops:
        if o['op'] == 'set':
            size[o['m'], o['i']] = len(o['v'])
        elif o['op'] == 'mk' and 'again' not in o:
            kinds[o['k']] = o['s']
        elif o['op'] == 'solve' and kinds.get(o['k'], 'print') != 'print' and r.random() < .3:
            o['rep'] = max(2, min(r.choice([3, 20, 70, 140, 300, 1100]), 400000 // (1 + sum(size.values()))))


def variation(r, h):
    variation1(r, h)
    if r.random() < .25:
        repeated(r, h)
    if r.random() < .25:
        copied(r, h)
    return h


def copied(r, h):
    """Copies of solvers work in place of the originals, which are set up for something else."""
    for o in h.ops:
        p = o.get('p')
        if o['op'] == 'mk' and r.random() < .6:
            o['via'] = r.choice(['copy', 'assign'])
            if p and r.random() < .7 and ('ms' not in p or not isinstance(p['q'][0] if p['q'] else [], list) or len(p['q']) == len(p['ms'])):
                o['q'] = other_params(r, p)


def variation1(r, h):
    k = r.random()
    ms = [o['m'] for o in h.ops if o['op'] == 'grid']
    vtk = any(o['op'].startswith('vtk') for o in h.ops)
    big = sum(len(o.get('v', ())) for o in h.ops) > 12000
    if k < .2 and ms == [0] and not big:
        twin_history(r, h)
    elif k < .32:        # solvers first set up otherwise
        ops = []
        known = []
        for o in h.ops:
            p = o.get('p') or {}
            if o['op'] in ('id', 'clone'):
                known.append(o['i'])
            if o['op'] == 'mk' and 'again' not in o and r.random() < .6 and (o['s'] != 'current_source' or len(p['q']) == len(p['ms'])):
                a = dict(o)
                if 'p' in o:
                    if r.random() < .7:
                        a['p'] = other_params(r, o['p'])
                    elif o['s'] != 'current_source':
                        del a['p']
                    o = dict(o, again=1)
                w = r.random()
                if w < .3:
                    a['in'], a['out'] = o['out'][::-1], o['in'] + o['out'][:1]
                elif w < .6 and 'p' in o:
                    n, m = r.randint(0, len(o['in'])), r.randint(0, len(o['out']))
                    a['in'], a['out'] = o['in'][:n], o['out'][:m]
                    o = dict(o, add=1, **{'in': o['in'][n:], 'out': o['out'][m:]})
                elif w < .9:          # lists which agree but for one place
                    for q in ('in', 'out'):
                        if o[q]:
                            a[q] = list(o[q])
                            a[q][r.choice([-1, r.randrange(len(a[q]))])] = r.choice(known)
                o = dict(o, again=1)
                ops += [a, o]
            else:
                ops.append(o)
        h.ops = ops
    elif k < .42 and not vtk and len(h.ids) > 1:       # two variables of one name, on other bases
        ids = [o for o in h.ops if o['op'] == 'id']
        prs = [(a, b) for a in ids for b in ids if a['i'] < b['i'] and a['comps'] == b['comps']]
        if prs:
            a, b = r.choice(prs)
            if not any(o['op'] == 'id' and o is not b and o['name'] == b['name'] for o in h.ops) and not any(o['op'] == 'id' and o is not a and o['name'] == a['name'] for o in h.ops):
                nb = 'face_basis' if b['np'] == 1 else 'nodes'
                if (nb, b['np']) != (a['bn'], a['np']):
                    b['name'], b['bn'] = a['name'], nb
                    h.ids[b['i']] = (b['name'], b['comps'], b['bn'], b['np'])
    elif k < .72 and not any(o['op'] == 'note' for o in h.ops):
        poked(r, h)
    elif k < .88 and len(ms) == 1:      # time goes on (or back) between the calls
        at, t = 1 + next(i for i, o in enumerate(h.ops) if o['op'] == 'grid'), r.choice([0.0, 0.5, 3.0, -1.0, 1e6])
        for _ in range(r.choice([1, 3, 6, 12])):
            if at > len(h.ops):
                break
            h.ops.insert(at, dict(op='time', m=ms[0], t=R(t)))
            t += r.choice([1e-6, .01, .125, 1.0, -.25])
            at += r.choice([1, 1, 2, 3, 5])
    return h


def run_sys(ctx, hs, n=8, timeout=700, exe=None, module='T_Sys', prefix='h'):
    exe = exe or ctx.build('drv_sys')
    if module == 'T_Sys':
        hs = [variation(ctx.rng, h) if isinstance(h, H) and not h.plain else h for h in hs]
    # balance by size
    hs = sorted(hs, key=lambda h: -len(json.dumps(h.ops)))
    jobs = [(prefix + str(i), [o for h in c for o in h.ops]) for i, c in enumerate(chunks(hs, n))]
    with ThreadPoolExecutor(NCPU) as ex:
        traces = list(ex.map(lambda a: ctx.drive(exe, a[1], a[0]), jobs))
    ctx.cov['histories'] = ctx.cov.get('histories', 0) + len(hs)
    ctx.cov['operations'] = ctx.cov.get('operations', 0) + sum(len(o) for _, o in jobs)
    for _, o in jobs[:3]:
        ctx.sample([x for x in o if x['op'] not in ('set',)][:8])
    ctx.validate(module, traces, timeout=timeout)
    return exe


def large(ctx, gen, n=2):
    """A few histories on meshes of about a thousand cells."""
    out = []
    try:
        for k in range(n):
            ctx.rng.big = 1 if k else 2
            h = gen()
            h.plain = True
            out.append(h)
    finally:
        ctx.rng.big = 0
    return out


# ------------------------------------------------------------------ C06, C07 boundaries
def bc_history(r, kinds, big=False, nd=None):
    nd = nd or r.choice([1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4])
    h = H()
    nm = r.choice([1, 1, 2]) if nd < 4 else 1
    for m in range(nm):
        mesh = rmesh(r, nd, length=(2, {1: r.choice([9, 9, 70]), 2: r.choice([5, 5, 9]), 3: 4 if big else 3, 4: 2}[nd]))
        w = [r.choice([1.0, 0.5, 3.25]) for _ in range(nd)]
        if m and r.random() < .4:
            h.grid(m, None, share=0)
            continue
        h.grid(m, mesh, [r.choice([0.0, -1.5, 2.0]) for _ in range(nd)], w)
    kind = r.choice(kinds)
    minc = {'bc_no_slip': 4, 'bc_free_slip': nd + 1, 'bc_conducting_wall': 3}.get(kind, 1)
    nv = r.randint(1, 3) if nd < 4 else 1
    if kind == 'bc_free_slip' and nd > 3:
        minc = 5
    vs = [h.id(r.choice([c for c in ((1, 2, 3, 4, 5, 5, 6, 8, 11) + ((37, 70) if r.random() < .08 else ()) if nd < 3 else (1, 2, 3, 4, 5, 5, 6, 8, 11) if nd < 4 else (1, 4, 5)) if c >= minc]), r.choice([1, 1, 2, 3]) if nd < 3 else 1) for _ in range(nv)]
    twin = None
    if nd < 4 and r.random() < .15:      # another variable of that name, on another basis
        name, comps, bn, np = h.ids[vs[0]]
        twin = h.id(len(comps), 1 if np > 1 else r.choice([1, 2]), name, 'face_basis', comps)
        vs.append(twin)
    for m in range(nm):
        for i in vs:
            if r.random() < .95:
                h.set(m, i, prior(r, h.grids[m], lambda x, p, c: r.uniform(-9, 9)))
    outs = [i for i in vs if r.random() < .75] or [vs[0]]
    if twin is not None and r.random() < .7:
        outs = [i for i in outs if i not in (vs[0], twin)] + r.sample([vs[0], twin], 2)
    if r.random() < .15:
        outs.append(outs[0])
    k = h.mk(kind, {'dims': pick_dims(r, nd)}, [], outs)
    k2 = h.mk(kind if r.random() < .5 else r.choice(kinds if kind in ('bc_copy_out', 'bc_periodic') else [kind]), {'dims': pick_dims(r, nd)}, [], [outs[0]]) if kind not in ('bc_periodic', 'bc_copy_out') else h.mk(kind, {'dims': pick_dims(r, nd)}, [], [outs[0]])
    m = r.randrange(nm)
    h.solve(k, m, r.choice([0, 0, 1, 7]))
    h.solve(k, m, 0)
    h.solve(k2, m, 0)
    if r.random() < .5:
        h.solve(k, r.randrange(nm), 0)
        h.op(op='mk', k=k, again=1, p={'dims': pick_dims(r, nd)}, **{'in': [], 'out': outs})
        h.solve(k, m, 1)
    return h


def c06(ctx):
    ctx.model_check('MC_Bc', 'MC_Bc_periodic.cfg')
    ctx.refute('MC_Bc', 'Neg_Bc_corner.cfg')
    run_sys(ctx, [bc_history(ctx.rng, ['bc_periodic']) for _ in range(ctx.n(130, 900))] + large(ctx, lambda: bc_history(ctx.rng, ['bc_periodic']), 3) + large(ctx, lambda: bc_history(ctx.rng, ['bc_periodic'], nd=3), 2))


def c07(ctx):
    ctx.model_check('MC_Bc', 'MC_Bc_walls.cfg')
    ctx.refute('MC_Bc', 'Neg_Bc_wrap.cfg')
    kinds = ['bc_copy_out', 'bc_no_slip', 'bc_free_slip', 'bc_conducting_wall']
    run_sys(ctx, [bc_history(ctx.rng, [k]) for k in kinds for _ in range(ctx.n(40, 300))] + [h for k in kinds for h in large(ctx, lambda: bc_history(ctx.rng, [k], nd=ctx.rng.choice([2, 3, 3])), 2)])


# ------------------------------------------------------------------ C08 registry
def registry_history(r):
    h = H(ptr=1)
    nm = r.choice([1, 2, 2])
    for m in range(nm):
        nd = r.choice([1, 1, 2, 2, 3])
        if m and r.random() < .5:
            h.grid(m, None, share=0)
        else:
            h.grid(m, rmesh(r, nd, length=(1, 3 if nd < 3 else 2)))
    names = ['q', 'qq', 'Q', 'q_1', 'rho', 'r-h.o', '', 'a b', LONG, LONG + 'a', LONG + 'b']
    if r.random() < .4:               # names of the same letters
        w = list(r.choice(['q_01', 'rho12', 'abcab', LONG + '12']))
        names = [''.join(w), ''.join(w[::-1]), w[0] + w[-1] + ''.join(w[1:-1])] + [''.join(r.sample(w, len(w))) for _ in range(3)]
    bases = [('volume_average', 1), ('face_basis', 1), ('face_basis', 2), ('nodes', 1), ('nodes', 3)]
    comps = [['x'], ['x', 'y'], ['y', 'x'], ['a', 'b', 'c'], ['x', '']]
    ids = []
    fixed = {}
    for _ in range(r.randint(3, 9)):
        if ids and r.random() < .35:
            n, c, b, p = h.ids[r.choice(ids)]
            ids.append(h.id(0, p, n, b, list(c)))      # an equal id, separately made
            continue
        n = r.choice(names)
        b, p = r.choice(bases)
        c = fixed.setdefault(n, r.choice(comps)) if r.random() < .8 else r.choice(comps)
        ids.append(h.id(0, p, n, b, list(c)))
    clone = 0
    for _ in range(r.randint(8, 26)):
        m, i = r.randrange(nm), r.choice(ids)
        k = r.random()
        if nm == 2 and k < .15:          # the same variable of both managers, by turns
            o = [m, 1 - m, m, 1 - m]
            for q in o[:2]:
                h.set(q, i, lambda x, p, c: r.uniform(-5, 5))
            for q in o:
                h.op(op=r.choice(['out', 'in']), m=q, i=i)
        elif k < .3:
            h.op(op='out', m=m, i=i)
        elif k < .5:
            h.op(op='in', m=m, i=i)
        elif k < .85:
            h.set(m, i, lambda x, p, c: r.uniform(-5, 5))
        elif k < .93:
            h.op(op='time', m=m, t=R(r.choice([0.0, r.uniform(-10, 10), 1e-300, 1e300])))
        else:
            h.op(op='dt', m=m, dt=R(r.choice([0.0, r.uniform(0, 1), -0.5])))
    return h


def c08(ctx):
    ctx.model_check('MC_Registry')
    hs = [registry_history(ctx.rng) for _ in range(ctx.n(130, 900))]
    r = ctx.rng
    for k in range(ctx.n(4, 20)):       # many variables: nothing moves as the manager grows
        h = H(ptr=1)
        h.grid(0, rmesh(r, 1, length=(1, 3)))
        w = r.choice([None, '001234', 'abcde'])
        fresh = (lambda: 'w%d' % r.randint(0, 10 ** 6)) if w is None else lambda: ''.join(r.sample(w, len(w)))
        ids = [h.id(r.randint(1, 3), name=n) for n in sorted({fresh() for _ in range(110 if k == 0 else ctx.n(25, 80))})]
        r.shuffle(ids)
        for i in ids:
            h.op(op='out', m=0, i=i) if r.random() < .4 else h.set(0, i, lambda x, p, c: r.uniform(-5, 5))
        for i in r.sample(ids, 8):
            h.op(op=r.choice(['out', 'in']), m=0, i=i)
        hs.append(h)
    run_sys(ctx, hs)


# ------------------------------------------------------------------ C11 Runge-Kutta
def rk_history(r):
    nd = r.choice([1, 2, 2, 3])
    h = H()
    h.grid(0, rmesh(r, nd, length=(1, r.choice([4, 4, 40]) if nd == 1 else 4 if nd < 3 else 3)))
    nc, np = r.choice([1, 3, 5, 6, 7, 7 if nd > 2 else r.choice([1, 5, 40, 68])]), r.choice([1, 1, 2]) if nd < 3 else 1
    u0, rh, a, b, c, oth = [h.id(nc, np) for _ in range(6)]
    amp = r.choice([1.0, 1.0, 100.0, 1e-3, 1e-40, 1e60])
    rnd = lambda x, p, k: amp * r.uniform(-3, 3) if r.random() < .9 else r.choice([0.0, amp, -amp])
    h.set(0, u0, rnd)
    h.set(0, oth, rnd)
    h.op(op='dt', m=0, dt=R(r.choice([0.1, 0.5, 1.0, 2.0, 1e-3, 0.0, -0.25, r.uniform(0, 3)])))
    zero = r.random() < .25
    h.set(0, rh, (lambda x, p, k: 0.0) if zero else rnd)
    k1 = h.mk('rk1', None, [u0, rh], [a] + ([oth] if r.random() < .2 else []))
    k3 = h.mk('ssprk3', None, [u0, rh], [a, b, c] + ([oth] if r.random() < .2 else []))
    for i in (a, b, c):
        if r.random() < .5:
            h.set(0, i, rnd)
    if zero:
        for t in (0, 1, 2):
            h.solve(k3, 0, t)
        h.op(op='note', rel='eq', m=0, n=0, i=c, j=u0, ax=list(range(1, nd + 1)), off=[0] * nd, cm=list(range(nc)), sg=[1] * nc, skip=[], sc=R(amp), **{'in': h.grids[0]})
        return h
    for k in (k1, k3):
        if r.random() < .3:
            h.op(op='stages', k=k)
    for _ in range(r.randint(4, 9)):
        k = r.random()
        if k < .12:
            h.set(0, rh, rnd)
        elif k < .2:
            h.op(op='dt', m=0, dt=R(r.uniform(0.01, 2)))
        elif k < .4:
            h.solve(k1, 0, r.choice([0, 0, 0, 1, 2, -1]))
        else:
            h.solve(k3, 0, r.choice([0, 1, 2, 0, 1, 2, 3, -1, 17]))
    return h


def c11(ctx):
    ctx.model_check('MC_Rk')
    run_sys(ctx, [rk_history(ctx.rng) for _ in range(ctx.n(160, 900))] + large(ctx, lambda: rk_history(ctx.rng), 3))


# ------------------------------------------------------------------ flux solvers
def p2(r, k):
    """A power of two, mostly 1."""
    return 2.0 ** r.choice([0, 0, 0, 0, -k, k, r.randint(-k, k), r.randint(-k, k)])


def em_data(r, style=None, scale=None):
    """Field values on a lattice, times a power of two."""
    a = p2(r, 40) if scale is None else scale
    f = em_data1(r, style)
    return lambda x, p, c: a * f(x, p, c)


def em_data1(r, style=None):
    style = style or r.choice(['rough', 'rough', 'smooth', 'uniform', 'sparse', 'blocks', 'zero', 'mono', 'some'])
    if style == 'zero':
        return lambda x, p, c: 0.0
    if style == 'some':           # only some components are not zero
        on = [r.random() < .4 for _ in range(9)]
        return lambda x, p, c: lat(r) if on[c] else 0.0
    if style == 'mono':           # monotone along a direction, curved
        d, k = r.randrange(3), r.choice([1, -1])
        return lambda x, p, c: k * (x[d % len(x)] ** 2 * (1 if x[d % len(x)] > 0 else -1) + c) / 8.0 + (x[-1] if c % 2 else 0) / 4.0
    if style == 'blocks':
        d, at = r.randrange(3), r.randint(-1, 3)
        v = [[lat(r) for _ in range(9)] for _ in range(2)]
        return lambda x, p, c: v[x[d % len(x)] >= at][c]
    if style == 'uniform':
        v = [lat(r) for _ in range(6)]
        return lambda x, p, c: v[c]
    if style == 'sparse':
        return lambda x, p, c: lat(r) if r.random() < .2 else 0.0
    if style == 'smooth':
        w = [[r.randint(-2, 2) for _ in range(4)] for _ in range(8)]
        return lambda x, p, c: (w[c][3] + sum(w[c][d] * x[d] for d in range(len(x)))) / 8.0 + (r.randint(0, 1) / 16.0 if c % 2 else 0)
    return lambda x, p, c: lat(r)


def gas_data(r, style=None, scale=None, tame=False):
    """Conserved gas states on a lattice, physical also after extrapolation to faces; density times a power of two, velocity times another."""
    a, v = scale or (p2(r, r.choice([30, 30, 70])), p2(r, 20))
    f = gas_data1(r, style, tame)
    return lambda x, p, c: f(x, p, c) * a * (1.0 if c == 0 else v if c < 4 else v * v)


# for a ratio of specific heats of 2: at rest, and moving at exactly the speed of sound, or faster
EXACT = [(2, 0, 0, 0, 1), (2, 2, 0, 0, 2), (2, -2, 0, 0, 2), (2, 0, 2, 0, 2), (2, 0, -2, 0, 2), (2, 0, 0, 2, 2), (2, 0, 0, -2, 2), (2, 2, 2, 0, 3), (2, -2, 2, -2, 4),
         (2, 4, 0, 0, 5), (2, -4, 0, 0, 5), (2, 0, 4, 0, 5), (2, 0, 0, 0, 4), (8, 0, 0, 0, 4), (1, 0, 0, 0, 2), (2, 4, 0, 0, 8), (1, 1, -1, .5, 3)]


def gas_data1(r, style=None, tame=False):
    style = style or r.choice(['sub', 'sub', 'super', 'trans', 'uniform', 'mixed'] + ([] if tame else ['exact', 'exact', 'thin']))
    if style == 'exact':         # blocks of constant states
        d, at, st = r.randrange(3), sorted(r.sample(range(-2, 5), 2)), [r.choice(EXACT[1:7] + EXACT) for _ in range(3)]
        return lambda x, p, c: float(st[(x[d % len(x)] >= at[0]) + (x[d % len(x)] >= at[1])][c])
    if style == 'thin':          # next to no pressure in parts
        at = r.randint(-1, 4)
        return lambda x, p, c: (1 + x[-1] % 3) / 2.0 if c == 0 else 0.0 if c < 4 else (1.0 if x[0] >= at else 2.0 ** -12) * (1 + x[0] % 2)
    base = [r.choice([0, 0, 1, -1]) for _ in range(3)]
    if style == 'super':
        base = [r.choice([-6, 6, 6, -6, 0]) for _ in range(3)]
    if style == 'trans':
        base = [r.choice([-1.5, 1.5, -2, 2]) for _ in range(3)]
    e0 = round(0.5 * sum((abs(b) + .5) ** 2 for b in base) / .9) + 3
    flat = style == 'uniform'
    w = [r.randint(0, 4), r.randint(-3, 3), r.randint(-3, 3), r.randint(-3, 3), r.randint(-3, 3)]
    jump = r.choice([None, 'x'])
    at = r.randint(-1, 3)

    def f(x, p, c):
        k = w[c] if flat else (r.randint(0, 6) if c == 0 else r.randint(-3, 3))
        if style == 'mixed' and x[0] >= at:      # supersonic next to subsonic
            if c == 1:
                return 4 + k / 16.0
            if c == 4:
                return 14 + k / 16.0
            return (1 if c == 0 else 0) + k / 16.0
        if c == 0:
            return 1 + k / 16.0
        if c == 4:
            return e0 + (6 if style == 'mixed' else 0) + k / 16.0
        return base[c - 1] + k / 16.0
    return f


def flux_grid(r, h, m, nd, mx=None, mn=1, dxs=None):
    mesh = rmesh(r, nd, length=(mn, mx or {1: r.choice([7, 7, 7, 33]), 2: r.choice([4, 4, 6]), 3: r.choice([2, 2, 3])}[nd]))
    dx = [r.choice(dxs or [1.0, 0.5, 2.0, 3.0, 1e-3, 1e4]) for _ in mesh]
    if nd > 1 and not dxs and r.random() < .3:       # spacings which are easily taken for equal: nearly so, or all tiny
        dx = r.choice([[dx[0] * (1 + r.choice([0, 1e-2, -2e-3, 1e-3, 3e-4])) for _ in mesh], [r.choice([1e-4, 2e-4, 3e-4, 5e-4, 1e-3]) for _ in mesh], [r.choice([1e-8, 2e-8, 5e-8]) for _ in mesh]])
    h.grid(m, mesh, [r.choice([0.0, -2.0]) for _ in range(nd)], [d * (b - a) for d, (a, b) in zip(dx, mesh)])
    return mesh


def flux_history(r, kind):
    nd = r.choice([1, 1, 2, 2, 3])
    h = H()
    flux_grid(r, h, 0, nd)
    nc = 5 if kind == 'euler' else 6
    q, rhs, q2, oth = h.id(nc), h.id(nc), h.id(nc), h.id(r.choice([1, 5, 6]))
    data = gas_data if kind == 'euler' else em_data
    exact = 'exact' if kind == 'euler' and r.random() < .35 else None
    h.set(0, q, data(r, exact))
    h.set(0, q2, data(r, exact))
    h.set(0, oth, lambda x, p, c: r.uniform(-1, 1))
    if r.random() < .6:
        big = r.choice([1.0, 1.0, 1e-40, 1e40, 2.0 ** -60])
        h.set(0, rhs, lambda x, p, c: big * lat(r) * r.choice([1.0, 1.0, 1e-6]))
    p = {'gamma': 2.0 if exact and r.random() < .8 else r.choice([1.4, 5 / 3.0, 2.0, 2.0, 1.1, 3.0])} if kind == 'euler' else {'c': r.choice([1.0, 1.0, 0.5, 2.0, 3.0, -1.5, 0.0, 299792458.0, 2.0 ** -20, -1.0])}
    k = h.mk(kind, p, [q], [rhs])
    h.op(op='dt', m=0, dt=R(r.choice([0.0, 0.1, 7.0])))
    h.solve(k, 0, r.choice([0, 0, 1, 2]))
    if r.random() < .4:
        k2 = h.mk(kind, p, [q2], [rhs])
        h.solve(k2, 0, 0)
    return h


def c12(ctx):
    ctx.model_check('MC_Flux', 'MC_Flux_big.cfg' if ctx.thorough else 'MC_Flux.cfg')
    run_sys(ctx, [flux_history(ctx.rng, 'maxwell') for _ in range(ctx.n(180, 900))] + large(ctx, lambda: flux_history(ctx.rng, 'maxwell'), 2))


def c13(ctx):
    ctx.model_check('MC_Flux', 'MC_Gas.cfg')
    run_sys(ctx, [flux_history(ctx.rng, 'euler') for _ in range(ctx.n(180, 900))] + large(ctx, lambda: flux_history(ctx.rng, 'euler'), 2))


# ------------------------------------------------------------------ C15 advection
def adv_history(r):
    nd = r.choice([1, 1, 2, 2, 3])
    h = H()
    flux_grid(r, h, 0, nd, {1: r.choice([7, 7, 40]), 2: r.choice([4, 4, 7]), 3: 3}[nd])
    nc = r.choice([1, 1, 2, 3])
    a, b, c, oth = [h.id(nc) for _ in range(4)]
    style = r.choice(['rough', 'rough', 'sparse', 'smooth', 'uniform', 'scaled', 'scaled', 'tiny', 'ripple'])
    u = lat(r)
    g = em_data(r)
    small = 2.0 ** -r.randint(20, 60)

    def f(x, p, k):
        if style == 'scaled':
            return g(x, p, k)
        if style == 'tiny':
            return small * lat(r)
        if style == 'ripple':
            return u + 2.0 ** -24 * r.randint(-8, 8)
        if style == 'uniform':
            return u
        if style == 'sparse':
            return lat(r) if r.random() < .3 else 0.0
        if style == 'smooth':
            return sum((d + 1) * x[d] for d in range(nd)) / 8.0 + r.randint(0, 1) / 16.0
        return lat(r)
    h.set(0, a, f)
    h.set(0, oth, f)
    h.op(op='dt', m=0, dt=R(r.choice([0.1, 0.25, 0.5, 1.0, 0.01, 1e-7])))
    h.op(op='time', m=0, t=R(r.choice([0.0, 3.0])))
    vel = [r.choice([1.0, -1.0, 0.0, 0.5, -2.0, 0.75, 1e-9, -1e6, 3.0]) for _ in range(max(nd, r.choice([nd, 3])))]
    if r.random() < .15:      # slow, over a long step
        k = r.choice([-13, -14, -18, -30, -100])
        vel = [v * 10.0 ** k for v in vel]
        h.op(op='dt', m=0, dt=R(10.0 ** (-k - r.choice([0, 1, 2]))))
    k = h.mk('ssprk2_advection', {'vel': vel}, [a], [b, c])
    if r.random() < .5:
        h.set(0, c, f)
    h.solve(k, 0, 0)
    if r.random() < .7:
        h.set(0, b, f)        # stage 1 from an arbitrary intermediate state on the lattice
        h.solve(k, 0, 1)
    if r.random() < .3:
        h.solve(k, 0, r.choice([2, -1, 5]))
    return h


def c15(ctx):
    ctx.model_check('MC_Flux', 'MC_Adv.cfg')
    run_sys(ctx, [adv_history(ctx.rng) for _ in range(ctx.n(240, 1800))] + large(ctx, lambda: adv_history(ctx.rng), 3))


# ------------------------------------------------------------------ C16 sources
def src_history(r):
    nd = r.choice([1, 1, 2, 2, 3])
    h = H()
    h.grid(0, rmesh(r, nd, length=(1, {1: 6, 2: 4, 3: 2}[nd])))
    ns = r.choice([1, 2, 2, 3, 5])
    fl = [h.id(5) for _ in range(ns)]
    field, frhs = h.id(6), h.id(6)
    rh = [h.id(5) for _ in range(ns)]
    def rnd():
        k = r.random()
        a = r.choice([1.0, 1.0, 1e-8, 1e12, 1e-30])
        if k < .15:
            return lambda x, p, c: 0.0
        if k < .35:
            on = [r.random() < .5 for _ in range(6)]
            return lambda x, p, c: a * r.uniform(-3, 3) if on[c] else 0.0
        if k < .45:
            return lambda x, p, c: a * r.choice([0.0, 1.0, -1.0])
        return lambda x, p, c: a * r.uniform(-3, 3)

    def holes(f, groups):
        """f, but whole groups of components vanish everywhere, nowhere, in the first mesh cells, or in some cells."""
        how = [r.choice(['', '', 'all', 'first', 'low', 'some']) for _ in groups]
        cells, cut = {}, r.randint(0, 3)

        def g(x, p, c):
            for n, (gr, k) in enumerate(zip(groups, how)):
                if c in gr and (k == 'all' or k == 'first' and all(v <= 0 for v in x) or k == 'low' and x[0] <= cut or k == 'some' and cells.setdefault((n, tuple(x)), r.random() < .5)):
                    return 0.0
            return f(x, p, c)
        return g
    for i in fl:
        h.set(0, i, holes(rnd(), [[0], [1, 2, 3], [4]]) if r.random() < .4 else rnd())
    h.set(0, field, holes(rnd(), [[0, 1, 2], [3, 4, 5]]) if r.random() < .5 else rnd())
    for i in rh + [frhs]:
        if r.random() < .7:
            h.set(0, i, rnd())
    q = [r.choice([-1.0, 1.0, 2.0, -0.5, 0.0, 10.0, 1.6e-19, -1e9]) for _ in range(ns)]
    ms = [r.choice([1.0, 0.04, 25.0, 3.0, 9e-31]) for _ in range(ns)]
    eps = r.choice([1.0, 0.5, 8.0, 0.01, 8.85e-12, -2.0])
    ks = [h.mk('lorentz_force', {'q': q[i], 'ms': ms[i]}, [fl[i], field], [rh[i]]) for i in range(ns)]
    ks.append(h.mk('current_source', {'eps0': eps, 'q': q, 'ms': ms}, fl, [frhs]))
    perm = list(range(ns))
    r.shuffle(perm)
    ks.append(h.mk('current_source', {'eps0': eps, 'q': [q[i] for i in perm], 'ms': [ms[i] for i in perm]}, [fl[i] for i in perm], [frhs]))
    if r.random() < .4:      # the same fluid more than once
        some = [r.randrange(ns) for _ in range(r.randint(1, 3)) ]
        some = sum([[i] * r.choice([1, 2, 2, 3]) for i in some], [])
        if r.random() < .3:
            r.shuffle(some)
        qq, mm = [q[i] if r.random() < .6 else r.choice([1.0, -2.0, 3.5]) for i in some], [ms[i] for i in some]
        ks.append(h.mk('current_source', {'eps0': eps, 'q': qq, 'ms': mm}, [fl[i] for i in some], [frhs]))
        h.solve(ks[-1], 0, 0)
    if r.random() < .3:      # setting a solver up again replaces its species
        for n2 in r.choice([[r.randint(1, ns)], [1, ns], [ns, 1], r.sample(range(1, ns + 1), min(ns, 3))]):
            h.op(op='mk', k=ks[ns + 1], again=1, p={'eps0': R(eps), 'q': [R(x) for x in q[:n2]], 'ms': [R(x) for x in ms[:n2]]}, **{'in': fl[:n2], 'out': [frhs]})
            h.solve(ks[ns + 1], 0, 0)
    for _ in range(r.randint(2, 5)):
        h.solve(r.choice(ks), 0, r.choice([0, 1, 2]))
    return h


def c16(ctx):
    ctx.model_check('MC_Source')
    run_sys(ctx, [src_history(ctx.rng) for _ in range(ctx.n(200, 1500))] + large(ctx, lambda: src_history(ctx.rng), 2))


# ------------------------------------------------------------------ C14 conservation
def wrap(mesh, x):
    return tuple(a + (k - a) % (b - a) for k, (a, b) in zip(x, mesh))


def tabulate(mesh, f, nc):
    return {x: [f(x, 0, c) for c in range(nc)] for x in points(mesh)}


def cons_history(r, kind):
    nd = r.choice([1, 2, 2, 3])
    h = H(loose=[kind])
    nc = {'euler': 5, 'maxwell': 6, 'ssprk2_advection': 1}[kind]
    sa, sv = p2(r, 40), p2(r, 20)
    data = {'euler': lambda r: gas_data(r, None, (sa, sv), True), 'maxwell': lambda r: em_data(r, None, sa), 'ssprk2_advection': lambda r: em_data(r, r.choice(['rough', 'sparse', 'blocks', 'mono']), sa)}[kind]
    sd = r.choice([1.0, 1.0, p2(r, 20)])           # how large all cells are
    dxs = [x * sd for x in [1.0, 0.5, 2.0, 3.0]]
    periodic = r.random() < .6
    if periodic:
        mesh = flux_grid(r, h, 0, nd, {1: 8, 2: 4, 3: 3}[nd], dxs=dxs)
    else:
        nd = min(nd, 2)
        mesh = flux_grid(r, h, 0, nd, {1: 9, 2: 6}[nd], 5, dxs=dxs)
    N = vol(mesh)
    scale = [R(N * 200.0 * x / (sd if kind != 'ssprk2_advection' else 1.0)) for x in ([sa * sv] + [sa * sv * sv] * 3 + [sa * sv ** 3] if kind == 'euler' else [sa] * nc)]
    q, rhs, q2, rhs2, w = [h.id(nc) for _ in range(5)]
    p = {'euler': {'gamma': r.choice([1.4, 5 / 3.0, 2.0])}, 'maxwell': {'c': r.choice([1.0, 0.5, 3.0, -2.0])},
         'ssprk2_advection': {'vel': [r.choice([1.0, -1.0, 0.5, -2.0, 0.0]) for _ in range(nd)]}}[kind]
    adv = kind == 'ssprk2_advection'
    h.op(op='dt', m=0, dt=R(r.choice([0.1, 0.5]) * (sd if adv else 1.0)))
    if periodic:
        t = tabulate(mesh, data(r), nc)
        h.set(0, q, lambda x, _, c: t[wrap(mesh, x)][c])
        if adv:
            k = h.mk(kind, p, [q], [w, rhs])
            h.solve(k, 0, 0)
            h.op(op='note', rel='sumeq', m=0, i=w, j=q, scale=scale)
            t2 = tabulate(mesh, data(r), nc)
            h.set(0, w, lambda x, _, c: t2[wrap(mesh, x)][c])
            h.solve(k, 0, 1)
            h.op(op='note', rel='sumavg', m=0, i=rhs, j=q, k=w, scale=scale)
        else:
            k = h.mk(kind, p, [q], [rhs])
            h.op(op='out', m=0, i=rhs)
            h.solve(k, 0, r.choice([0, 1]))
            h.op(op='note', rel='sumzero', m=0, i=rhs, scale=scale)
    else:
        v = data(r)
        tab = {}
        cell = tuple(r.randint(a + 2, b - 3) for a, b in mesh)
        alt = [v(cell, 0, c) for c in range(nc)]

        def first(x, _, c):
            tab[x, c] = v(x, 0, c)
            return tab[x, c]
        h.set(0, q, first)
        h.set(0, q2, lambda x, _, c: alt[c] if x == cell else tab[x, c])
        if adv:
            w2 = h.id(1)
            k, k2 = h.mk(kind, p, [q], [w, rhs]), h.mk(kind, p, [q2], [w2, rhs2])
            h.solve(k, 0, 0)
            h.solve(k2, 0, 0)
            d = alt[0] - tab[cell, 0]       # the perturbation itself is in both sums
            h.op(op='note', rel='sumdiff', m=0, i=w2, j=w, d=R(d), scale=scale)
        else:
            k, k2 = h.mk(kind, p, [q], [rhs]), h.mk(kind, p, [q2], [rhs2])
            h.solve(k, 0, 0)
            h.solve(k2, 0, 0)
            h.op(op='note', rel='sumeq', m=0, i=rhs, j=rhs2, scale=scale)
    return h


def c14(ctx):
    ctx.model_check('MC_Conserve')
    ctx.refute('MC_Conserve', 'Neg_Conserve.cfg')
    run_sys(ctx, [cons_history(ctx.rng, k) for k in ('euler', 'maxwell', 'ssprk2_advection') for _ in range(ctx.n(75, 500))] + large(ctx, lambda: cons_history(ctx.rng, ctx.rng.choice(['euler', 'maxwell', 'ssprk2_advection'])), 2))


# ------------------------------------------------------------------ C17 locality, additivity, symmetry
def eqnote(h, m, i, n, j, mesh, nc, sc, ax=None, off=None, cm=None, sg=None, skip=()):
    nd = len(mesh)
    h.op(op='note', rel='eq', m=m, n=n, i=i, j=j, ax=ax or list(range(1, nd + 1)), off=off or [0] * nd, cm=cm or list(range(nc)), sg=sg or [1] * nc,
         skip=[list(x) for x in skip], sc=R(sc), **{'in': mesh})


SPATIAL = ['euler', 'maxwell', 'lorentz_force', 'current_source']


def spatial(r, h, kind, out_nc=None):
    p = {'euler': {'gamma': 1.4}, 'maxwell': {'c': r.choice([1.0, 2.0, 0.5])}, 'lorentz_force': {'q': r.choice([-1.0, 2.0]), 'ms': r.choice([1.0, 0.5])},
         'current_source': {'eps0': r.choice([1.0, 0.5]), 'q': [1.0, -1.0], 'ms': [1.0, 0.25]}}[kind]
    ins = {'euler': [5], 'maxwell': [6], 'lorentz_force': [5, 6], 'current_source': [5, 5]}[kind]
    out = {'euler': 5, 'maxwell': 6, 'lorentz_force': 5, 'current_source': 6}[kind]
    return p, ins, out


def data_for(r, nc):
    flat = r.random() < .06
    return gas_data(r, 'uniform' if flat else r.choice(['sub', 'super', 'trans', 'mixed']), (1.0, 1.0), True) if nc == 5 else em_data(r, 'uniform' if flat else None, 1.0)


def c17_history(r, what=None, length=None, kind=None):
    h = H(loose=SPATIAL)
    what = what or r.choice(['add', 'add', 'addzero', 'local', 'local', 'shift', 'axes', 'axes', 'axes'])
    kind = kind or r.choice(SPATIAL + ['euler', 'euler', 'maxwell'])
    p, ins, onc = spatial(r, h, kind)
    sc = 100.0
    if what == 'add':
        nd = r.choice([1, 2, 3])
        mesh = flux_grid(r, h, 0, nd, dxs=[1.0, 0.5, 2.0, 3.0])
        pair = [('euler', 'lorentz_force'), ('maxwell', 'current_source'), ('euler', 'euler'), ('maxwell', 'maxwell'), ('lorentz_force', 'lorentz_force'), ('current_source', 'current_source')]
        a, b = r.choice(pair)
        sv = []
        for kd in (a, b):
            p, ins, onc = spatial(r, h, kd)
            vs = [h.id(n) for n in ins]
            for v, n in zip(vs, ins):
                h.set(0, v, data_for(r, n))
            sv.append((kd, p, vs))
        z1, z2, base, acc, rev = [h.id(onc) for _ in range(5)]
        f = [lat(r) for _ in range(vol(ext(mesh)) * onc)]
        for i in (base, acc, rev):
            h.set(0, i, f)
        for i, s in ((z1, sv[0]), (z2, sv[1])):
            h.op(op='out', m=0, i=i)
            h.solve(h.mk(s[0], s[1], s[2], [i]), 0, r.choice([0, 1, 2]))
        for s in sv:
            h.solve(h.mk(s[0], s[1], s[2], [acc]), 0, 0)
        for s in sv[::-1]:
            h.solve(h.mk(s[0], s[1], s[2], [rev]), 0, r.choice([0, 2]))
        h.op(op='note', rel='add', m=0, i=acc, base=base, parts=[z1, z2], sc=R(sc))
        h.op(op='note', rel='add', m=0, i=rev, base=base, parts=[z1, z2], sc=R(sc))
        return h
    if what == 'addzero':        # nothing to add: whatever the right-hand side holds stays, at any magnitude
        mesh = flux_grid(r, h, 0, r.choice([1, 2, 3]))
        kind = r.choice(['maxwell', 'lorentz_force', 'current_source', 'maxwell'])
        p, ins, onc = spatial(r, h, kind)
        vs = [h.id(n) for n in ins]
        for v, n in zip(vs, ins):
            f = data_for(r, n) if n == 5 else None
            # no fields, no momentum (a fluid at rest without a field feels no force)
            h.set(0, v, lambda x, _, c: (f(x, 0, c) if f and c in (0, 4) else 0.0))
        base, acc, z = h.id(onc), h.id(onc), h.id(onc)
        vals = [r.choice([1.0, -1.0]) * r.uniform(.1, 1) * 10.0 ** r.randint(-300, 300) for _ in range(vol(ext(mesh)) * onc)]
        for i in (base, acc):
            h.set(0, i, vals)
        h.op(op='out', m=0, i=z)
        for o in (acc, z, acc):
            h.solve(h.mk(kind, p, vs, [o]), 0, r.choice([0, 1, 2]))
        h.op(op='note', rel='add', m=0, i=acc, base=base, parts=[z], sc=R(0.0))
        return h
    if what == 'local':
        nd = r.choice([1, 2, 2])
        mesh = flux_grid(r, h, 0, nd, {1: 9, 2: 6}[nd], {1: 4, 2: 4}[nd])
        A, B = [h.id(n) for n in ins], [h.id(n) for n in ins]
        cell = tuple(r.randint(a, b - 1) for a, b in ext(mesh))
        for i, j, n in zip(A, B, ins):
            f = data_for(r, n)
            vals = {x: [f(x, 0, c) for c in range(n)] for x in points(ext(mesh))}
            big = r.choice([1.0, 1.0, 1e6, 1e13, 1e-9])      # also out of all proportion to the rest of the mesh
            alt = [big * f(cell, 0, c) for c in range(n)]
            h.set(0, i, lambda x, _, c: vals[x][c])
            h.set(0, j, lambda x, _, c: alt[c] if x == cell else vals[x][c])
        oa, ob = h.id(onc), h.id(onc)
        for i, o in ((A, oa), (B, ob)):
            h.op(op='out', m=0, i=o)
            h.solve(h.mk(kind, p, i, [o]))
        rad = 2 if kind in ('euler', 'maxwell') else 0
        skip = set([cell])
        for d in range(nd):
            for k in range(-rad, rad + 1):
                skip.add(tuple(cell[e] + (k if e == d else 0) for e in range(nd)))
        eqnote(h, 0, oa, 0, ob, mesh, onc, sc, skip=skip)
        return h
    if what == 'shift':
        nd = 1 if length else r.choice([1, 2, 3])
        small = rmesh(r, nd, length=(length, length) if length else (1, {1: 4, 2: 3, 3: 2}[nd]))
        dx = [r.choice([1.0, 0.5, 0.25]) for _ in range(nd)]
        off = [r.randint(-3, 3) for _ in range(nd)]
        large = [[a + o - r.randint(0, 3), b + o + r.randint(0, 3)] for (a, b), o in zip(small, off)]
        h.grid(0, small, [0.0] * nd, [w * (b - a) for w, (a, b) in zip(dx, small)])
        h.grid(1, large, [1.0] * nd, [w * (b - a) for w, (a, b) in zip(dx, large)])
        A = [h.id(n) for n in ins]
        for i, n in zip(A, ins):
            f = data_for(r, n)
            vals = {x: [f(x, 0, c) for c in range(n)] for x in points(ext(small))}
            h.set(0, i, lambda x, _, c: vals[x][c])

            def g(x, _, c):
                y = tuple(a - o for a, o in zip(x, off))
                return vals[y][c] if y in vals else f(x, 0, c)
            h.set(1, i, g)
        o = h.id(onc)
        k = h.mk(kind, p, A, [o])
        for m in (0, 1):
            h.op(op='out', m=m, i=o)
            h.solve(k, m, 0)
        eqnote(h, 0, o, 1, o, small, onc, sc, off=off)
        return h
    nd = r.choice([2, 3])
    mesh = rmesh(r, nd, length=(1, 4 if nd == 2 else 2))
    dx = [r.choice([1.0, 0.5, 0.25]) for _ in range(nd)]
    perm = list(range(nd))
    while perm == sorted(perm):
        r.shuffle(perm)
    # grid 1: dimension d is dimension perm[d] of grid 0
    h.grid(0, mesh, [0.0] * nd, [w * (b - a) for w, (a, b) in zip(dx, mesh)])
    h.grid(1, [mesh[d] for d in perm], [0.0] * nd, [dx[d] * (mesh[d][1] - mesh[d][0]) for d in perm])
    full = perm + list(range(nd, 3))
    odd = sum(1 for i in range(3) for j in range(i) if full[j] > full[i]) % 2

    def comps(n):   # component c of grid 1 is component src[c] of grid 0, with this sign
        if n == 5:
            return [0] + [1 + d for d in full] + [4], [1] * 5
        return list(full) + [3 + d for d in full], [1, 1, 1] + [-1 if odd else 1] * 3
    A = [h.id(n) for n in ins]
    for i, n in zip(A, ins):
        f = data_for(r, n)
        vals = {x: [f(x, 0, c) for c in range(n)] for x in points(ext(mesh))}
        src, sg = comps(n)

        def g(y, _, c):
            x = [0] * nd
            for d in range(nd):
                x[perm[d]] = y[d]
            return sg[c] * vals[tuple(x)][src[c]]
        h.set(0, i, lambda x, _, c: vals[x][c])
        h.set(1, i, g)
    o = h.id(onc)
    k = h.mk(kind, p, A, [o])
    for m in (0, 1):
        h.op(op='out', m=m, i=o)
        h.solve(k, m, 0)
    src, sg = comps(onc)
    inv = [src.index(c) for c in range(onc)]
    eqnote(h, 0, o, 1, o, mesh, onc, sc, ax=[d + 1 for d in perm], cm=inv, sg=[sg[inv[c]] for c in range(onc)])
    return h


def c17(ctx):
    ctx.model_check('MC_Flux', 'MC_Flux_big.cfg' if ctx.thorough else 'MC_Flux.cfg')
    sizes = SIZES[2:]
    longs = [c17_history(ctx.rng, 'shift', n, kd) for kd in ('euler', 'maxwell') for n in sizes + ([511, 512, 1023, 1024] if ctx.thorough else [])]
    longs += [c17_history(ctx.rng, 'shift', ctx.rng.randint(5, 300), kd) for kd in SPATIAL for _ in range(ctx.n(2, 12))]
    run_sys(ctx, longs + [c17_history(ctx.rng) for _ in range(ctx.n(400, 3000))])


# ------------------------------------------------------------------ C18 initial conditions
def ic_history(r, kind=None, nd=None):
    nd = nd or r.choice([1, 2, 3])
    h = H()
    mesh = rmesh(r, nd, zero=True, length=(1, {1: 9, 2: 5, 3: 3}[nd]))
    tie = r.random() < .3          # cells centred exactly on a jump
    if tie:
        dx = r.choice([1.0, .5, .25])
        h.grid(0, mesh, [-(r.randrange(b - a) + .5) * dx for a, b in mesh], [(b - a) * dx for a, b in mesh])
    else:
        h.grid(0, mesh, [r.choice([-1.0, -0.5, 0.0, 0.3, -2.7]) for _ in range(nd)], [r.choice([1.0, 2.0, 0.7, 5.4]) for _ in range(nd)])
    kind = kind or r.choice(['shock_tube', 'radial_shock_tube', 'gaussian', 'magnetic_pulse', 'electromagnetic_wave_1D', 'brio_wu_shock_tube', 'gem_challenge'])
    U = lambda a, b: r.uniform(a, b)
    Z = lambda a, b: r.choice([r.uniform(a, b), r.uniform(a, b), r.uniform(a, b), 0.0, -1.0, 1.0])
    P = {'shock_tube': lambda: {'rho': U(.05, 3), 'P': U(.05, 3), 'gamma': r.choice([1.4, 5 / 3.0, 2.0])},
         'radial_shock_tube': lambda: dict({'r': U(.1, 1.5), 'rho': U(.05, 3), 'P': U(.05, 3), 'gamma': r.choice([1.4, 5 / 3.0])}, **({'center': [Z(-.5, .5) for _ in range(r.choice([3, 3, nd]))]} if r.random() < .6 else {})),
         'gaussian': lambda: {'amp': Z(-3, 3), 'avg': [Z(-.5, .5) for _ in range(r.choice([3, nd]))], 'sd': U(.2, 2) * r.choice([1, 1, 1, .1, 40, 3e3])},
         'magnetic_pulse': lambda: {'amp': Z(-3, 3), 'sd': U(.1, 2) * r.choice([1, 1, 1, .1, 40, 3e3])},
         'electromagnetic_wave_1D': lambda: {'dim': r.randrange(3), 'c': Z(.5, 3), 'k': Z(-4, 4), 'Bx': Z(-1, 1), 'By': Z(-1, 1), 'Bz': Z(-1, 1)},
         'brio_wu_shock_tube': lambda: {'gamma': r.choice([1.4, 5 / 3.0, 2.0]), 'me': U(.01, 1), 'mi': U(.5, 2), 'nl': U(.5, 2), 'nr': U(.1, 1), 'Pl': U(.5, 2), 'Pr': U(.1, 1), 'Bx': Z(-1, 1), 'By': Z(-1, 1)},
         'gem_challenge': lambda: {'lambda': U(.3, 1), 'Lx': U(3, 13), 'n0': U(.5, 2), 'n1': U(.1, .5), 'gamma': 5 / 3.0, 'qe': -U(.5, 2), 'me': U(.02, 1), 'ue': Z(-1, 1), 'Te': U(.05, 1), 'qi': U(.5, 2), 'mi': U(.5, 2), 'ui': Z(-1, 1), 'Ti': U(.1, 1), 'B0': U(.2, 2)}}
    p = P[kind]()
    if tie and kind == 'radial_shock_tube':
        p['r'] = dx * r.choice([1, 1, 2, 3])
        if r.random() < .6:
            p.pop('center', None)
    if kind in ('brio_wu_shock_tube', 'gem_challenge'):
        ids = [h.id(5), h.id(5), h.id(6)]
    else:
        nc = {'shock_tube': 5, 'radial_shock_tube': 5, 'gaussian': r.choice([1, 1, 3]), 'magnetic_pulse': 6, 'electromagnetic_wave_1D': 6}[kind]
        ids = [h.id(nc) for _ in range(r.choice([1, 1, 2]))]
    oth = h.id(5)
    h.set(0, oth, lambda x, q, c: U(-2, 2))
    for i in ids:
        if r.random() < .7:
            h.set(0, i, prior(r, mesh, lambda x, q, c: U(-9, 9)))
    k = h.mk(kind, p, [], ids)
    h.solve(k, 0, r.choice([0, 1, 3]))
    if r.random() < .3:
        h.op(op='mk', k=k, again=1, p=H_p(P[kind]()), **{'in': [], 'out': ids})
        h.solve(k, 0, 0)
    return h


def H_p(p):
    return {a: ([R(y) if isinstance(y, float) else y for y in b] if isinstance(b, (list, tuple)) else R(b) if isinstance(b, float) else b) for a, b in p.items()}


def c18(ctx):
    ctx.model_check('MC_Ic')
    kinds = ['shock_tube', 'radial_shock_tube', 'gaussian', 'magnetic_pulse', 'electromagnetic_wave_1D', 'brio_wu_shock_tube', 'gem_challenge']
    run_sys(ctx, [ic_history(ctx.rng, k) for k in kinds for _ in range(ctx.n(36, 200))] + [h for k in kinds for n in (1, None) for h in large(ctx, lambda: ic_history(ctx.rng, k, nd=n), 2)[1:]])


# ------------------------------------------------------------------ C20 VTK
def vtk_history(r):
    nd = r.choice([1, 2, 2, 3, 3])
    h = H()
    mesh = rmesh(r, nd, length=(1, {1: r.choice([9, 70]), 2: r.choice([5, 12]), 3: r.choice([3, 3, 5])}[nd]), zero=r.random() < .6)
    h.grid(0, mesh, [r.choice([0.0, -1.5, 1 / 3.0, 1e-7, -12345.6789]) for _ in range(nd)], [r.choice([1.0, 1 / 3.0, 2e-9, 7e5]) for _ in range(nd)])
    ids = []
    for _ in range(r.choice([1, 2, 3, 3, 6])):
        nc = r.choice([1, 1, 2, 5, 6, 12])
        if r.random() < .04 and max(b - a for a, b in mesh) <= 5:
            nc = r.choice([33, 65, 100])
        pre, cs = r.choice(['v', 'v', 'density.', 'B-', 'x' * 26, LONG + LONG]) + str(len(ids)), None
        if r.random() < .4:
            cs = [r.choice(['', 'E_', 'a' * 20, LONG, LONG + LONG + LONG]) + 'c%d' % k for k in range(nc)]
            r.shuffle(cs)
        ids.append(h.id(nc, name=pre, comps=cs))

    def val(x, p, c):
        k = r.random()
        if k < .1:
            return 0.0
        if k < .2:
            return r.choice([-1.0, 1.0, 1e300, -1e-300, 123456789012345.0, 0.1, 1 / 3.0, 99999.99999999, 1e15, 1e-5, 100000.0, 1e16 / 3, 5e-324, -0.0])
        if k < .3:                # whole numbers, halves and powers of two of every size
            return float(r.choice([-1, 1]) * r.choice([r.randint(0, 10 ** r.randint(1, 18)), r.randint(0, 999) / 2, 2.0 ** r.randint(-40, 70) + r.choice([-1, 0, 0, 1]), 10.0 ** r.randint(0, 22)]))
        return r.uniform(-1, 1) * 10 ** r.randint(-12, 12)
    if r.random() < .15:
        val = odd_values(r, val, .2)
    for i in ids:
        h.set(0, i, val)
    h.op(op='vtk', m=0, ids=ids)
    for _ in range(r.randint(0, 2)):
        sub = [i for i in ids if r.random() < .6]
        r.shuffle(sub)
        if r.random() < .15 and sub:
            sub.append(sub[0])
        h.op(op='vtk', m=0, ids=sub, **({'over': 1} if sub and r.random() < .5 else {}))
    return h


def c20(ctx):
    ctx.model_check('MC_Vtk')
    run_sys(ctx, [vtk_history(ctx.rng) for _ in range(ctx.n(170, 900))] + large(ctx, lambda: vtk_history(ctx.rng), 3))


# ------------------------------------------------------------------ C09 order of ids and bases, clones
def ids_history(r, ctx):
    ops = [{'op': 'reset'}]
    names = ['q', 'qq', 'q_', '', 'Q', 'q_clone_1', 'a', 'b', 'ab', 'zz', 'q0', 'q1', 'q10', 'q2', LONG, LONG + 'a', LONG + 'b', LONG[:-1] + 'e']
    bases = [('volume_average', 1), ('face_basis', 1), ('face_basis', 2), ('face_basis', 3), ('nodes', 1), ('nodes', 2), ('nodes', 10), ('void', 0), ('nodez', 2), ('', 4), ('node', 7)]
    comps = [['x'], ['x', 'y'], ['y', 'x'], ['x', 'y', 'z'], ['xy'], ['', 'x']]
    n = r.randint(5, 11)
    pick = r.sample(names, r.randint(2, 5))
    cons = {m: r.choice(comps) for m in pick}
    made = []
    for i in range(n):
        nm = r.choice(pick)
        b = r.choice(bases)
        ops.append({'op': 'id', 'i': i, 'name': nm, 'comps': cons[nm] if r.random() < .85 else r.choice(comps), 'bn': b[0], 'np': b[1]})
        made.append(i)
    ops.append({'op': 'orderid', 'ids': made + [r.choice(made)]})
    for k in range(r.randint(2, 8)):
        i = len(made)
        ops.append({'op': 'clone', 'i': i, 'of': r.choice(made)})
        made.append(i)
    ops.append({'op': 'orderid', 'ids': r.sample(made, min(len(made), 9))})
    bs = [r.choice(bases) for _ in range(r.randint(4, 12))]
    ops.append({'op': 'orderbs', 'bs': [{'bn': a, 'np': b} for a, b in bs]})
    return ops


class Raw:
    def __init__(self, ops):
        self.ops = ops


def c09(ctx):
    ctx.model_check('MC_Registry')
    hs = [Raw(ids_history(ctx.rng, ctx)) for _ in range(ctx.n(120, 2000))]
    clones = [{'op': 'reset'}, {'op': 'id', 'i': 0, 'name': 'base', 'comps': ['a', 'b'], 'bn': 'volume_average', 'np': 1}]
    for k in range(ctx.n(300, 2000)):
        clones.append({'op': 'clone', 'i': 1, 'of': ctx.rng.choice([0, 0, 1]) if k % 7 == 0 and k else 0})
    hs.append(Raw(clones))
    run_sys(ctx, hs, module='T_Ids', n=6)


# ------------------------------------------------------------------ C10 histories from the specification
def c10_history(r, abstract):
    nd = r.choice([1, 1, 2])
    h = H()
    h.grid(0, rmesh(r, nd, length=(2, 5 if nd == 1 else 3)))
    v = {k: h.id(5) for k in (1, 2, 3, 4, 5)}
    v.update({k: h.id(6) for k in (11, 12, 13)})
    h.op(op='dt', m=0, dt=R(r.choice([0.1, 0.5, 1.0])))
    odd = r.random() < .3            # not only numbers: operations which move and copy, then
    if odd:
        abstract = [e for e in abstract if e['o'] in ('fill', 'bc', 'swap', 'print')]
    for k in v:
        if r.random() < .7:
            f = prior(r, h.grids[0], lambda x, p, c: r.uniform(-3, 3), odd)
            h.set(0, v[k], odd_values(r, f) if odd else f)
    walls = ['bc_periodic', 'bc_copy_out', 'bc_no_slip', 'bc_free_slip', 'bc_conducting_wall']
    live, made = {}, {}
    for e in abstract:
        key = json.dumps(e)
        if e['o'] == 'fill':
            p, s = {'value': r.choice([0.0, 1.5, -2.0] + (SPECIAL if odd else []))}, 'fill'
        elif e['o'] == 'bc':
            p, s = {'dims': pick_dims(r, nd)}, r.choice(walls)
        elif e['o'] == 'lorentz':
            p, s = {'q': r.choice([-1.0, 0.5]), 'ms': r.choice([1.0, 2.0])}, 'lorentz_force'
        elif e['o'] == 'current':
            n = len(e['in'])
            p, s = {'eps0': r.choice([1.0, 2.0]), 'q': [r.choice([-1.0, 0.5]) for _ in range(n)], 'ms': [r.choice([1.0, 2.0]) for _ in range(n)]}, 'current_source'
        else:
            p, s = None, {'rk1': 'rk1', 'rk3': 'ssprk3', 'swap': 'swap', 'print': 'print'}[e['o']]
        if key in live and r.random() < .5:
            k = live[key]                      # the same solver object again
        elif s in made and r.random() < .5:    # the same object, set up again
            k = made[s]
            live = {a: b for a, b in live.items() if b != k}
            live[key] = k
            h.op(op='mk', k=k, s=s, again=1, **dict({'p': H_p(p)} if p else {}, **{'in': [v[i] for i in e['in']], 'out': [v[i] for i in e['out']]}))
        else:
            k = live[key] = made[s] = h.mk(s, p, [v[i] for i in e['in']], [v[i] for i in e['out']])
        h.solve(k, 0, e['tag'] if e['o'] in ('rk1', 'rk3') else r.choice([0, 1, 2]))
        if r.random() < .06:
            h.op(op='dt', m=0, dt=R(r.choice([0.1, 0.5, 1.0])))
    return h


def c10(ctx):
    ctx.model_check('MC_System', 'MC_System.cfg' if ctx.thorough else 'MC_System_q.cfg', timeout=2400)
    abs_ = ctx.simulate('MC_System', 'Sim_System.cfg', ctx.n(120, 900), depth=600)
    run_sys(ctx, [c10_history(ctx.rng, a) for a in abs_] + large(ctx, lambda: c10_history(ctx.rng, ctx.rng.choice(abs_)), 1))


# ------------------------------------------------------------------ C19 grids
def grid_history(r, misuse=False):
    ops = [{'op': 'reset'}]
    made = {'s': {0, 1}, 'g': {0, 1}}
    for k in range(2):
        nd = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 4])
        b = [[0, r.choice([12, 12, 12, 70, 300]) if nd == 1 and r.random() < .3 else r.randint(1, 12 if nd == 1 else 6 if nd < 4 else 3)] for _ in range(nd)]
        s = [r.choice([0.0, -1.0, 3.7, 1e3, -1e-6]) for _ in range(nd)]
        w = [r.choice([1.0, 1e-3, 12.5, 1e4, 1 / 3.0]) for _ in range(nd)]
        ops.append({'op': 'g.new', 'k': k, 'b': b, 'start': [R(x) for x in s], 'width': [R(x) for x in w]})
        sb = []
        for _ in range(nd):
            lo = r.choice([0, 0, 0, -3, 5, -1000])
            sb.append([lo, lo + r.choice([1, 2, 3, 4, 6, 8, 11, 16, 24, 24, 101 if nd == 1 else 5, 128 if nd == 1 else 10, 514 if nd == 1 else 34])])
        ops.append({'op': 's.new', 'k': k, 'b': sb, 'start': [R(x) for x in s], 'width': [R(x) for x in w]})
        for _ in range(r.randint(1, 6)):
            d = r.randrange(nd)
            q = r.random()
            if q < .5:
                how = r.choice(['sym', 'lin'])
                if how == 'sym' and (sb[d][1] - sb[d][0]) % 2 and not misuse:
                    how = 'lin'
                if misuse and r.random() < .3:
                    d = r.choice([-1, nd, nd + 3, -100])
                ops.append({'op': 's.bias', 'k': k, 'how': how, 'd': d, 'pow': R(r.choice([1.0, 2.0, 0.5, 1.5, 3.0, 1.1, 0.8, 5.0, 0.25]))})
            elif q < .62 and not misuse:         # a copy, made or assigned; then the one or the other goes on
                op = r.choice('ssg')
                a, b2 = (k, k + 2) if k + 2 not in made[op] or r.random() < .6 else (k + 2, k)
                ops.append({'op': op + '.copy', 'k': b2, 'of': a, 'how': r.choice(['new', 'assign']) if b2 in made[op] else 'new'})
                made[op].add(b2)
                for _ in range(r.randint(1, 2) if op == 's' else 0):
                    how = 'lin' if (sb[d][1] - sb[d][0]) % 2 else r.choice(['sym', 'lin'])
                    ops.append({'op': 's.bias', 'k': r.choice([a, b2]), 'how': how, 'd': d, 'pow': R(r.choice([2.0, 0.5, 1.5, 3.0]))})
            else:
                op = r.choice(['s.get', 'g.get'])
                bb = sb if op == 's.get' else b
                c = r.randint(bb[d][0], bb[d][1] - 1)
                if misuse and r.random() < .6:
                    if r.random() < .5:
                        d = r.choice([-1, nd, nd + 1, 1000, -2])
                    else:
                        c = r.choice([bb[d][0] - 1, bb[d][1], bb[d][1] + 5, bb[d][0] - 100])
                ops.append({'op': op, 'k': k, 'w': r.choice(['start', 'width', 'dx', 'xc', 'xc', 'dx']), 'd': d, 'c': c})
    return Raw(ops)


def c19(ctx):
    ctx.model_check('MC_Grid')
    ctx.refute('MC_Grid', 'Neg_Grid.cfg')
    r = ctx.rng
    hs = [grid_history(r) for _ in range(ctx.n(220, 1500))]
    for _ in range(ctx.n(2, 8)):        # long axes
        ops = [{'op': 'reset'}]
        for op, L in (('g', [4099]), ('g', r.choice([[2, 1030], [1030, 2], [1, 300, 2]])), ('s', [r.choice([1026, 2050])]), ('s', r.choice([[1030, 2], [3, 1030]]))):
            k = len(ops)
            b = [[0, x] for x in L]
            ops.append({'op': op + '.new', 'k': k, 'b': b, 'start': [R(r.choice([0.0, -1.0, 3.7, -1e-6])) for _ in L], 'width': [R(r.choice([1.0, 12.5, 1 / 3.0])) for _ in L]})
            if op == 's':
                ops.append({'op': 's.bias', 'k': k, 'how': r.choice(['sym', 'lin']), 'd': max(range(len(L)), key=lambda i: L[i]), 'pow': R(r.choice([2.0, .5, 1.1]))})
        hs.append(Raw(ops))
    run_sys(ctx, hs, module='T_Grid')


# ------------------------------------------------------------------ C22 misuse
ALL = ['bc_periodic', 'bc_copy_out', 'bc_no_slip', 'bc_free_slip', 'bc_conducting_wall', 'shock_tube', 'radial_shock_tube', 'gaussian', 'magnetic_pulse', 'electromagnetic_wave_1D',
       'brio_wu_shock_tube', 'gem_challenge', 'fill', 'swap', 'rk1', 'ssprk3', 'lorentz_force', 'current_source', 'euler', 'maxwell', 'ssprk2_advection', 'print']


def misuse_history(r):
    h = H(loose=ALL)
    nd = r.choice([1, 1, 2])
    h.grid(0, rmesh(r, nd, length=(2, 3), zero=True))
    fl = [h.id(5) for _ in range(4)]
    em = [h.id(6) for _ in range(2)]
    gone = [h.id(5), h.id(6)]                   # never created
    pts = [h.id(5, 2), h.id(5, 2)]              # another basis
    fb = h.id(5, 1, bn='face_basis')
    clash = h.id(3, name=h.ids[fl[0]][0])       # name of an existing variable, other components
    clash2 = h.id(5, name=h.ids[em[0]][0])
    for i in fl + em + pts + [fb]:
        h.set(0, i, lambda x, p, c: r.uniform(1, 2))
    h.op(op='dt', m=0, dt=R(0.5))
    par = {'rk1': None, 'ssprk3': None, 'swap': None, 'print': None, 'lorentz_force': {'q': 1.0, 'ms': 2.0}, 'euler': {'gamma': 1.4}, 'maxwell': {'c': 1.0},
           'ssprk2_advection': {'vel': [1.0, -1.0, 0.5]}, 'fill': {'value': 3.0}, 'bc_periodic': {'dims': [0]}, 'bc_no_slip': {'dims': [0]},
           'gem_challenge': {'lambda': .5, 'Lx': 13.0, 'n0': 1.0, 'n1': .2, 'gamma': 1.5, 'qe': -1.0, 'me': .1, 'ue': 0.5, 'Te': .1, 'qi': 1.0, 'mi': 1.0, 'ui': .5, 'Ti': .4, 'B0': 1.0},
           'brio_wu_shock_tube': {'gamma': 1.5, 'me': .1, 'mi': 1.0, 'nl': 1.0, 'nr': .5, 'Pl': 1.0, 'Pr': .1, 'Bx': .7, 'By': 1.0}}
    F = lambda n: [r.choice(fl) for _ in range(n)]
    E = lambda n: [r.choice(em) for _ in range(n)]
    fresh = lambda ids: [h.id(len(h.ids[i][1]), h.ids[i][3]) if r.random() < .5 else i for i in ids]     # some outputs do not exist yet

    def solve(s, p, inp, out, tag):     # a call that is wrong, at first or by an object that has done its work before
        if r.random() < .5:
            h.solve(h.mk(s, p, inp, out), 0, tag)
            return
        a, b, c, d = r.sample(fl, 4)
        gi, go = {'euler': ([a], [b]), 'maxwell': (em[:1], em[1:]), 'lorentz_force': ([a, em[0]], [b]), 'current_source': ([a, b, c, d, a, b][:len(p['q']) if s == 'current_source' else 0], [em[0]]), 'rk1': ([a, b], [c]),
                  'ssprk3': ([a, b], [b, c, d]), 'ssprk2_advection': ([a], [b, c]), 'swap': ([], [a, b]), 'gem_challenge': ([], [a, b, em[0]]), 'brio_wu_shock_tube': ([], [a, b, em[0]]), 'print': ([a], [])}[s]
        o = h.mk(s, p, gi, go)
        for _ in range(r.choice([1, 1, 2])):
            h.solve(o, 0, tag)
        h.op(op='mk', k=o, again=1, **{'in': inp, 'out': out})
        h.solve(o, 0, tag)
    for _ in range(r.randint(5, 10)):
        k = r.random()
        if k < .45:          # wrong numbers of variables
            s = r.choice(['euler', 'maxwell', 'lorentz_force', 'current_source', 'rk1', 'ssprk3', 'ssprk2_advection', 'swap', 'gem_challenge', 'brio_wu_shock_tube'])
            G = E if s == 'maxwell' else F
            ni, no = {'euler': (1, 1), 'maxwell': (1, 1), 'lorentz_force': (2, 1), 'current_source': (2, 1), 'rk1': (2, 1), 'ssprk3': (2, 3), 'ssprk2_advection': (1, 2), 'swap': (0, 2), 'gem_challenge': (0, 3), 'brio_wu_shock_tube': (0, 3)}[s]
            i2, o2 = ni, no
            if s in ('swap', 'gem_challenge', 'brio_wu_shock_tube') or r.random() < .5:
                o2 = {'swap': r.choice([1, 3, 5]), 'rk1': 0, 'ssprk3': r.choice([0, 1, 2])}.get(s, r.choice([x for x in (0, 1, 2, 3, 4) if x != no]))
            else:
                i2 = r.choice([x for x in (0, 1, 2, 3, 4) if x != ni])
            p = par.get(s)
            if s == 'current_source':
                p = {'eps0': 1.0, 'q': [1.0, -1.0], 'ms': [1.0, 2.0]}
            inp, out = G(i2), G(o2)
            if s == 'lorentz_force' and i2 == 2:
                inp = F(1) + E(1)
            solve(s, p, inp, out if r.random() < .6 else fresh(out), r.choice([0, 0, 1, 2]))
        elif k < .6:        # missing input
            s = r.choice(['euler', 'maxwell', 'lorentz_force', 'current_source', 'rk1', 'ssprk3', 'ssprk2_advection', 'print'])
            a, b = r.sample(fl, 2)
            inp, out = {'euler': ([gone[0]], [a]), 'maxwell': ([gone[1]], [em[0]]), 'lorentz_force': r.choice([([gone[0], em[0]], [a]), ([a, gone[1]], [b])]),
                        'current_source': r.choice([([gone[0], a], [em[0]]), ([a, gone[0]], [em[1]]), ([a, b, gone[0]], [em[1]])]), 'rk1': r.choice([([a, gone[0]], [b]), ([gone[0], a], [b])]),
                        'ssprk3': r.choice([([fl[0], gone[0]], fl[1:4]), ([gone[0], fl[0]], fl[1:4])]), 'ssprk2_advection': ([gone[0]], [a, b]), 'print': ([gone[0]], [])}[s]
            p = par.get(s)
            if s == 'current_source':
                p = {'eps0': 1.0, 'q': [1.0] * len(inp), 'ms': [2.0] * len(inp)}
            solve(s, p, inp, out if r.random() < .4 else fresh(out), r.choice([0, 0, 1, 2]))
        elif k < .7:        # swaps of different sizes, at any position of the list
            a, b, c = r.sample(fl, 3)
            h.solve(h.mk('swap', None, [], r.choice([[a, em[0]], [a, b, c, em[1]], [a, b, pts[0], c], [pts[0], a], [em[0], em[1], em[0], a]])), 0, 0)
        elif k < .77:
            n, m = r.choice([(1, 2), (2, 1), (3, 2), (0, 1), (2, 0), (2, 3)])
            h.mk('current_source', {'eps0': 1.0, 'q': [1.0] * n, 'ms': [1.0] * m}, fl[:n], [em[0]])
        elif k < .92:
            bad = r.choice([[fl[0], gone[0]], [gone[0]], [fl[0], pts[0]], [pts[0]], [pts[0], pts[1]], [fb], [fl[0], fb], [gone[1], fl[1]], [fb, fl[0]], [clash], [fl[1], clash]])
            h.op(op='vtk', m=0, ids=bad)
        elif k < .95:
            h.op(op='in', m=0, i=r.choice(gone + [clash, clash2]))
        elif k < .98:
            h.op(op=r.choice(['out', 'in']), m=0, i=r.choice([clash, clash2]))
        else:
            h.op(op='vtkbad', m=0, ids=[fl[0]])
    return h


def misuse_arrays(r):
    """Fills, copies and swaps that have to be rejected, on arrays with distinct contents."""
    ops = [{'op': 'reset'}]
    shape = {}
    kind = r.choice(['i', 'd', 'c', 'c'])
    for s in range(3):
        nd = r.randint(1, 3)
        b = [[x, x + r.randint(1, 4)] for x in (r.randint(-2, 2) for _ in range(nd))]
        if s == 2 and r.random() < .5:
            b = [list(x) for x in shape[0]]
            d = r.randrange(len(b))
            b[d][1] += 1
        shape[s] = b
        ops += [{'op': 'a.new', 's': s, 'k': kind, 'b': b, 'm': 1}, {'op': 'a.mark', 's': s, 'v': r.randint(1, 500)}]

    def sub(b):
        out = []
        for lo, hi in b:
            a = r.randint(lo, hi - 1)
            out.append([a, r.randint(a + 1, hi)])
        return out

    def outside(b):
        o = sub(b)
        d = r.randrange(len(b))
        o[d] = r.choice([[b[d][0] - 1, o[d][1]], [o[d][0], b[d][1] + 1], [b[d][1] + 1, b[d][1] + 2], [b[d][0] - 3, b[d][0] - 1]])
        return o
    for _ in range(r.randint(4, 9)):
        s, t = r.sample(range(3), 2)
        k = r.random()
        if k < .3:
            ops.append({'op': 'a.fillr', 's': s, 'r': outside(shape[s]), 'v': 7})
        elif k < .7:
            f, g = sub(shape[t]), sub(shape[s])
            w = r.random()
            if w < .35:
                f = outside(shape[t])
            elif w < .7:
                g = outside(shape[s])
            elif vol(f) == vol(g):
                continue
            ops.append({'op': r.choice(['a.pullr', 'a.copyto']) if kind == 'c' else 'a.pullr', 's': s, 't': t, 'from': f, 'to': g})
        elif vol(shape[s]) != vol(shape[t]):
            ops.append({'op': r.choice(['a.swap', 'a.pull', 'a.swap']), 's': s, 't': t})
    return ops


def c22(ctx):
    ctx.model_check('MC_System', 'MC_System_q.cfg')
    r = ctx.rng
    exe = run_sys(ctx, [misuse_history(r) for _ in range(ctx.n(200, 1500))], n=6)
    hs = [grid_history(r, True) for _ in range(ctx.n(70, 900))]
    words = ['x', 'a message', 'qk::range : bad thing', 'y' * 15, 'z' * 16, 'long ' * 60, 'percent %s %d %n']
    hs += [Raw([{'op': 'reset'}] + [{'op': 'exc', 't': r.choice(words), 'u': r.choice(words)} for _ in range(5)] +
               [{'op': 'face', 'k': r.randrange(2), 'nd': r.randint(1, 3), 'pp': r.choice([1, 1, 2, 0, 5])} for _ in range(5)]) for _ in range(ctx.n(8, 40))]
    run_sys(ctx, hs, n=4, exe=exe, module='T_Grid', prefix='g')
    from lib_checks import run_lib
    run_lib(ctx, 'T_Array', {'a%d' % i: sum((misuse_arrays(r) for _ in range(ctx.n(12, 150))), []) for i in range(ctx.n(4, 8))})
