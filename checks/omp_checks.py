"""C21: the parallel loops, executed under a controlled OpenMP runtime (harness/ompsim.cpp)."""
from vf import *
from lib_checks import chunks
import sys_checks as S


def build_omp(ctx):
    objs = ctx.compile_many(ctx.sources() + [os.path.join(HARN, 'drv_sys.cpp')], ['-O1', '-g0', '-fopenmp', '-fsanitize=thread', '-D_QK_RANGE_CHECK_=1'], 'omp')
    objs += ctx.compile_many([os.path.join(HARN, 'ompsim.cpp')], ['-O1'], 'ompsim')
    exe = os.path.join(ctx.dir, 'drv_omp')
    r = subprocess.run(['g++'] + objs + ['-o', exe, '-Wl,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset', '-lgomp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Infra('link failed:\n' + r.stdout[-3000:])
    return exe


def histories(r, n):
    out = [S.ic_history(r, k) for k in ('shock_tube', 'radial_shock_tube', 'gaussian', 'magnetic_pulse', 'electromagnetic_wave_1D', 'brio_wu_shock_tube', 'gem_challenge') for _ in range(2)]
    out += [S.bc_history(r, [k]) for k in ('bc_periodic', 'bc_copy_out', 'bc_no_slip', 'bc_free_slip', 'bc_conducting_wall')]
    for _ in range(n):
        out.append(S.flux_history(r, r.choice(['euler', 'maxwell'])))
        out.append(S.adv_history(r))
        out.append(S.rk_history(r))
        if r.random() < .5:
            out.append(S.src_history(r))
        k = r.random()
        if k < .35:
            out.append(S.bc_history(r, ['bc_periodic', 'bc_copy_out', 'bc_no_slip', 'bc_free_slip', 'bc_conducting_wall']))
        elif k < .7:
            out.append(S.ic_history(r))
        elif k < .8:
            out.append(S.vtk_history(r))
    return out


def c21(ctx):
    ctx.model_check('MC_Omp')
    ctx.model_check('MC_Omp', 'MC_Omp_sound.cfg')
    ctx.refute('MC_Omp', 'Neg_Omp_scatter.cfg')
    ctx.refute('MC_Omp', 'Neg_Omp_shared.cfg')
    exe = build_omp(ctx)
    r = ctx.rng
    # histories in the order they are generated: the same ones are run under several schedules
    hs = histories(r, ctx.n(22, 260))
    jobs = []
    for i, c in enumerate(chunks(hs, ctx.n(4, 8))):
        for k in range(ctx.n(2, 8)):
            jobs.append(('o%d_%d' % (i, k), [o for h in c for o in h.ops], r.randrange(1, 10 ** 6)))

    def one(a):
        name, ops, seed = a
        reg = os.path.join(ctx.sub('reg'), name + '.ndjson')
        return ctx.drive(exe, ops, name, env={'QK_OMP_TRACE': reg, 'QK_OMP_SEED': str(seed)}), reg
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    regs = [b for _, b in res if os.path.exists(b) and os.path.getsize(b)]
    n = multi = 0
    for b in regs:
        for line in open(b):
            e = json.loads(line)['e']
            n += 1
            multi += e['t'] > 1
            if n % 97 == 0:
                ctx.sample(e)
    ctx.cov.update(histories=len(hs), executions_under_schedules=len(jobs), parallel_regions=n, regions_with_several_threads=multi)
    ctx.validate('T_Omp', regs)
    # the same histories without OpenMP
    seq = ctx.build('drv_sys', flags=['-O1', '-g1', '-D_QK_RANGE_CHECK_=1'], tag='drv_seq')
    ref, pairs = {}, []
    for (name, ops, _), (tp, _) in zip(jobs, res):
        g = name.split('_')[0]
        if g not in ref:
            ref[g] = open(ctx.drive(seq, ops, 's' + name)).read().splitlines()
        pp = os.path.join(ctx.sub('pair'), name + '.ndjson')
        lines = open(tp).read().splitlines()
        if len(lines) != len(ref[g]):
            raise Infra('traces of different length')
        with open(pp, 'w') as f:
            for x, y in zip(lines, ref[g]):
                x, y = json.loads(x), json.loads(y)
                e = {k: v for k, v in x['e'].items() if k not in ('v',)}
                f.write(json.dumps(dict(e=e, sta=x['st'], stb=y['st'], a=x['obs']['ch'], b=y['obs']['ch'], nwa=x['obs']['nw'], nwb=y['obs']['nw'])) + '\n')
        pairs.append(pp)
    ctx.validate('T_Same', pairs, timeout=700)
