"""C23: the shipped examples, executed with every solver call observed (harness/rec_ex.cpp)."""
from vf import *

EXAMPLES = ['advect_gaussian', 'sod_shock_tube', 'gaussian_pulse', 'wave_1D', 'two_fluid_brio_wu', 'harris_current_sheet', 'gem_challenge']


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Infra('%s: %s' % (' '.join(cmd[:4]), r.stdout[-2000:]))
    return r.stdout


def symbols(obj):
    """Defined functions of an object: name -> (section, offset)."""
    out = {}
    for l in sh(['objdump', '-t', obj]).splitlines():
        m = re.match(r'^([0-9a-f]+)\s+(.{7})\s+(\S+)\s+[0-9a-f]+\s+(?:\.hidden )?(\S+)$', l)
        if m and m.group(3).startswith('.text'):
            out[m.group(4)] = (m.group(3), int(m.group(1), 16))
    return out


VM = '_ZNK2qk8variable16variable_manager14input_variableERKNS0_11variable_idE', '_ZN2qk8variable16variable_manager15output_variableERKNS0_11variable_idE', \
     '_ZNK2qk8variable16variable_manager9write_vtkERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_RKSt6vectorINS0_11variable_idESaISB_EE'


def build_ex(ctx):
    ex = sorted(glob.glob(os.path.join(REPO, 'src/example/**/*.cpp'), recursive=True))
    flags = ['-O0', '-g0', '-fno-inline']
    objs = ctx.compile_many(ctx.sources() + ex, flags, 'ex')
    gen, seen = ['#include "variable/variable.h"', '#include "variable/variable_manager.h"', '#include <vector>', 'using namespace qk::variable;',
                 'typedef void (*solve_fn)(const void *, variable_manager &, int);',
                 'void qk_rec_solve(const char *, const void *, variable_manager &, int, solve_fn);',
                 'const variable &qk_rec_in(const variable_manager *, const variable_id &); variable &qk_rec_out(variable_manager *, const variable_id &); void qk_rec_vtk(const std::vector<variable_id> &);',
                 'extern "C" {'], set()
    ents = {}
    names = {VM[0]: 'qk_real_in', VM[1]: 'qk_real_out'}
    for o in objs:
        opts = []
        for s, (sec, off) in symbols(o).items():
            m = re.match(r'^_ZN2qk7example\d+[a-z]+?(\d+)(\w+?)E(v|RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)$', s)
            if m and m.group(2)[-int(m.group(1)):] in EXAMPLES:
                ents[m.group(2)[-int(m.group(1)):]] = (s, m.group(3) != 'v')
            m = re.match(r'^_ZNK2qk6solver(\d+)(\w+)$', s)
            kind = None
            if m:
                n = int(m.group(1))
                kind, rest = m.group(2)[:n], m.group(2)[n:]
                if rest != '5solveERNS_8variable16variable_managerEi':
                    kind = None
            if kind and s not in seen:
                names[s] = 'qk_real_solve_' + kind
                gen.append('void qk_real_solve_%s(const void *, variable_manager &, int);' % kind)
                gen.append('void rec_%s(const void *s, variable_manager &m, int t) __asm__("%s"); void rec_%s(const void *s, variable_manager &m, int t) { qk_rec_solve("%s", s, m, t, qk_real_solve_%s); }' % (kind, s, kind, kind, kind))
            if s in names or s == VM[2]:
                opts += ['--weaken-symbol=' + s]
                if s in names and s not in seen:
                    opts += ['--add-symbol', '%s=%s:%d,global,function' % (names[s], sec, off)]
                seen.add(s)
        if opts:
            sh(['objcopy'] + opts + [o])
    if not all(v in seen for v in VM):
        raise Infra('variable_manager functions not found')
    gen.append('const variable &rec_in(const variable_manager *m, const variable_id &i) __asm__("%s"); const variable &rec_in(const variable_manager *m, const variable_id &i) { return qk_rec_in(m, i); }' % VM[0])
    gen.append('variable &rec_out(variable_manager *m, const variable_id &i) __asm__("%s"); variable &rec_out(variable_manager *m, const variable_id &i) { return qk_rec_out(m, i); }' % VM[1])
    gen.append('void rec_vtk(const variable_manager *, const void *, const void *, const std::vector<variable_id> &v) __asm__("%s"); void rec_vtk(const variable_manager *, const void *, const void *, const std::vector<variable_id> &v) { qk_rec_vtk(v); }' % VM[2])
    for e, (s, arg) in sorted(ents.items()):
        gen.append('void ex_%s(%s) __asm__("%s");' % (e, 'const std::string &' if arg else 'void', s))
    gen.append('}')
    gen.append('bool qk_run_example(const std::string &n, const std::string &d) {')
    gen += ['  if (n == "%s") { ex_%s(%s); return true; }' % (e, e, 'd' if arg else '') for e, (s, arg) in sorted(ents.items())]
    gen.append('  return false; }')
    gp = os.path.join(ctx.dir, 'gen_ex.cpp')
    open(gp, 'w').write('\n'.join(gen) + '\n')
    objs += ctx.compile_many([gp, os.path.join(HARN, 'rec_ex.cpp')], ['-O1', '-g0'], 'rec')
    exe = os.path.join(ctx.dir, 'drv_ex')
    sh(['g++'] + objs + ['-o', exe, '-lgomp'])
    return exe


def c23(ctx):
    ctx.model_check('MC_Steps')
    ctx.model_check('MC_Steps', 'MC_Steps_two.cfg')
    if ctx.tier == 'thorough':
        ctx.model_check('MC_Steps', 'MC_Steps_plasma.cfg')
    for n in ('ghost', 'reset', 'stage', 'done', 'pdone'):
        ctx.refute('MC_Steps', 'Neg_Steps_%s.cfg' % n)
    exe = build_ex(ctx)
    d = ctx.sub('tr')

    def one(ex):
        tp = os.path.join(d, ex + '.ndjson')
        try:
            r = subprocess.run([exe, ex, tp, str(ctx.n(3000, 40000))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300, cwd=d)
        except subprocess.TimeoutExpired:
            raise Violation('the example %s does not reach its next frame' % ex, [tp])
        if r.returncode in (96, 97):
            raise Infra('recorder: %s' % r.stderr[-300:])
        if r.returncode:
            raise Violation('the example %s crashed (%d): %s' % (ex, r.returncode, r.stderr[-300:].decode('utf-8', 'replace')), [tp])
        return tp
    with ThreadPoolExecutor(NCPU) as pool:
        traces = list(pool.map(one, EXAMPLES))
    for t in traces:
        ls = open(t).read().splitlines()
        ctx.cov.setdefault('events_per_example', {})[os.path.basename(t)[:-7]] = len(ls)
        ctx.sample(json.loads(ls[3])['e'])
    rest = traces
    adv = [t for t in traces if os.path.basename(t) == 'advect_gaussian.ndjson']
    known = ctx.listed('advect_gaussian:unset-ghost-cells')
    if known and adv:
        # If the example breaks the discipline, it may do so in the listed way only
        rest = [t for t in traces if t not in adv]
        try:
            ctx.validate('T_Steps', adv)
        except Violation:
            ctx.validate('T_Steps', adv, env={'QK_WAIVE': 'advection_ghosts'})
            ctx.findings.append(known)
    ctx.validate('T_Steps', rest)
