"""Common machinery of the checks: build /repo's sources, run drivers, run TLC, write evidence."""
import os, sys, json, subprocess, tempfile, shutil, struct, time, re, random, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QK_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))


class Infra(Exception):
    """The check itself could not run (never a verdict)."""


class Violation(Exception):
    def __init__(self, what, files=()):
        Exception.__init__(self, what)
        self.what, self.files = what, list(files)


def R(x):
    """A double as two 32-bit halves, as the specification and the drivers read it."""
    h, l = struct.unpack('>ii', struct.pack('>d', float(x)))
    return [h, l]


def UR(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


class Dealer(random.Random):
    """Choices made at one place of a history generator are mostly dealt from a shuffled deck of the options,
    so that every option turns up about as often as its weight says also when few histories are generated."""

    SITES = {'em_data1', 'gas_data1', 'data_for', 'rmesh', 'flux_grid', 'p2', 'prior', 'odd_values'}

    def choice(self, seq):
        f = sys._getframe(1)
        name = f.f_code.co_name
        if (name.endswith('_history') or name in self.SITES) and self.random() < .7:
            decks = self.__dict__.setdefault('decks', {})
            deck = decks.setdefault((f.f_code, f.f_lasti, len(seq)), [])
            if not deck:
                deck.extend(range(len(seq)))
                self.shuffle(deck)
            return seq[deck.pop()]
        return random.Random.choice(self, seq)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = Dealer('%s/%d' % (prop, seed))
        self.dir = tempfile.mkdtemp(prefix='qkv_%s_' % prop)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = {}
        self.lib = {}
        self._javac = False
        self.findings = []

    def listed(self, key):
        """Is this finding (identified by its key) listed in known_findings.txt?  The file is never written by a check."""
        p = os.path.join(VERIF, 'known_findings.txt')
        for line in open(p) if os.path.exists(p) else ():
            m = re.match(r'finding: property=%s key=(\S+) (.*)' % self.prop, line)
            if m and m.group(1) == key:
                return m.group(2).strip()
        return None

    thorough = property(lambda s: s.tier == 'thorough')

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ building
    def sources(self):
        out = []
        for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
            rel = os.path.relpath(root, os.path.join(REPO, 'src'))
            top = rel.split(os.sep)[0]
            if top in ('example', 'spatial_solver', 'temporal_solver'):
                continue
            for f in sorted(files):
                if f.endswith(('.cpp', '.cc', '.cxx')) and not (rel == '.' and f == 'main.cpp'):
                    out.append(os.path.join(root, f))
        return sorted(out)

    def compile_many(self, srcs, flags, tag, cxx='g++'):
        d = self.sub('obj_' + tag)
        objs, jobs = [], []
        for s in srcs:
            o = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, '/')) + '.o')
            objs.append(o)
            jobs.append([cxx, '-std=c++11', '-w', '-I' + os.path.join(REPO, 'src'), '-I' + HARN] + flags + ['-c', s, '-o', o])

        def one(cmd):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, cmd, r.stdout
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, cmd, out in ex.map(one, jobs):
                if rc != 0:
                    raise Infra('compile failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
        return objs

    ASAN = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_QK_RANGE_CHECK_=1']

    def build(self, driver, flags=None, link=(), tag=None, extra=()):
        """Compile the driver with all library sources of the working tree; returns the executable."""
        flags = list(self.ASAN if flags is None else flags)
        tag = tag or driver
        srcs = self.sources() + [os.path.join(HARN, driver + '.cpp')] + list(extra)
        objs = self.compile_many(srcs, flags, tag)
        exe = os.path.join(self.dir, tag)
        san = [f for f in flags if f.startswith('-fsanitize') or f == '-fopenmp']
        r = subprocess.run(['g++'] + san + objs + ['-o', exe] + list(link) + ['-lgomp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Infra('link failed:\n' + r.stdout[-3000:])
        return exe

    # ------------------------------------------------------------------ driver
    def drive(self, exe, ops, name, timeout=120, args=(), env=None, repeat=True):
        """Run a script (list of op dicts); returns the trace path. A crash of the code under test is a violation."""
        d = self.sub('tr')
        sp, tp = os.path.join(d, name + '.script'), os.path.join(d, name + '.ndjson')
        with open(sp, 'w') as f:
            for o in ops:
                f.write(json.dumps(o, separators=(',', ':')) + '\n')
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
        e.update(env or {})

        def once():
            wd = tempfile.mkdtemp(dir=self.dir)
            try:
                r = subprocess.run([exe, sp, tp] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=wd)
                return r.returncode, r.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                return 98, 'driver: script timed out'
            finally:
                shutil.rmtree(wd, ignore_errors=True)
        rc, err = once()
        if rc == 97 or rc == 96:
            raise Infra('driver protocol error: ' + err[-500:])
        if rc != 0:
            rc2, err2 = once()
            if rc2 == 0:
                raise Infra('driver failed once (rc %d) and passed when repeated: %s' % (rc, err[-500:]))
            done = sum(1 for _ in open(tp)) if os.path.exists(tp) else 0
            op = json.dumps(ops[done])[:400] if done < len(ops) else '(end)'
            raise Violation('the code under test crashed or hung (exit %d) in operation %d %s: %s' % (rc, done + 1, op, summarise(err)), [sp, tp])
        return tp

    # ------------------------------------------------------------------ TLC
    def javac(self):
        if not self._javac:
            out = self.sub('classes')
            r = subprocess.run(['javac', '-d', out, '-cp', JARS, os.path.join(SPEC, 'QkReal.java')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Infra('javac failed: ' + r.stdout)
            self._javac = True
        return os.path.join(self.dir, 'classes')

    def tlc(self, module, cfg, env=None, workers=1, opts=(), timeout=600, heap='2g', tag=None):
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ['java', '-Xss512m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
               '-Djava.io.tmpdir=' + meta,
               '-cp', self.javac() + ':' + JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
               '-config', os.path.join(SPEC, cfg)] + list(opts) + [os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})), cwd=meta)
            out, rc = r.stdout.decode('utf-8', 'replace'), r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode('utf-8', 'replace') + '\nTLC TIMEOUT', -1
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model_check(self, module, cfg=None, workers=NCPU, timeout=600, heap='6g'):
        """Exhaustive check of a design model. The model does not depend on /repo, so failure is an error of the check."""
        rc, out = self.tlc(module, cfg or module + '.cfg', workers=workers, timeout=timeout, heap=heap)
        if 'Model checking completed. No error has been found.' not in out:
            raise Infra('model %s %s: %s' % (module, cfg, out[-3000:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dis = map(int, m[-1])
        self.cov['states'] += dis
        self.cov['transitions'] += gen
        self.notes.setdefault('models', []).append({'model': cfg or module + '.cfg', 'states_generated': gen, 'distinct_states': dis})

    def refute(self, module, cfg, invariant=None):
        """Negative control: a deliberately broken design that TLC has to reject."""
        rc, out = self.tlc(module, cfg, workers=NCPU)
        if 'is violated' not in out:
            raise Infra('negative control %s not refuted: %s' % (cfg, out[-2000:]))
        self.notes.setdefault('negative_controls', []).append(cfg)

    def simulate(self, module, cfg, num, depth=400, seed=None):
        """Operation histories generated by TLC from the specification."""
        rc, out = self.tlc(module, cfg, opts=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed if seed is not None else self.seed)], timeout=300)
        hs = []
        for line in out.splitlines():
            if line.startswith('"HIST '):
                hs.append(json.loads(json.loads(line)[5:]))
        if not hs:
            raise Infra('no histories from %s: %s' % (cfg, out[-2000:]))
        self.notes.setdefault('generated_histories', []).append({'cfg': cfg, 'histories': len(hs), 'ops': sum(len(h) for h in hs)})
        return hs

    def validate(self, module, traces, timeout=600, cfg='Trace.cfg', heap='2g', par=None, env=None):
        """Check recorded traces against a trace specification."""
        def one(tp):
            rc, out = self.tlc(module, cfg, env=dict(env or {}, QK_TRACE=tp), timeout=timeout, heap=heap)
            return tp, rc, out
        bad = []
        with ThreadPoolExecutor(par or NCPU) as ex:
            for tp, rc, out in ex.map(one, traces):
                n = sum(1 for _ in open(tp))
                if 'No error has been found' in out and 'REJECT ' not in out:
                    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
                    if not m or int(m[-1][1]) != n + 1:
                        raise Infra('trace %s: %s states for %d events\n%s' % (tp, m, n, out[-1500:]))
                    self.cov['traces_validated_against_impl'] += 1
                    self.cov['states'] += int(m[-1][1])
                    self.cov['transitions'] += n
                else:
                    bad.append((tp, out))
        for tp, out in bad:
            rc, out2 = self.tlc(module, cfg, env=dict(env or {}, QK_TRACE=tp), timeout=timeout, heap=heap)
            k = re.findall(r'REJECT (\d+) (.*)', out2)
            if k:
                m = int(k[0][0])
                ev = open(tp).read().splitlines()[m - 1]
                why = re.findall(r'WHY (.*)', out2)
                raise Violation('event %d of the recorded execution is not allowed by %s%s: %s' % (m, module, (' (' + why[0][:400].strip('"') + ')') if why else '', ev[:900]), [tp, tp.replace('.ndjson', '.script')])
            if re.search(r'Error: (Evaluating|Attempted|TLC threw|The (first|second)|In evaluation|Applying|.*Java)|evaluat|CHOOSE', out2) and 'OutOfMemory' not in out2 and 'TLC TIMEOUT' not in out2:
                raise Violation('a recorded execution is outside of what %s can explain: %s' % (module, errline(out2)), [tp, tp.replace('.ndjson', '.script')])
            raise Infra('trace validation of %s failed: %s' % (tp, out2[-3000:]))

    def sample(self, x, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)


def errline(out):
    ls = [l for l in out.splitlines() if l.startswith('Error')]
    i = out.find('Error:')
    return out[i:i + 500].replace('\n', ' ') if i >= 0 else ' '.join(ls)[:500]


def summarise(err):
    m = re.findall(r'(ERROR: AddressSanitizer[^\n]*|driver:[^\n]*|terminate[^\n]*|runtime error[^\n]*)', err)
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*/repo/[^\n]*)', err)
    return (m[0] if m else err[-200:]).strip() + ((' at ' + fr[0]) if fr else '')


def main(table):
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(prop, tier, seed)
    rc, viol = 0, 0
    try:
        try:
            table[prop](ctx)
        except Violation as v:
            viol, rc = 1, 1
            rp = os.path.join(EVID, 'replay_%s' % prop)
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            with open(os.path.join(rp, 'README'), 'w') as f:
                f.write('%s tier=%s seed=%d\n%s\n' % (prop, tier, seed, v.what))
            for x in v.files:
                if os.path.exists(x) and os.path.getsize(x) < 50e6:
                    shutil.copy(x, rp)
            print(v.what[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
    except Infra as e:
        print('ERROR: check %s could not be carried out: %s' % (prop, e))
        ctx.close()
        return 2
    for line in ctx.findings:
        if rc == 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, line))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(ctx.cov, **ctx.notes),
              assumptions=ASSUME.get(prop, []) + ASSUME['*'], wall_s=round(time.time() - ctx.t0, 2), violations=viol)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    ctx.close()
    if rc == 0:
        print('OK %s tier=%s: %d states, %d traces validated, %.1f s' % (prop, tier, ctx.cov['states'], ctx.cov['traces_validated_against_impl'], time.time() - ctx.t0))
    return rc


ASSUME = {'*': ['g++ and the JVM compute IEEE double arithmetic', 'the drivers in /verif/harness report what the public interface shows']}
