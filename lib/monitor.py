"""The frame every check runs in: builds from /repo's working tree, drives the
harnesses, routes violations through the known-findings file, writes evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, threading
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
NCPU = 8

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=2:handle_abort=2:allocator_may_return_null=0',
            'UBSAN_OPTIONS': 'print_stacktrace=1', 'OMP_NUM_THREADS': '1',
            'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0'}


class HarnessError(Exception):
    """the check itself could not do its work: neither held nor violated"""


class Stop(Exception):
    """enough was seen to fail; the rest is not worth its time"""


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out


class Ctx:
    def __init__(self, prop, tier, seed, level='exploration'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == 'quick'
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.t0 = time.time()
        self.violations = {}      # key -> (msg, replay dict)
        self.counters = {}
        self.evaluations = 0
        self.oracle = 0
        self.sigs = set()
        self.distinct_states = set()
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.lock = threading.Lock()
        self.builds = {}
        self.hung = 0
        self.deadline = self.t0 + (780 if self.quick else 20000)

    # -- building
    def build(self, variant=None, san='asan', openmp=False, extra=()):
        extra = tuple(extra) + ('-fno-access-control',)
        k = repr((sorted((variant or {}).items()), san, openmp, extra))
        if k not in self.builds:
            b = vbuild.Build(self.scratch, variant, san=san, openmp=openmp, extra=extra)
            b.spec = dict(variant=variant or {}, san=san, openmp=openmp, extra=[e for e in extra if e != '-fno-access-control'])
            b.exes = {}
            self.builds[k] = b
        return self.builds[k]

    def prebuild(self, specs):
        """build several harnesses at once: specs = [(src, dict(variant=.., san=.., openmp=.., extra=.., subset=..))]"""
        def one(x):
            src, k = x
            b = self.build(k.get('variant'), k.get('san', 'asan'), k.get('openmp', False), k.get('extra', ()))
            b.exes[src] = b.harness(src, subset=k.get('subset'))
        with ThreadPoolExecutor(4) as ex: list(ex.map(one, specs))

    def mkdir(self, name='run'):
        return tempfile.mkdtemp(prefix=name + '_', dir=self.scratch)

    # -- verdicts
    def violation(self, key, msg, replay=None):
        key = re.sub(r'\s+', '_', key)
        with self.lock:
            if key not in self.violations: self.violations[key] = (msg, replay or {})

    def ok(self, cond, key, msg, replay=None):
        with self.lock: self.oracle += 1
        if not cond: self.violation(key, msg, replay)
        return cond

    def saw(self, name, n=1):
        with self.lock: self.counters[name] = self.counters.get(name, 0) + n

    def case(self, sig=None, sample=None):
        with self.lock:
            self.evaluations += 1
            if sig is not None: self.sigs.add(repr(sig))
            if sample is not None and len(self.samples) < 12: self.samples.append(sample)

    # -- running things
    def run(self, cmd, timeout, cwd=None, env=None, again=True):
        """returns (rc, out); a timeout is retried once with twice the time; rc 'hang' if it repeats"""
        e = dict(os.environ); e.update(ASAN_ENV); e.update(env or {}); out = ''
        for k in (1, 2) if again else (1,):
            left = self.deadline - time.time()
            if self.hung >= 3 or left < 1: raise Stop
            try:
                r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=min(timeout * k, left), stdin=subprocess.DEVNULL)
                return r.returncode, r.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as x:
                out = (x.stdout or b'').decode('utf-8', 'replace')
                if left < timeout * k: raise Stop
        with self.lock: self.hung += 1
        return 'hang', out

    def crash_key(self, out):
        m = re.search(r'SUMMARY: \w+Sanitizer: ([\w-]+)[^\n]*? in ([^\n(]+)', out)
        if m: return 'sanitizer:%s:%s' % (m.group(1), m.group(2).strip())
        m = re.search(r'runtime error: ([^\n]+)', out)
        if m: return 'ub:' + re.sub(r'[0-9.e+-]{2,}', 'N', m.group(1))[:80]
        m = re.search(r'\[FATL\] ([^\n]{0,60})', out)
        if m: return 'fatal:' + re.sub(r'[0-9]+', 'N', m.group(1))
        m = re.search(r'(Assertion[^\n]{0,120}|terminate called[^\n]{0,100})', out)
        if m: return 'abort:' + re.sub(r'[0-9]+', 'N', m.group(1))
        return 'crash'

    def harness(self, src, cases, variant=None, san='asan', openmp=False, extra=(), args=(), timeout=None, shards=NCPU, prefix='', env=None, subset=None, per=None):
        """build and run one C++ workload driver with its monitor, sharded over the cores"""
        timeout = timeout or (300 if self.quick else 6000)
        b = self.build(variant, san, openmp, extra)
        exe = b.exes.get(src) or b.harness(src, subset=subset)
        b.exes[src] = exe
        shards = min(max(shards, -(-cases // per) if per else 0), cases)   # per: cases one process can hold in memory

        def one(s):
            st = os.path.join(self.scratch, 'status_%s_%d_%s' % (os.path.basename(exe), s, os.path.basename(b.dir)))
            wd = self.mkdir('sh')
            try:
                rc, out = self.run([exe, '--seed', str(self.seed), '--cases', str(cases), '--shard', str(s),
                                    '--shards', str(shards), '--status', st] + list(args), timeout, cwd=wd, env=env, again=False)
            except Stop: return 'stop', '', ''
            shutil.rmtree(wd, ignore_errors=True)
            return rc, out, (open(st).read().strip() if os.path.exists(st) else '')
        with ThreadPoolExecutor(min(shards, NCPU)) as ex:
            rs = list(ex.map(one, range(shards)))
        stopped = False
        for rc, out, st in rs:
            if rc == 'stop': stopped = True; continue
            rep = dict(kind='harness', harness=src, spec=b.spec, seed=self.seed, args=list(args))
            m = [l for l in out.splitlines() if l.startswith('RESULT ')]
            if rc == 'hang':
                rep['case'] = int(st.split()[0]) if st else 0
                self.violation(prefix + 'hang:' + (st.split() + ['', '?'])[1], 'no progress in case %s' % st, rep); continue
            if rc != 0 or not m:
                if st:
                    rep['case'] = int(st.split()[0]); rep['output'] = out[-4000:]
                    self.violation(prefix + self.crash_key(out), 'abnormal end in case %s: %s' % (st, out[-1500:]), rep); continue
                raise HarnessError('harness %s ended with %s before its first case:\n%s' % (src, rc, out[-3000:]))
            d = json.loads(m[-1][7:])
            self.evaluations += d['cases']; self.oracle += d['evaluations']
            self.sigs.update(prefix + src + h for h in d['case_sigs']); self.distinct_states.update(prefix + src + h for h in d['distinct'])
            for k, v in d['counters'].items(): self.saw(prefix + k, v)
            self.samples += [prefix + x for x in d['samples'][:2]]
            for v in d['violations']:
                r2 = dict(rep); r2['case'] = v['case']
                self.violation(prefix + v['key'], '[case %d, %s] %s' % (v['case'], v['scenario'], v['msg']), r2)
        if stopped: raise Stop

    def need(self, counter, n=1):
        """the run must have observed this; otherwise it decided nothing"""
        if self.counters.get(counter, 0) < n and not self.violations:
            raise HarnessError('monitor observed %d x %s, needs %d' % (self.counters.get(counter, 0), counter, n))

    # -- the end
    def finish(self):
        kf = [(k, d) for p, k, d in known_findings() if p == self.prop]
        rc, nviol = 0, 0
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        for key, (msg, rep) in sorted(self.violations.items()):
            hit = [d for k, d in kf if k == key]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0])); continue
            nviol += 1; rc = 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:60]))
            with open(path, 'w') as f:
                json.dump({**dict(property=self.prop, key=key, message=msg, seed=self.seed, tier=self.tier), **rep}, f, indent=1, default=str)
            print('  %s: %s' % (key, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if not self.violations and (self.evaluations == 0 or self.oracle == 0):
            raise HarnessError('nothing was observed')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=min(len(self.sigs), self.evaluations),
                                rule=self.rule, samples=self.samples[:12], oracle_evaluations=self.oracle,
                                distinct_situations=len(self.distinct_states), observed=dict(sorted(self.counters.items()))),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d cases, %d oracle evaluations, %d distinct, %d violation(s), %.1f s' %
              (self.prop, self.tier, self.evaluations, self.oracle, len(self.sigs), nviol, time.time() - self.t0))
        return rc

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(argv):
    import importlib
    prop = argv[1]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    if '--replay' in argv:
        return replay(json.load(open(argv[argv.index('--replay') + 1])))
    mod = importlib.import_module(prop)
    c = Ctx(prop, tier, seed, getattr(mod, 'LEVEL', 'exploration'))
    try:
        c.rule = mod.RULE
        c.assumptions = getattr(mod, 'ASSUMPTIONS', [])
        try: mod.run(c)
        except Stop:
            if not c.violations: raise HarnessError('out of time after %d s' % (time.time() - c.t0))
        return c.finish()
    except vbuild.BuildError as e:
        print('ERROR: build failed: %s' % e); return 2
    except HarnessError as e:
        print('ERROR: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        c.close()


def replay(r):
    c = Ctx(r['property'], r.get('tier', 'quick'), r['seed'])
    try:
        if r.get('kind') == 'harness':
            s = r['spec']
            b = c.build(s['variant'], s['san'], s['openmp'], s['extra'])
            rc, out = c.run([b.harness(r['harness']), '--seed', str(r['seed']), '--only', str(r['case']), '--verbose'] + r.get('args', []), 600, cwd=c.mkdir())
            print(out); return 0
        print(json.dumps(r, indent=1)); return 0
    finally:
        c.close()
