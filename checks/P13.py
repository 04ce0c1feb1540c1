import os, json, random, shutil, signal
from concurrent.futures import ThreadPoolExecutor
import progs
LEVEL = 'fault_enumeration'
RULE = ('every case is one whole-program run with one failing storage operation (kind and occurrence enumerated from the undisturbed run), a data directory that cannot be used, or an output file that exists already; '
        'the run has to end with an error message and a failure status, or its output has to be complete; what was written before the failure has to be intact; distinct = different (run, operation, occurrence)')
ASSUMPTIONS = ['failures are those the storage library reports (exceptions of its stand-in)', 'random numbers are made reproducible by replacing the random device']
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=2:handle_abort=0'}
KINDS = ['open', 'create_group', 'create_dataset', 'get_dataset', 'select', 'write', 'resize', 'attr']


def writes(h): return [e for e in h['events'] if e[0] == 'write']


def judge(c, b, d, rc, o, what, rep, fresh=True):
    bad = rc == 'hang' or rc in (97, 99, 139) or (isinstance(rc, int) and rc < 0) or 'Sanitizer' in o or 'runtime error' in o
    if not c.ok(not bad, 'hang' if rc == 'hang' else 'crash:' + ('file used after close' if rc == 97 else c.crash_key(o) + ' ' + what.split(' #')[0]), what + ': ended with %s: %s' % (rc, o[-500:]), rep): return
    path = os.path.join(d, 'out', 'data.h5')
    if rc == 0:
        c.saw('runs that went on')
        try: h = json.load(open(path))
        except Exception as x: c.violation('silent:' + what.split(' #')[0], what + ': success is reported, but there is no valid data file (%s)' % x, rep); return
        diff = [p for p in b['h']['datasets'] if h['datasets'].get(p) != b['h']['datasets'][p]]
        c.ok(not diff and h['datasets'].keys() == b['h']['datasets'].keys() and h['attrs'] == b['h']['attrs'], 'silent:' + what.split(' #')[0], what + ': success is reported, but the output is incomplete: %s' % diff[:3], rep)
    else:
        c.saw('runs that failed')
        msg = [l for l in o.splitlines() if ('[FATL]' in l or '[ERR]' in l or 'terminate called' in l or 'what():' in l) and 'VSHIM' not in l]
        c.ok(bool(msg), 'unreported:' + what.split(' #')[0], what + ': ended with %s, without an error message' % rc, rep)
        c.ok('SIMULATION COMPLETE' not in o, 'contradiction', what + ': ended with %s, but completion is reported' % rc, rep)
        if fresh and os.path.exists(path) and os.path.getsize(path):
            try: h = json.load(open(path))
            except Exception as x: c.violation('corrupted', what + ': the data file is not closed properly (%s)' % x, rep); return
            wr = writes(h); c.ok(wr == b['wr'][:len(wr)], 'order', what + ': writes before the failure are not those of the undisturbed run', rep)
            for p, ds in h['datasets'].items():
                ref = b['h']['datasets'].get(p); n = len(ds['data'])
                badv = ref is None or n > len(ref['data']) or any(ds['writes'][i] and (ds['writes'][i] != 1 or ds['data'][i] != ref['data'][i]) for i in range(n))
                c.ok(not badv, 'corrupted', what + ': data of %s that had been written before the failure are changed' % p, rep); c.saw('values compared', n)


def run(c):
    exe = c.build({'hdf5': True, 'pml': True}).program(hooks=True)
    rnd = random.Random(c.seed * 17 + 3); jobs = []
    for k in range(3 if c.quick else 12):
        doc, w = progs.random_config(rnd, steps=rnd.randrange(3, 7), probes=3, macro=(60, 150), beams=k % 2 == 1, first_probe=True, pml=True, splits=[[(1, 1)], [(2, 2)], [(1, 2), (2, 1)]][k % 3])
        d = c.mkdir('base'); progs.write(d, doc)
        env = dict(ENV, VSHIM_SEED=str(k + 1))
        sig = 'write:%d:%d;sleep:1:%d' % (rnd.randrange(1, 5), signal.SIGUSR1, signal.SIGUSR2)
        rc, o = c.run([exe, '-f', 'c.json'], 120, cwd=d, env=dict(env, VSHIM_TRACE='trace'))
        if not c.ok(rc == 0, 'base:' + c.crash_key(o), 'the undisturbed run ended with %s: %s' % (rc, o[-400:]), dict(config=doc)): continue
        trace = [l.split(' ', 1)[0] for l in open(os.path.join(d, 'trace'))]; h = progs.data(d)
        b = dict(doc=doc, h=h, wr=writes(h), env=env, k=k)
        for kind in KINDS:
            n = trace.count(kind)
            occ = list(range(1, n + 1))
            cap = 14 if c.quick else 300
            if n > cap: occ = sorted(set([1, 2, n, n - 1] + rnd.sample(occ, cap - 4)))
            for i in occ: jobs.append((b, kind, i, None))
            c.saw('operations enumerated', len(occ)); c.saw('operations of the runs', n)
        jobs.append((b, 'open', 2, sig)) # the file can not be opened again after a pause
        for i in ([rnd.randrange(1, trace.count('write'))] * 2): jobs.append((b, 'write', i, sig))
        for kind in ('exists', 'directory file', 'nested'): jobs.append((b, kind, 0, None))

    def go(j):
        b, kind, i, sig = j
        d = c.mkdir('flt'); doc = b['doc']; env = dict(b['env']); what = '%s #%d' % (kind, i) + (' with a pause' if sig else ''); fresh = True; keep = None
        if kind == 'exists':
            os.mkdir(os.path.join(d, 'out')); keep = 'precious'; open(os.path.join(d, 'out', 'data.h5'), 'w').write(keep); fresh = False
        elif kind == 'directory file': open(os.path.join(d, 'out'), 'w').write('x'); fresh = False
        elif kind == 'nested': doc = json.loads(json.dumps(doc)); doc['data']['data_root'] = '/proc/nowhere/at/all'; fresh = False
        else: env['VSHIM_H5_FAIL'] = '%s:%d' % (kind, i)
        if sig: env['VSHIM_SIGNALS'] = sig
        progs.write(d, doc)
        rc, o = c.run([exe, '-f', 'c.json'], 120, cwd=d, env=env, again=False)
        rep = dict(config=doc, env=env, output=o[-1500:])
        c.case(sig=(b['k'], kind, i, bool(sig)), sample=what if b['k'] == 0 else None)
        if 'VSHIM: injected' in o: c.saw('failures injected'); c.saw('failures of ' + kind)
        if not fresh: c.ok(rc != 0, 'silent:' + kind, what + ': the run reports success', rep)
        if rc != 0 or fresh: judge(c, b, d, rc, o, what, rep, fresh)
        if keep: c.ok(open(os.path.join(d, 'out', 'data.h5')).read() == keep, 'overwritten', what + ': the data of another run are overwritten', rep)
        shutil.rmtree(d)
    with ThreadPoolExecutor(10) as ex: list(ex.map(go, jobs))
    c.need('failures injected', 80); c.need('runs that failed', 60)
    for k in KINDS: c.need('failures of ' + k, 2)
