import os, json, random, signal, subprocess, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor
import progs
LEVEL = 'fault_enumeration'
RULE = ('every case is one whole-program run with a sequence of signals delivered at chosen points (before/after every kind of storage operation, log line, pause loop); its storage events, data file and '
        'the copies of the file taken at every closing are compared with those of the undisturbed run; distinct = different (points, signals) sequence; some runs get their pause requests from outside at random moments')
ASSUMPTIONS = ['random numbers are made reproducible by replacing the random device', 'termination signals are not delivered inside of the memory allocator or while the file is being created or closed',
               'a frame that was being written when a termination signal came may be incomplete']
TERM = [signal.SIGINT, signal.SIGQUIT, signal.SIGPIPE, signal.SIGTERM, signal.SIGTSTP, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGSEGV]
USR1, USR2 = int(signal.SIGUSR1), int(signal.SIGUSR2)
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:handle_abort=0:handle_sigbus=1:handle_sigfpe=1:handle_sigill=1:allow_user_segv_handler=1'}


def writes(h): return [e for e in h['events'] if e[0] == 'write']


def worlds(c):
    exe = c.build({'hdf5': True, 'pml': True}).program(hooks=True)
    rnd = random.Random(c.seed * 31 + 5)
    out = []
    n = 3 if c.quick else 16
    for k in range(n + (1 if c.quick else 4)): # the last ones are long runs, for requests from outside
        doc, w = progs.random_config(rnd, steps=rnd.randrange(5, 12) if k < n else 150, probes=4, macro=(60, 200), beams=k % 2 == 0, first_probe=True, pml=True,
                                     splits=[[(1, 1)], [(2, 2)], [(1, 2), (2, 1), (4, 2)]][k % 3])
        d = c.mkdir('base'); progs.write(d, doc)
        env = dict(ENV, VSHIM_TRACE='trace', VSHIM_SEED=str(k + 1))
        t0 = time.time(); rc, o = c.run([exe, '-f', 'c.json'], 120, cwd=d, env=env); t0 = time.time() - t0
        if not c.ok(rc == 0, 'base:' + c.crash_key(o), 'the undisturbed run ended with %s: %s' % (rc, o[-400:]), dict(config=doc)): continue
        trace = [l.split(' ', 1)[0] for l in open(os.path.join(d, 'trace'))]
        h = progs.data(d); wr = writes(h)
        sched = {progs.probe_path(p): p['schedule'] for p in w['probes']}
        step_of = [e[2][0] * sched[e[1]] for e in wr]
        # reproducible at all?
        d2 = c.mkdir('base'); progs.write(d2, doc); c.run([exe, '-f', 'c.json'], 120, cwd=d2, env=env)
        if progs.data(d2)['datasets'] != h['datasets']: raise Exception('runs are not reproducible')
        kinds = {}
        for t in trace: kinds[t] = kinds.get(t, 0) + 1
        out.append(dict(exe=exe, doc=doc, w=w, h=h, wr=wr, step=step_of, trace=trace, kinds=kinds, env={k2: v for k2, v in env.items() if k2 != 'VSHIM_TRACE'}, k=k, time=t0, long=k >= n))
    return out


def compare(c, b, h, what, rep, whole):
    """data of a file against those of the undisturbed run; whole: None = everything, else the amount of writes that must be there at least"""
    wr = writes(h)
    good = wr == b['wr'][:len(wr)]
    c.ok(good, 'order', what + ': writes are not those of the undisturbed run (%d of %d)' % (len(wr), len(b['wr'])), rep)
    if whole is None:
        c.ok(h['datasets'] == b['h']['datasets'], 'data', what + ': data differ from the undisturbed run in %s' % [p for p in b['h']['datasets'] if h['datasets'].get(p) != b['h']['datasets'][p]][:3], rep)
        c.ok(h['attrs'] == b['h']['attrs'] and h['groups'] == b['h']['groups'], 'metadata', what + ': metadata differ', rep)
    else:
        c.ok(len(wr) >= whole, 'lost', what + ': %d of %d writes are in the file' % (len(wr), whole), rep)
        for p, ds in h['datasets'].items():
            ref = b['h']['datasets'].get(p)
            if not c.ok(ref is not None and ds['dims'][1:] == ref['dims'][1:], 'data', what + ': dataset %s' % p, rep): continue
            n = len(ds['data']); bad = [i for i in range(n) if ds['writes'][i] and (ds['writes'][i] != 1 or ds['data'][i] != ref['data'][i])] if n <= len(ref['data']) else [0]
            c.ok(not bad, 'data', what + ': %s has %d values that differ from the undisturbed run' % (p, len(bad)), rep)
        need = {}
        for e in wr: need.setdefault(e[1], set()).add(e[2][0])
    c.saw('values compared', sum(len(x['data']) for x in h['datasets'].values()))
    return wr


def one(c, b, seq, tag):
    """seq: [(kind, n, signal)]; run and judge"""
    d = c.mkdir('sig'); progs.write(d, b['doc'])
    env = dict(b['env'], VSHIM_SIGNALS=';'.join('%s:%d:%d' % s for s in seq), VSHIM_SNAP='snap', VSHIM_TRACE='trace')
    rc, o = c.run([b['exe'], '-f', 'c.json'], 120, cwd=d, env=env, again=False)
    what = 'signals %s' % ', '.join('%s at %s #%d' % (signal.Signals(s).name, k, n) for k, n, s in seq)
    rep = dict(config=b['doc'], env=env, output=o[-1500:])
    c.case(sig=(b['k'], seq), sample=what if b['k'] == 0 else None)
    trace = [l.split(' ', 1) for l in open(os.path.join(d, 'trace'))]
    fired = sum(1 for t in trace if t[0] == 'SIGNAL' and 'kick' not in t[1]); c.saw('signals delivered', fired)
    term = seq[-1][2] if seq[-1][2] in TERM else None
    bad = rc == 'hang' or rc in (97, 99, 139, 134) or (isinstance(rc, int) and rc < 0) or 'Sanitizer' in o or 'runtime error' in o
    if not c.ok(not bad, 'hang' if rc == 'hang' else 'crash:' + ('file used after close' if rc == 97 else c.crash_key(o)), what + ': ended with %s: %s' % (rc, o[-500:]), rep): shutil.rmtree(d); return
    # pauses: where they were asked for, where they came
    done, want, cur, nw, paused = [], [], None, 0, False
    pend, asked, opens = None, False, 0
    for t in trace:
        if t[0] == 'write': nw += 1
        if t[0] == 'SIGNAL':
            s = int(t[1].split()[0])
            if s == USR1 and pend is None and not paused: pend = 1; want.append((nw, last)); asked = False
            if s == USR2 and (pend is not None or paused): asked = True
            if s == USR2 and pend is not None: pend = 2
            if s == USR2 and paused: paused = False
        if t[0] == 'open':
            opens += 1
            if opens > 1: c.ok(asked, 'unasked', what + ': resumed without having been asked to', rep)
            paused = False
        if t[0] == 'close':
            done.append(nw)
            if pend == 1: paused = True; pend = None
            elif pend == 2: pend = None
        last = t[0]
    ended = fired == len(seq) and term is not None
    if ended: c.ok(rc == int(term), 'status', what + ': exit status %s' % rc, rep)
    else: c.ok(rc == 0, 'status', what + ': exit status %s: %s' % (rc, o[-300:]), rep)
    opened = any(t[0] == 'open' for t in trace)
    path = os.path.join(d, 'out', 'data.h5')
    if any(t[0] == 'create_group' or t[0] == 'attr' or t[0] == 'write' for t in trace) or not ended:
        try: h = progs.data(d)
        except Exception as x: c.violation('unclosed', what + ': the data file is not closed properly (%s)' % x, rep); shutil.rmtree(d); return
        c.ok(h['opened'] == h['closed'] or (ended and h['opened'] <= h['closed'] + 1), 'unclosed', what + ': the file is opened %d and closed %d times' % (h['opened'], h['closed']), rep)
        if not ended: compare(c, b, h, what, rep, None)
        else:
            compare(c, b, h, what, rep, nw - (1 if trace[-1][0] == 'write' else 0) if not any(t[0] == 'SIGNAL' for t in trace) else sum(1 for t in trace if t[0] == 'write'))
            c.saw('terminated runs')
    # every pause: the file as it was closed then holds exactly the frames of all the steps up to the requested one
    snaps = sorted(glob.glob(os.path.join(d, 'snap*')), key=lambda p: int(p.rsplit('snap', 1)[1]))
    np = min(len(want), len(snaps))
    for i in range(np):
        h = json.load(open(snaps[i])); wr = writes(h); at, kind = want[i]
        if ended and i == len(snaps) - 1 and i >= len(want) - 1 and len(snaps) == len(want) and len(wr) != len(b['wr']) and not any(t[0] == 'sleep' for t in trace): break # ended before the pause came
        # the step that was going on when the pause was asked for
        s = b['step'][at - 1] if (kind == 'write' and at > 0) else b['step'][min(at, len(b['step']) - 1)]
        nxt = [x for x in b['step'][len(wr):len(wr) + 1]]
        full = sum(1 for x in b['step'] if x <= s)
        if ended and len(wr) < full and i == len(snaps) - 1: break # terminated within the step
        c.ok(len(wr) == full, 'pause', what + ': asked for at step %d (%d writes done), paused with %d writes in the file, %d are expected' % (s, at, len(wr), full), rep)
        compare(c, b, h, what + ' (paused)', rep, full); c.saw('pauses')
    shutil.rmtree(d)


def outside(c, b, rnd):
    """pause requested from outside at a random moment, results read while it is paused"""
    d = c.mkdir('ext'); progs.write(d, b['doc'])
    e = dict(os.environ); e.update(b['env']); e['VSHIM_TRACE'] = 'trace'; e['OMP_NUM_THREADS'] = '1'
    delay = rnd.uniform(0, b['time'])
    p = subprocess.Popen([b['exe'], '-f', 'c.json'], cwd=d, env=e, stdout=open(os.path.join(d, 'o'), 'w'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    tr = lambda: open(os.path.join(d, 'trace')).read() if os.path.exists(os.path.join(d, 'trace')) else ''
    t0 = time.time()
    while not tr() and time.time() - t0 < 20: time.sleep(.001)
    time.sleep(delay); what = 'pause asked from outside after %.0f ms' % (delay * 1e3); rep = dict(config=b['doc'], env=b['env'])
    n = 0
    try:
        while p.poll() is None and n < 4:
            p.send_signal(USR1); t0 = time.time(); n0 = tr().count('\nsleep')
            while p.poll() is None and tr().count('\nsleep') == n0 and time.time() - t0 < 60: time.sleep(.002)
            if p.poll() is not None: break
            if tr().count('\nsleep') > n0:
                h = progs.data(d); wr = writes(h); c.ok(h['opened'] == h['closed'], 'unclosed', what + ': data file is open while the run is paused', rep)
                c.ok(len(wr) == len(b['wr']) or b['step'][len(wr)] > b['step'][len(wr) - 1], 'pause', what + ': paused with an incomplete step in the file', rep); compare(c, b, h, what, rep, len(wr)); c.saw('pauses from outside'); n += 1
            p.send_signal(USR2); n1 = tr().count('\nopen'); t0 = time.time()
            while p.poll() is None and tr().count('\nopen') == n1 and time.time() - t0 < 20: time.sleep(.002); (p.send_signal(USR2) if (time.time() - t0) % 1 < .003 else None)
            time.sleep(rnd.uniform(0, b['time'] / 2))
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 120:
            time.sleep(.05); p.send_signal(USR2) # a request that came last may still hold it
        c.case(sig=('outside', b['k'], n))
        if c.ok(p.poll() is not None, 'hang', what + ': the run does not end', rep):
            out = open(os.path.join(d, 'o')).read()
            if c.ok(p.returncode == 0, 'crash:' + c.crash_key(out), what + ': ended with %s: %s' % (p.returncode, out[-400:]), rep): compare(c, b, progs.data(d), what, rep, None)
    finally:
        if p.poll() is None: p.kill(); p.wait()
        shutil.rmtree(d)


def run(c):
    rnd = random.Random(c.seed); jobs = []
    bs = worlds(c)
    for b in bs:
        if b['long']: continue
        K = b['kinds']
        pts = [k for k in ('write', 'write_begin', 'select', 'get_dataset', 'resize', 'log', 'create_group', 'create_dataset', 'attr') if K.get(k)]
        pick = lambda kinds=None: (lambda k: (k, rnd.randrange(1, K[k] + 1)))(rnd.choice(kinds or pts))
        n = 60 if c.quick else 400
        jobs.append((b, [('log', K['log'], int(signal.SIGTERM))])) # after the file has been closed for good
        for s in TERM: jobs.append((b, [pick(['write', 'write_begin', 'resize', 'select', 'get_dataset', 'attr', 'create_dataset']) + (int(s),)]))
        for _ in range(n):
            x = rnd.random()
            if x < .3: seq = [pick(['write', 'resize', 'select', 'write_begin', 'get_dataset', 'log']) + (USR1,), ('sleep', rnd.randrange(1, 4), USR2)]
            elif x < .5: # several pauses
                seq = []
                for _ in range(rnd.randrange(2, 5)): seq += [('write', rnd.randrange(1, max(2, K['write'] // 3)), USR1), ('sleep', rnd.choice([1, 1, 2]), USR2)]
            elif x < .6: seq = [pick(['write', 'select']) + (USR1,), ('write_begin', rnd.randrange(1, 3), USR1), ('sleep', 2, USR1), ('sleep', 1, USR2)] # asked twice
            elif x < .7: seq = [pick(['write', 'select', 'resize']) + (USR1,), (rnd.choice(['write_begin', 'log', 'sleep']), 1, USR2)] # resumed before it is paused
            elif x < .73: seq = [pick() + (USR2,)] # nothing to resume
            elif x < .78: seq = [('write', rnd.randrange(1, max(2, K['write'] // 3)), USR2), ('write', rnd.randrange(1, max(2, K['write'] // 3)), USR1), ('sleep', rnd.choice([1, 2, 3]), USR2)] # a request to continue, long before the pause
            elif x < .85: seq = [pick(['write', 'select']) + (USR1,), ('sleep', rnd.randrange(1, 4), int(rnd.choice(TERM)))] # ended while paused
            elif x < .9: seq = [('write', rnd.randrange(1, K['write']), USR1), ('sleep', 1, USR2), (rnd.choice(['write', 'sleep', 'resize']), 1, int(rnd.choice(TERM)))] # ended after a pause
            else: seq = [pick() + (int(rnd.choice(TERM)),)]
            jobs.append((b, seq))
    def go(j):
        b, seq = j
        if b is None: return
        one(c, b, seq, '')
    with ThreadPoolExecutor(10) as ex: list(ex.map(go, jobs))
    ls = [b for b in bs if b['long']]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda i: outside(c, ls[i % len(ls)], random.Random(c.seed * 1000 + i)), range(12 if c.quick else 120)))
    for k, m in (('pauses', 40), ('terminated runs', 30), ('signals delivered', 150), ('pauses from outside', 3)): c.need(k, m)
