import os, json, random, re
import progs
from concurrent.futures import ThreadPoolExecutor
RULE = ('every case is a run of the whole program under ThreadSanitizer, with an OpenMP runtime whose synchronisation it sees; the runtime deals teams of 2 to 33 threads, in random order and with random delays, to every parallel region; '
        'happens-before analysis reports unsynchronised conflicting accesses whether or not they happen to collide; the same runs must complete with every frame written; distinct = different (build, decomposition, beams, outputs)')
ASSUMPTIONS = ['particles move less than one domain per step (the program itself warns otherwise)', 'happens-before of the monitored runs covers the schedules of the real OpenMP runtime', 'the history of ThreadSanitizer is bounded: a conflict between very distant accesses of one region can be missed in one run']
P = ['BORIS_ADAPTIVE', 'BORIS', 'BORIS_RELATIVISTIC', 'HC', 'VAY']


def run(c):
    rnd = random.Random(c.seed * 13 + 5)
    vs = [dict(collisions='TA77S', spatial='RANDOM', external=True), dict(pusher='VAY', ccs='ZIGZAG', collisions='P12', spatial='REGULAR', velocity='RECTANGULAR', pml=False), dict(pusher='HC', collisions='SK98', spatial='CENTERED', velocity='EIGEN', debug=True)]
    if not c.quick: vs += [dict(pusher=p, ccs=cc, collisions=k, spatial=s, external=e) for p, cc, k, s, e in (('BORIS', 'VB', None, 'FLAT', True), ('BORIS_RELATIVISTIC', 'ZIGZAG', 'TA77S', 'FLAT', False), ('BORIS_ADAPTIVE', 'VB', None, 'FLAT', False))]
    builds = [c.build(v, san='tsan', openmp=True) for v in vs]
    with ThreadPoolExecutor(3) as ex: exes = list(ex.map(lambda b: b.program(gomp=True), builds))

    def one(k):
        if len(c.violations) >= 3: return
        r = random.Random(c.seed * 999983 + k); v = vs[k % len(vs)]
        doc, info = progs.random_config(r, steps=r.randrange(2, 7), probes=r.choice([3, 12]), splits=[(2, 2), (4, 2), (2, 4), (4, 4), (6, 2), (1, 6), (8, 1), (2, 1), (1, 2), (6, 6)], pml=v.get('pml', True), beams=r.random() < .7, macro=(600, 3500))
        for s in doc['particles']:
            s['temperature'] = r.choice([1, 1e3, 1e4])   # many of them change domains
        doc['beam_plasma_macro_size_ratio'] = r.randrange(1, 4)
        if v.get('external'):
            for kind, scale in (('electric', 1e4), ('magnetic', 1e5)): doc['external_fields'][kind] = dict(formfactor='const_z', params=[r.uniform(-1, 1) * scale])
        d = c.mkdir('tsan'); progs.write(d, doc); st = os.path.join(d, 'gomp.json')
        rc, out = c.run([exes[k % len(vs)], '-f', 'c.json'], 120, cwd=d, env=dict(VSHIM_SEED=str(c.seed * 1000 + k), VSHIM_GOMP=st, TSAN_OPTIONS='exitcode=98:halt_on_error=1:history_size=4:report_signal_unsafe=0:handle_abort=0'))
        rep = dict(variant=v, config=doc, gomp_seed=c.seed * 1000 + k)
        c.case(sig=(k % len(vs), info['rd'], info['zd'], len(doc['beams']), len(doc['data']['probes'])), sample='%s %dx%d domains, %d steps' % (v, info['rd'], info['zd'], info['steps'])); c.saw('runs')
        races = re.findall(r'WARNING: ThreadSanitizer: ([^\n(]+)[^\n]*\n(.*?)\n={18}', out, re.S); seen = set()
        for what, txt in races:
            fr = [f for f in re.findall(r'#\d+ (\S[^\n(]*?)(?:\(| /)', txt) if not re.match(r'(std::|operator|__|void std|memcpy|memset)', f)]
            key = '%s:%s' % (what.strip().replace(' ', '-'), fr[0] if fr else '?')
            if key not in seen: seen.add(key); c.violation(key, 'build %s: %s' % (v, txt[:1800]), rep)
        with c.lock: c.oracle += 1
        if not races: c.ok(rc == 0, 'end:' + ('hang' if rc == 'hang' else c.crash_key(out)), 'build %s ended with %s: %s' % (v, rc, out[-1500:]), rep)
        if os.path.exists(st):
            try: g = json.load(open(st))
            except ValueError: g = {}
            for n, x in g.items():
                if n == 'most active': c.saw('runs with 8 or more threads at once', x >= 8)
                else: c.saw(n, x)
        c.saw('particle steps', doc['macro_amount'] * info['steps'])
        os.system('rm -rf %s' % d)
    with ThreadPoolExecutor(4) as ex: list(ex.map(one, range(36 if c.quick else 600)))
    for k, m in (('runs', 30), ('regions', 2000), ('bodies', 20000), ('overlapping bodies', 2000), ('criticals', 200), ('completion orders', 1000), ('team sizes', 100)): c.need(k, m)
