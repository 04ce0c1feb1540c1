import os, json, random, hashlib, re
import progs
from concurrent.futures import ThreadPoolExecutor
RULE = ('every case is a run of the whole program with a generated configuration: built with AddressSanitizer, UndefinedBehaviorSanitizer (with float-to-integer overflows) and checked standard containers in every value of every build option; '
        'under valgrind memcheck (uninitialised values that decide branches, addresses or output); and as pairs of builds whose only difference is the garbage in uninitialised heap and stack memory, whose output must be identical bit by bit; '
        'distinct = different (monitor, build, decomposition, walls, beams, external field)')
ASSUMPTIONS = ['the time step obeys the Courant condition (the program itself warns otherwise), densities are within the range where the plasma frequency is resolved',
               'the log and JSON libraries and HDF5 are stand-ins: they are watched as well, but are not the real ones', 'the AVX path is exercised with the instruction set of this machine']
P = ['BORIS_ADAPTIVE', 'BORIS', 'BORIS_RELATIVISTIC', 'HC', 'VAY']; S = ['FLAT', 'RANDOM', 'REGULAR', 'CENTERED']; V = ['THERMAL', 'RECTANGULAR', 'EIGEN']; C = [None, 'TA77S', 'SK98', 'P12']


def lattice(rnd, n):
    """n builds; every value of every option occurs"""
    def deal(xs):
        r = []
        while len(r) < n: r += rnd.sample(xs, len(xs))
        return r[:n]
    cols = dict(pusher=deal(P), ccs=deal(['VB', 'ZIGZAG']), spatial=deal(S), velocity=deal(V), collisions=deal(C), pml=deal([True, False]), external=deal([True, False]), debug=deal([True, False, False]), ieee=deal([True, False]), singlethread=deal([True, False, False]))
    return [{k: x[i] for k, x in cols.items()} for i in range(n)]


def config(rnd, v, small=False):
    doc, info = progs.random_config(rnd, steps=rnd.randrange(3, 9) if small else None, probes=rnd.choice([2, 8]), splits=[(1, 1), (2, 1), (1, 2), (2, 2)] if small else [(1, 1), (1, 2), (2, 1), (2, 2), (4, 2), (2, 4), (4, 4), (1, 6), (6, 2)],
                                    pml=v.get('pml', True), beams=rnd.random() < .6, macro=(60, 250) if small else (100, 2500))
    doc['beam_plasma_macro_size_ratio'] = rnd.randrange(1, 5)
    if rnd.random() < .4:   # hot, or cold, or immobile plasma
        for s in doc['particles']: s['temperature'] = rnd.choice([0, 1e-3, 1e3, 1e4])
    if rnd.random() < .3: doc['particles'][0]['density'] = rnd.choice([1e5, 1e10])
    if rnd.random() < .2: doc['macro_amount'] = rnd.randrange(1, 20)
    if v.get('external'):
        for kind, scale in (('electric', 1e4), ('magnetic', 1e5)):
            if rnd.random() < .7: doc['external_fields'][kind] = dict(formfactor='const_z', params=[rnd.uniform(-1, 1) * scale])
    if doc['geometry']['pml']['outer_wall'] and rnd.random() < .3: doc['geometry']['pml']['outer_wall'] = .45
    return doc, info


def sig(kind, v, doc, info): return (kind, sorted(v.items(), key=str), info['rd'], info['zd'], len(doc['beams']), doc['external_fields']['electric']['formfactor'], [bool(x) for x in doc['geometry']['pml'].values()][:3])


def sanitizers(c, rnd):
    vs = lattice(rnd, 6 if c.quick else 36)
    builds = [c.build(v, san='asan', extra=('-fsanitize=float-cast-overflow',) + (('-O3', '-ffast-math', '-fno-finite-math-only') if i % 6 == 5 else ())) for i, v in enumerate(vs)]
    with ThreadPoolExecutor(3) as ex: exes = list(ex.map(lambda b: b.program(), builds))

    def one(k):
        r = random.Random(c.seed * 7919 + k); v = vs[k % len(vs)]; doc, info = config(r, v); d = c.mkdir('san'); progs.write(d, doc)
        rc, out = c.run([exes[k % len(vs)], '-f', 'c.json'], 240, cwd=d)
        rep = dict(variant=v, config=doc); c.case(sig=sig('asan', v, doc, info), sample='%s steps %d' % (v, info['steps'])); c.saw('sanitized runs'); c.saw('sanitized steps', info['steps'])
        for key, val in v.items(): c.saw('sanitized %s=%s' % (key, val))
        c.ok(rc == 0, ('hang' if rc == 'hang' else c.crash_key(out)), 'build %s ended with %s: %s' % (v, rc, out[-2500:]), rep)
        os.system('rm -rf %s' % d)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(60 if c.quick else 1500)))


def memcheck(c, rnd):
    vs = lattice(rnd, 3 if c.quick else 12)
    builds = [c.build(v, san='plain', extra=('-O1',)) for v in vs]
    with ThreadPoolExecutor(3) as ex: exes = list(ex.map(lambda b: b.program(), builds))

    def one(k):
        r = random.Random(c.seed * 104729 + k); v = vs[k % len(vs)]; doc, info = config(r, v, True); d = c.mkdir('mem'); progs.write(d, doc)
        rc, out = c.run(['valgrind', '-q', '--error-exitcode=95', '--track-origins=yes', '--num-callers=20', exes[k % len(vs)], '-f', 'c.json'], 300, cwd=d)
        rep = dict(variant=v, config=doc); c.case(sig=sig('memcheck', v, doc, info)); c.saw('memcheck runs')
        m = re.search(r'==\d+== ([A-Z][^\n]*)\n(?:==\d+==    at [^\n]*\n)?', out); at = re.search(r'(?:at|by) 0x[0-9A-F]+: (?!operator|mem|std::)([\w:~<>]+)', out)
        c.ok(rc == 0, 'memcheck:%s' % (at.group(1) if at else rc), 'build %s under memcheck ended with %s: %s' % (v, rc, (out[m.start():] if m else out[-2500:])[:2500]), rep)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(18 if c.quick else 160)))


def garbage(c, rnd):
    """what uninitialised memory holds must not reach the output"""
    vs = lattice(rnd, 2 if c.quick else 10); runs = []
    init = ['-ftrivial-auto-var-init=pattern', '-ftrivial-auto-var-init=zero']
    pairs = [[c.build(v, san='plain', extra=('-O1', i)) for i in init] for v in vs]
    with ThreadPoolExecutor(3) as ex: exes = list(ex.map(lambda b: b.program(hooks=True), [b for p in pairs for b in p]))

    def one(k):
        r = random.Random(c.seed * 31337 + k); w = k % len(vs); v = vs[w]; doc, info = config(r, v); sums = []
        rep = dict(variant=v, config=doc, env=dict(VSHIM_SEED=k + 1)); c.case(sig=sig('garbage', v, doc, info))
        for exe, fill in ((exes[2 * w], '85'), (exes[2 * w + 1], '170'), (exes[2 * w], '1')):
            d = c.mkdir('gar'); progs.write(d, doc)
            rc, out = c.run([exe, '-f', 'c.json'], 120, cwd=d, env=dict(MALLOC_PERTURB_=fill, VSHIM_SEED=str(k + 1), OMP_NUM_THREADS='1'))
            if not c.ok(rc == 0, 'garbage:' + c.crash_key(out), 'build %s with memory filled with %s ended with %s: %s' % (v, fill, rc, out[-1500:]), rep): return
            h = progs.data(d)['datasets']; sums.append(h); os.system('rm -rf %s' % d)
        for x in sums[1:]:
            bad = [p for p in sums[0] if x.get(p, {}).get('data') != sums[0][p]['data'] and str(x.get(p, {}).get('data')) != str(sums[0][p]['data'])]
            c.ok(not bad, 'garbage:output', 'build %s: values of %s depend on the content of uninitialised memory' % (v, bad[:3]), rep)
        c.saw('garbage runs'); c.saw('garbage values compared', sum(len(x['data']) for x in sums[0].values()))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(32 if c.quick else 600)))


def run(c):
    rnd = random.Random(c.seed * 17 + 3)
    sanitizers(c, rnd); memcheck(c, rnd); garbage(c, rnd)
    for k, m in (('sanitized runs', 55), ('sanitized steps', 300), ('memcheck runs', 15), ('garbage runs', 28), ('garbage values compared', 5000)): c.need(k, m)
    for key, vals in (('pusher', P), ('spatial', S), ('velocity', V), ('collisions', C), ('ccs', ['VB', 'ZIGZAG'])):
        for x in vals: c.need('sanitized %s=%s' % (key, x), 1)
