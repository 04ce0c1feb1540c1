import os, json, random, copy
import progs, vbuild
RULE = ('every case is a run of the whole program with a generated document (comment, species, beams, probes, plot section), whose metadata is compared with the document, with the build options and with the attributes, and '
        'a session of the reader library over the data file (as written, and with the values replaced by unique ones); every answer is compared with the content of the file; distinct = different (build, decomposition, set of probe shapes)')
ASSUMPTIONS = ['h5py and HDF5 are replaced with stand-ins (not installed here)', 'documents have the plot section, as documented', 'only coordinates inside of the probe and frames, which exist, must be answered']
VARIANTS = [dict(), dict(pusher='BORIS', spatial='RANDOM', velocity='EIGEN', ccs='ZIGZAG', debug=True), dict(pusher='BORIS_RELATIVISTIC', spatial='REGULAR', velocity='RECTANGULAR', ieee=True),
            dict(pusher='HC', spatial='CENTERED', pml=False, collisions='TA77S'), dict(pusher='VAY', external=True, ccs='ZIGZAG', debug=True, ieee=True)]
NAMES = dict(pusher=dict(BORIS_ADAPTIVE='boris adaptive', BORIS='boris classic', BORIS_RELATIVISTIC='boris relativistic', HC='higuera-cary', VAY='vay'), ccs=dict(VB='villasenor-buneman', ZIGZAG='zigzag'))
COMMENTS = ['', 'No comments', 'with "quotes" and \\ backslash', 'two\nlines\tand tab', 'кириця', 'a' * 3000, '{"json": [1, 2]}', 'slash / percent % dollar $', ' leading and trailing ']


def plot(rnd):
    return dict(subplot=dict(cmap=rnd.choice(['terrain', 'jet']), ticks=dict(x_amount=rnd.randrange(1, 30), y_amount=rnd.randrange(1, 30), z_amount=rnd.randrange(1, 30), cbar_amount=rnd.randrange(1, 9))),
                figure=dict(color=rnd.choice(['None', '#ffffff']), width=rnd.uniform(1, 20), height=rnd.uniform(1, 20), dpi=rnd.randrange(50, 600), font=dict(family='serif', size=rnd.randrange(5, 20), name='DejaVu Sans')),
                video=dict(codec='mjpeg', fps=rnd.randrange(1, 60), bitrate=rnd.randrange(1000, 64000)))


def flat(x, p=''):
    if isinstance(x, dict): return {k2: v2 for k, v in x.items() if v is not None for k2, v2 in flat(v, p + '.' + k).items()} or {p: {}}
    if isinstance(x, list): return {k2: v2 for k, v in enumerate(x) for k2, v2 in flat(v, p + '.%d' % k).items()} or {p: []}
    return {p: x}


def metadata(c, v, doc, h, rep):
    a = h['attrs']
    if not c.ok(isinstance(a.get('metadata'), str), 'metadata:missing', 'there is no metadata in the file', rep): return
    try: m = json.loads(a['metadata'])
    except ValueError as e: c.violation('metadata:syntax', 'metadata is not a document: %s' % e, rep); return
    o = m.pop('build_options', {}); w = copy.deepcopy(doc); m2, w2 = copy.deepcopy(m), w
    for x in (m2, w2): x.get('data', {}).pop('data_root', None)
    fm, fw = flat(m2), flat(w2)
    for k in sorted(set(fm) | set(fw)):
        x, y = fm.get(k, '(nothing)'), fw.get(k, '(nothing)')
        c.ok(x == y and (isinstance(x, bool) == isinstance(y, bool)), 'metadata:' + '.'.join(t for t in k.split('.') if not t.isdigit()), 'metadata says %s = %r, the configuration %r' % (k, x, y), rep)
        c.saw('metadata values')
    q = dict(vbuild.DEFAULT); q.update(v)
    want = dict(package_version='verif1', debug=q['debug'], ieee=q['ieee'], plasma_spatial_distribution=q['spatial'].lower(), plasma_velocity_distribution=q['velocity'].lower(), particles_pusher=NAMES['pusher'][q['pusher']],
                current_deposition=NAMES['ccs'][q['ccs']], maxwell_solver='yee', build_flags='-verif -flags')
    for k, x in want.items(): c.ok(o.get(k) == x, 'build:' + k, 'build option %s is %r, the build has %r' % (k, o.get(k), x), rep); c.saw('build options')
    attrs = dict(software='PiCoPiC', softwareVersion='verif1', softwareBuildFlags='-verif -flags', softwareDependencies='gcc@6+;hdf5@1.12.0', softwareConfigDebug=q['debug'], softwareConfigIEEE=q['ieee'], softwareConfigCurrentDeposition=want['current_deposition'],
                 softwareConfigFieldSolver='yee', softwareConfigParticlesPusher=want['particles_pusher'], softwareConfigPlasmaVelocityDistribution=want['plasma_velocity_distribution'], softwareConfigPlasmaSpatialDistribution=want['plasma_spatial_distribution'],
                 comment=doc['comment'])
    for k, x in attrs.items(): c.ok(a.get(k) == x and type(a.get(k)) == type(x), 'attribute:' + k, 'attribute %s is %r, expected %r' % (k, a.get(k), x), rep); c.saw('attributes')


def session(c, d, doc, seed, n, rep, what):
    json.dump(doc, open(os.path.join(d, 'asked.json'), 'w'))
    rc, out = c.run(['python3-vt', os.path.join(vbuild.VERIF, 'harness', 'reader_drive.py'), os.path.join(vbuild.REPO, 'lib', 'python'), os.path.join(d, 'out', 'data.h5'), os.path.join(d, 'asked.json'), str(seed), str(n)], 120, cwd=d)
    r = [l for l in out.splitlines() if l.startswith('READER ')]
    if not c.ok(rc == 0 and r, 'reader:crash', 'session of the reader ended with %s: %s' % (rc, out[-1500:]), rep): return
    r = json.loads(r[-1][7:]); c.oracle += r['checks']; c.saw('sessions ' + what)
    for k, x in r['counters'].items(): c.saw(k, x)
    for k, x in r['violations'].items(): c.violation(k, '(%s) %s' % (what, x), rep)


def run(c):
    from concurrent.futures import ThreadPoolExecutor
    vs = VARIANTS; builds = [c.build(v, san='plain') for v in vs]
    builds[0].objects()
    with ThreadPoolExecutor(4) as ex: exes = list(ex.map(lambda b: b.program(), builds))

    def one(k):
        rnd = random.Random(c.seed * 1000003 + k); v = vs[k % len(vs)]
        doc, info = progs.random_config(rnd, probes=rnd.choice([1, 6, 14]), pml=True, beams=rnd.random() < .5)
        for _ in range(2):   # more than one shape of everything
            p = progs.random_probe(rnd, info['nr'], info['nz'], [s['name'] for s in doc['particles']])
            if progs.probe_path(p) not in [progs.probe_path(x) for x in doc['data']['probes']]: doc['data']['probes'].append(p)
        for p in doc['data']['probes']:
            if p['component'][0].isupper() and rnd.random() < .5: p.pop('specie')
        doc['comment'] = rnd.choice(COMMENTS); doc['data']['plot'] = plot(rnd); doc['data']['compression'] = dict(use=rnd.random() < .3, level=rnd.randrange(1, 10))
        doc['beam_plasma_macro_size_ratio'] = rnd.randrange(1, 5)
        for kind in ('electric', 'magnetic'):
            if rnd.random() < .5: doc['external_fields'][kind] = dict(formfactor='const_z', params=[rnd.uniform(-1e3, 1e3)])
        rep = dict(config=doc, variant=v); d = c.mkdir('run'); progs.write(d, doc)
        rc, out = c.run([exes[k % len(vs)], '-f', 'c.json'], 120, cwd=d)
        c.case(sig=(k % len(vs), info['rd'], info['zd'], sorted({p['shape'] for p in doc['data']['probes']})), sample='%s: %d probes, %d steps' % (v, len(doc['data']['probes']), info['steps']))
        if not c.ok(rc == 0, 'program:' + c.crash_key(out), 'run of the program ended with %s: %s' % (rc, out[-600:]), rep): return
        h = progs.data(d); metadata(c, v, doc, h, rep)
        n = 60 if c.quick else 300
        if not doc['data']['probes']: return
        if not c.ok(all(progs.probe_path(dict(p, specie=p.get('specie', ''))) in h['datasets'] for p in doc['data']['probes']), 'paths', 'a probe is not in the file', rep): return
        session(c, d, doc, k, n, rep, 'as written')
        for ds in h['datasets'].values(): ds['data'] = [rnd.uniform(-1, 1) * 10 ** rnd.randrange(-30, 30) for _ in ds['data']]   # every element is unique
        json.dump(h, open(os.path.join(d, 'out', 'data.h5'), 'w')); session(c, d, doc, k + 1, n, rep, 'unique values')
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(60 if c.quick else 600)))
    for k, m in (('metadata values', 2000), ('build options', 400), ('attributes', 500), ('requests', 5000), ('contexts', 50), ('missing files', 50), ('refusals', 100), ('sessions without cache', 30), ('cache misses', 30), ('cache sessions', 30), ('requests to rectangles off the origin', 500), ('metadata fields', 2000)) + tuple(
            (x, 50) for x in ('rec', 'col', 'row', 'dot', 'col_rec', 'row_rec', 'dot_rec', 'rec_range', 'col_range', 'row_range', 'dot_range', 'col_rec_range', 'row_rec_range', 'dot_rec_range')): c.need(k, m)
