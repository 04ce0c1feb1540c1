import os, random, json
RULE = ('every case is a generated configuration document (random values, key order, white space, number notation): accepted ones are compared entry by entry with '
        'the parsed configuration and the domains built from it, broken ones (16 kinds, incl. each required entry missing or mistyped) must be rejected; whole-program '
        'runs on malformed files and command lines; distinct = different (shape of the document) or defect')
ASSUMPTIONS = ['JSON syntax itself is decoded by the stand-in parser', 'particles mass and charge are whole numbers, as documented']

BASE = dict(macro_amount=200, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
            geometry=dict(size=dict(radius=.01, longitude=.01), grid=dict(radius=8, longitude=8), domains_amount=dict(radius=1, longitude=1),
                          pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=1e-5, sigma_2=.1)),
            time=dict(start=0, end=3e-13, step=1e-13), external_fields=dict(electric=dict(formfactor='none', params=[1]), magnetic=dict(formfactor='none', params=[1])),
            particles=[dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)],
            beams=[], data=dict(data_root='out', compression=dict(use=False, level=1), probes=[dict(component='E/r', schedule=1, shape='dot', r=1, z=1)], plot={}))


def program(c):
    b = c.build({'hdf5': True})
    exe = b.program()
    rnd = random.Random(c.seed)
    good = json.dumps(BASE)
    n = 60 if c.quick else 1500

    def go(name, text, args=None, expect=None):
        d = c.mkdir('cfg')
        if text is not None: open(os.path.join(d, 'c.json'), 'w').write(text)
        rc, out = c.run([exe] + (args if args is not None else ['-f', 'c.json']), 60, cwd=d, env={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=2:handle_abort=0'})
        c.case(sig=name); c.saw('program runs')
        bad = rc == 'hang' or 'Sanitizer' in out or 'runtime error' in out or rc in (97, 99, 139, 11) or (isinstance(rc, int) and rc < 0)
        msg = '%s: exit %s, %s' % (name, rc, out[-300:])
        rep = dict(text=text, args=args)
        if c.ok(not bad, 'program:crash', msg, rep):
            if expect == 'ok': c.ok(rc == 0, 'program:refused', msg, rep)
            if expect == 'error': c.ok(rc != 0 and out.strip(), 'program:silent', msg, rep)
        if rc != 0: c.saw('program refusals')
    go('valid', good, expect='ok')
    go('missing file', None, expect='error')
    go('empty file', '', expect='error')
    go('no value after -f', good, ['-f'], 'error')
    go('directory', None, ['-f', '.'], 'error')
    go('default name missing', None, [], 'error')
    go('version', None, ['--version'], 'ok')
    go('help', None, ['-h'])
    for k in range(n):
        t = good
        kind = rnd.randrange(4)
        if kind == 0: go('truncated', t[:rnd.randrange(1, len(t) - 1)], expect='error')
        elif kind == 1:
            # a structural character is lost
            i = rnd.choice([i for i, x in enumerate(t) if x in '{}[]:,'])
            go('lost %s at %d' % (t[i], i), t[:i] + t[i + 1:], expect='error')
        elif kind == 2:
            i = rnd.choice([i for i, x in enumerate(t) if x in '{}[]:,"'])
            go('damaged', t[:i] + rnd.choice('{}[]:;x\x00\xff') + t[i + 1:])
        else:
            d = json.loads(t); k2 = rnd.choice(['geometry', 'time', 'particles', 'beams', 'data', 'macro_amount', 'log_file'])
            if rnd.random() < .5: del d[k2]
            else: d[k2] = rnd.choice([None, [], {}, 'x', True])
            if (k2 == 'beams' and d.get(k2) == []) or (k2 == 'log_file' and d.get(k2) == 'x'): continue
            go('%s replaced' % k2, json.dumps(d), expect='error')


def run(c):
    n = 3000 if c.quick else 100000
    h = 'h_cfg.cpp'
    c.prebuild([(h, dict(variant={'pml': True, 'external': True})), (h, dict(variant={'pml': False}))])
    c.harness(h, n, per=None if c.quick else 2000, variant={'pml': True, 'external': True})
    c.harness(h, n // 2, per=None if c.quick else 2000, variant={'pml': False}, prefix='bare:')
    program(c)
    for k, m in (('values compared', 10000), ('rejections', 500), ('species in domains', 1000), ('beams in domains', 500), ('external fields read', 100), ('program refusals', 30)): c.need(k, m)
