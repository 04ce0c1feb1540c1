import os, json, random, glob
RULE = ('every case is a generated world (decomposition, particles, fields, up to 24 probes) stepped in the order of the main loop; every value of every frame is compared with '
        'the live state at the moment of the dump (density and other maps: with all the particles weighted in a single domain), every element must be written exactly once; '
        'distinct = different (decomposition, remainder of the split, number of probes)')
ASSUMPTIONS = ['mean energy, momentum and temperature at the nodes on the border of two domains are not compared (they average particles of one domain)', 'no two probes have the same path']
SUB = None


def program(c):
    """whole-program runs: frames by count, each element once"""
    exe = c.build({'hdf5': True}).program()
    rnd = random.Random(c.seed * 7 + 1)
    for k in range(6 if c.quick else 120):
        rd, zd = rnd.choice([(1, 1), (1, 2), (2, 1), (2, 2), (4, 2)])
        nr, nz = rd * 4 + rnd.randrange(8) + 4, zd * 4 + rnd.randrange(8) + 4
        dt, n = 1e-13 * rnd.uniform(.1, 1), rnd.randrange(1, 30)
        if k % 20 == 5: rd, zd, nr, nz, n = 1, 1, 4, 32768 + rnd.randrange(5, 300), 2  # one very long domain
        long = k % 20 == 3
        if long: rd, zd, nr, nz, n = 1, 1, 4, 4, 66000 + rnd.randrange(1500)  # many time steps and many frames
        probes = []
        for comp in rnd.sample(['E/r', 'E/z', 'H/phi', 'J/z', 'density', 'temperature', 'energy', 'momentum/z'], 5):
            p = dict(component=comp, schedule=rnd.randrange(1, 6), shape=rnd.choice(['rec', 'col', 'row', 'dot']), specie=rnd.choice(['electrons', 'ions']))
            if long: p['shape'] = rnd.choice(['row', 'col', 'dot']); p['schedule'] = rnd.choice([60000, rnd.randrange(100, 240), 33000])
            if p['shape'] == 'rec':
                a, b = sorted(rnd.sample(range(nr + 1), 2)); e, f = sorted(rnd.sample(range(nz - 200 if nz > 9999 else 0, nz + 1), 2))
                p.update(start=dict(r=a, z=e), end=dict(r=b, z=f)); p['_d'] = [b - a, f - e]
            if p['shape'] in ('col', 'dot'): p['z'] = rnd.randrange(nz - 200 if nz > 9999 else 0, nz); p['_d'] = [nr]
            if p['shape'] in ('row', 'dot'): p['r'] = rnd.randrange(nr); p['_d'] = [nz]
            if p['shape'] == 'dot': p['_d'] = [1]
            pth = '/' + comp + '/' + (p['specie'] + '/' if comp[0].islower() else '') + p['shape'] + '/'
            pth += {'rec': lambda: '%d-%d_%d-%d' % (p['start']['r'], p['end']['r'], p['start']['z'], p['end']['z']), 'col': lambda: str(p['z']), 'row': lambda: str(p['r']), 'dot': lambda: '%d_%d' % (p['r'], p['z'])}[p['shape']]()
            p['_p'] = pth; probes.append(p)
        d = c.mkdir('prg')
        doc = dict(macro_amount=rnd.randrange(300, 1500) if not long else 40, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
                   geometry=dict(size=dict(radius=nr * 1e-4, longitude=nz * 1e-4), grid=dict(radius=nr, longitude=nz), domains_amount=dict(radius=rd, longitude=zd), pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=1e-5, sigma_2=.1)),
                   time=dict(start=0, end=(n - .5) * dt, step=dt), external_fields=dict(electric=dict(formfactor='none', params=[1]), magnetic=dict(formfactor='none', params=[1])),
                   particles=[dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)], beams=[],
                   data=dict(data_root='out', compression=dict(use=False, level=1), probes=[{k: v for k, v in p.items() if k[0] != '_'} for p in probes], plot={}))
        json.dump(doc, open(os.path.join(d, 'c.json'), 'w'))
        rc, out = c.run([exe, '-f', 'c.json'], 120, cwd=d)
        rep = dict(config=doc); c.case(sig=('program', rd, zd, n)); c.saw('program runs')
        if not c.ok(rc == 0, 'program:' + c.crash_key(out), 'run of the program ended with %s: %s' % (rc, out[-600:]), rep): continue
        h = json.load(open(os.path.join(d, 'out', 'data.h5')))
        for p in probes:
            ds = h['datasets'].get(p['_p'])
            if not c.ok(ds is not None, 'program:path', 'there is no %s in the file: %s' % (p['_p'], sorted(h['datasets'])), rep): continue
            nf = (n - 1) // p['schedule'] + 1
            c.ok(ds['dims'] == [nf] + p['_d'], 'program:extent', '%s: dimensions %s, expected %s frames of %s' % (p['_p'], ds['dims'], nf, p['_d']), rep)
            c.ok(all(w == 1 for w in ds['writes']), 'program:once', '%s: elements written %s times' % (p['_p'], sorted(set(ds['writes']))), rep)
            c.saw('program frames', nf)
            if long: c.saw('frames of long runs', nf)


def run(c):
    n = 700 if c.quick else 20000
    h = 'h_out.cpp'
    c.prebuild([(h, dict(variant={'pml': True, 'hdf5': True})), (h, dict(variant={'pml': False, 'hdf5': True, 'pusher': 'VAY', 'ccs': 'ZIGZAG'}, san='o0'))] if not c.quick else [(h, dict(variant={'pml': True, 'hdf5': True}))])
    c.harness(h, n, per=None if c.quick else 20, variant={'pml': True, 'hdf5': True})
    if not c.quick: c.harness(h, n, per=20, variant={'pml': False, 'hdf5': True, 'pusher': 'VAY', 'ccs': 'ZIGZAG'}, san='o0', prefix='o0:')
    program(c)
    for k, m in (('values compared', 100000), ('frames of rec', 500), ('frames of col', 200), ('frames of row', 200), ('frames of dot', 200), ('density frames', 300), ('temperature frames', 100), ('energy frames', 100), ('momentum/r frames', 50),
                 ('E frames', 100), ('H frames', 100), ('J frames', 100), ('decomposed worlds', 100), ('late starts', 20), ('program frames', 20), ('frames of long runs', 10), ('maps of look-alike species', 20)): c.need(k, m)
