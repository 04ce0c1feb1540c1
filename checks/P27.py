import json, os, random, shutil
import progs
RULE = ('every case is a generated world (decomposition, particles, beams, plasma) advanced by the whole time step of the code; oracles are Gauss\'s law at every node with an exact account of '
        'injected and removed charge, rest of a cold neutral plasma, period, amplitude and energy of plasma oscillations, energy of a warm plasma in a closed box; in whole-program runs '
        'every frame must follow from the previous one by Ampere\'s and Faraday\'s laws; distinct = different (decomposition, kind, mode) situation')
ASSUMPTIONS = ['Gauss\'s law is checked with the Villasenor-Buneman deposition (the zigzag one does not conserve charge at a node of the cylindrical grid)',
               'node (0,1) and the nodes on the walls are exempt (the field of the corner of the axis and the left wall is not advanced)', 'plasma period may deviate by 10% and energy of a warm plasma by 3% over two periods']


def program(c):
    """every frame written by the program follows from the previous one"""
    exe = c.build({'hdf5': True, 'pml': False}, san='plain', openmp=True).program()
    EPS, MU = 8.85e-12, 1.26e-6
    rnd = random.Random(c.seed * 31 + 7)
    for k in range(8 if c.quick else 150):
        n = rnd.randrange(6, 30)
        doc, w = progs.random_config(rnd, steps=n, probes=1, beams=True, splits=[(1, 1), (1, 2), (2, 1), (2, 2), (4, 2), (2, 4), (4, 4)])
        g = doc['geometry']; nr, nz = g['grid']['radius'], g['grid']['longitude']; dr, dz = g['size']['radius'] / nr, g['size']['longitude'] / nz; dt = doc['time']['step']
        g['pml'].update(left_wall=0, right_wall=0, outer_wall=0)
        ps = [dict(component='%s/%s' % (f, q), schedule=1, shape='rec', start=dict(r=0, z=0), end=dict(r=nr, z=nz)) for f in 'EHJ' for q in ('r', 'phi', 'z')]
        doc['data']['probes'] = ps
        d = c.mkdir('loop'); json.dump(doc, open(os.path.join(d, 'c.json'), 'w'))
        rc, out = c.run([exe, '-f', 'c.json'], 120, cwd=d, env={'OMP_WAIT_POLICY': 'passive'})
        rep = dict(config=doc); c.case(sig=('program', g['domains_amount']['radius'], g['domains_amount']['longitude'], n)); c.saw('program runs')
        if not c.ok(rc == 0, 'program:' + c.crash_key(out), 'run of the program ended with %s: %s' % (rc, out[-400:]), rep): continue
        h = json.load(open(os.path.join(d, 'out', 'data.h5')))['datasets']; shutil.rmtree(d)
        F = {p['component']: h[progs.probe_path(p)] for p in ps}
        nf = F['E/r']['dims'][0]
        if not c.ok(all(f['dims'] == [nf, nr, nz] for f in F.values()), 'program:extent', 'dimensions %s' % [f['dims'] for f in F.values()], rep): continue
        D = {p: f['data'] for p, f in F.items()}
        at = lambda p, t, i, j: D[p][(t * nr + i) * nz + j]
        big = {p: max((abs(x) for x in v), default=0) for p, v in D.items()}
        se = 1e-9 * (max(big[x] for x in ('E/r', 'E/phi', 'E/z')) + dt / EPS * (max(big[x] for x in ('J/r', 'J/phi', 'J/z')) + 4 * max(big[x] for x in ('H/r', 'H/phi', 'H/z')) / min(dr, dz))) + 1e-300
        sh = 1e-9 * (max(big[x] for x in ('H/r', 'H/phi', 'H/z')) + dt / MU * 4 * max(big[x] for x in ('E/r', 'E/phi', 'E/z')) / min(dr, dz)) + 1e-300
        moving = 0; wrong = None
        for t in range(1, nf):
            for i in range(nr - 1):
                for j in range(nz - 1):
                    if i and j:
                        H = lambda q, a=i, b=j: at('H/' + q, t - 1, a, b)
                        J = lambda q: at('J/' + q, t - 1, i, j)
                        curl = dict(r=-(H('phi') - H('phi', i, j - 1)) / dz, phi=(H('r') - H('r', i, j - 1)) / dz - (H('z') - H('z', i - 1)) / dr,
                                    z=(H('phi') - H('phi', i - 1)) / dr + (H('phi') + H('phi', i - 1)) / (2 * i * dr))
                        for q in curl:
                            v = at('E/' + q, t - 1, i, j) + dt / EPS * (curl[q] - J(q)); x = at('E/' + q, t, i, j)
                            if x: moving += 1
                            if not abs(x - v) <= se and not wrong: wrong = ('ampere', 'E/%s at %d,%d of frame %d is %.12g, fields and currents of the previous frame give %.12g (tolerance %.3g)' % (q, i, j, t, x, v, se))
                    E = lambda q, a=i, b=j: at('E/' + q, t, a, b)
                    curl = dict(r=(E('phi', i, j + 1) - E('phi')) / dz, phi=(E('z', i + 1) - E('z')) / dr - (E('r', i, j + 1) - E('r')) / dz,
                                z=-((E('phi', i + 1) + E('phi')) / (2 * dr * (i + .5)) + (E('phi', i + 1) - E('phi')) / dr))
                    for q in curl:
                        v = at('H/' + q, t - 1, i, j) + dt / MU * curl[q]; x = at('H/' + q, t, i, j)
                        if not abs(x - v) <= sh and not wrong: wrong = ('faraday', 'H/%s at %d,%d of frame %d is %.12g, electric field of this frame gives %.12g (tolerance %.3g)' % (q, i, j, t, x, v, sh))
        c.ok(wrong is None, 'program:' + (wrong or [''])[0], 'domains %s: %s' % (g['domains_amount'], (wrong or ['', ''])[1]), rep)
        c.saw('values of electric field in frames', moving); c.saw('program frames', nf)


def run(c):
    n = 320 if c.quick else 6000
    h = 'h_loop.cpp'
    vs = [('', dict(pml=False)), ('relativistic:', dict(pml=False, pusher='BORIS_RELATIVISTIC'))] if c.quick else \
         [('', dict(pml=False)), ('relativistic:', dict(pml=False, pusher='BORIS_RELATIVISTIC')), ('vay:', dict(pml=False, pusher='VAY')), ('hc:', dict(pml=False, pusher='HC'))]
    for p, v in vs: c.harness(h, n if not p else n // 3, v, san='fast', extra=('-fno-finite-math-only',), prefix=p, per=None if c.quick else 50)
    if not c.quick: c.harness(h, 400, dict(pml=False), san='asan', prefix='asan:', per=25)
    program(c)
    for k, m in (('nodes', 30000), ('nodes at domain edges', 10000), ('injecting steps', 300), ('particles at rest', 2000), ('oscillations', 20), ('warm plasmas', 15), ('relativistic:gauss worlds', 20),
                 ('values of electric field in frames', 5000), ('program frames', 40)): c.need(k, m)
