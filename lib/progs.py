"""configuration documents for whole-program runs"""
import json, os


def probe_path(p):
    s = '/' + p['component'] + '/' + (p['specie'] + '/' if p['component'][0].islower() else '') + p['shape'] + '/'
    if p['shape'] == 'rec': return s + '%d-%d_%d-%d' % (p['start']['r'], p['end']['r'], p['start']['z'], p['end']['z'])
    return s + {'col': lambda: str(p['z']), 'row': lambda: str(p['r']), 'dot': lambda: '%d_%d' % (p['r'], p['z'])}[p['shape']]()


def probe_dims(p, nr, nz):
    if p['shape'] == 'rec': return [p['end']['r'] - p['start']['r'], p['end']['z'] - p['start']['z']]
    return {'col': [nr], 'row': [nz], 'dot': [1]}[p['shape']]


def random_probe(rnd, nr, nz, species, components=None):
    comp = rnd.choice(components or ['E/r', 'E/phi', 'E/z', 'H/r', 'H/phi', 'H/z', 'J/r', 'J/phi', 'J/z', 'density', 'temperature', 'energy', 'momentum/r', 'momentum/phi', 'momentum/z'])
    p = dict(component=comp, schedule=rnd.randrange(1, 6), shape=rnd.choice(['rec', 'col', 'row', 'dot']), specie=rnd.choice(species))
    if p['shape'] == 'rec':
        a, b = sorted(rnd.sample(range(nr + 1), 2)); e, f = sorted(rnd.sample(range(nz + 1), 2))
        p.update(start=dict(r=a, z=e), end=dict(r=b, z=f))
    if p['shape'] in ('col', 'dot'): p['z'] = rnd.randrange(nz)
    if p['shape'] in ('row', 'dot'): p['r'] = rnd.randrange(nr)
    return p


def random_config(rnd, steps=None, probes=5, splits=None, pml=False, beams=False, external=False, macro=(300, 1500), first_probe=False, log='/dev/null'):
    """a document, and a description of what it asks for"""
    rd, zd = rnd.choice(splits or [(1, 1), (1, 2), (2, 1), (2, 2), (4, 2), (2, 4)])
    nr, nz = max(8, rd * 4) + rnd.randrange(8), max(8, zd * 4) + rnd.randrange(8)
    cell = 10 ** rnd.uniform(-5, -3)
    dt = cell / 3e8 * rnd.uniform(.2, .6)
    n = steps or rnd.randrange(1, 30)
    species = [dict(name='electrons', charge=-1, mass=1, density=10 ** rnd.uniform(12, 17), temperature=10 ** rnd.uniform(-1, 2)), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)]
    if rnd.random() < .3: species.append(dict(name='positrons', charge=1, mass=1, density=1e14, temperature=1))
    bms = []
    if beams:
        for b in range(rnd.randrange(1, 3)):
            v = rnd.uniform(.2, .95) * 3e8; l = v * dt * rnd.uniform(2, 6)
            bms.append(dict(name='b%d' % b, charge=-1, mass=1, velocity=v, start_time=dt * rnd.uniform(0, 5), bunch=dict(amount=rnd.randrange(1, 4), distance=v * dt * rnd.uniform(3, 6), length=l, radius=cell * nr * rnd.uniform(.1, .7), density=1e14, profile=dict(radial='rectangle', longitudinal='rectangle'))))
    names = [s['name'] for s in species] + ['beam_' + b['name'] for b in bms]
    ps, seen = [], set()
    if first_probe:
        p = dict(component='E/z', schedule=1, shape='rec', start=dict(r=0, z=0), end=dict(r=nr, z=nz)); ps.append(p); seen.add(probe_path(p))
    for _ in range(probes):
        p = random_probe(rnd, nr, nz, names)
        if probe_path(p) not in seen: seen.add(probe_path(p)); ps.append(p)
    w = (lambda: rnd.choice([0, 0, .1, .25])) if pml else (lambda: 0)
    s = 8.85e-12 / dt
    ext = dict(electric=dict(formfactor='none', params=[1]), magnetic=dict(formfactor='none', params=[1]))
    doc = dict(macro_amount=rnd.randrange(*macro), beam_plasma_macro_size_ratio=rnd.uniform(1, 4), log_file=log, comment='',
               geometry=dict(size=dict(radius=nr * cell, longitude=nz * cell), grid=dict(radius=nr, longitude=nz), domains_amount=dict(radius=rd, longitude=zd),
                             pml=dict(left_wall=w(), right_wall=w(), outer_wall=w(), sigma_1=s * .01, sigma_2=s * .2)),
               time=dict(start=0, end=(n - .5) * dt, step=dt), external_fields=ext, particles=species, beams=bms,
               data=dict(data_root='out', compression=dict(use=False, level=1), probes=ps, plot={}))
    return doc, dict(nr=nr, nz=nz, rd=rd, zd=zd, dt=dt, steps=n, probes=ps)


def write(d, doc, name='c.json'):
    with open(os.path.join(d, name), 'w') as f: json.dump(doc, f)


def data(d):
    with open(os.path.join(d, 'out', 'data.h5')) as f: return json.load(f)
