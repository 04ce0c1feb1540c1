PROPERTY = 'P11'
NEEDS = 'several domains along the axis and a column probe exactly at the first column of a domain'
BREAKS = 'no domain feels responsible for such a column: its frames stay empty'
EDITS = [('src/outController.cpp', '''          || ( prb->shape == 1                    // condition for column
               && prb_size[3] >= domain_size[1]''', '''          || ( prb->shape == 1                    // condition for column
               && prb_size[3] > domain_size[1]''')]
SH = '''kit_init; kit_prog; cp "$HERE/demo.py" "$T"; cd "$T"; python3 demo.py'''
PY = r'''
import json, subprocess, sys
n, d = 16, 1e-3; dt = d / 3e8 * .4
probes = [dict(component='density', specie='electrons', shape='rec', schedule=1, start=dict(r=0, z=0), end=dict(r=n, z=n))] + [dict(component='density', specie='electrons', shape='col', schedule=1, z=z) for z in (0, 5, 8, 9)]
doc = dict(macro_amount=2000, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
           geometry=dict(size=dict(radius=n * d, longitude=n * d), grid=dict(radius=n, longitude=n), domains_amount=dict(radius=2, longitude=2), pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=0, sigma_2=0)),
           time=dict(start=0, end=1.5 * dt, step=dt), external_fields=dict(electric=dict(formfactor='none', params=[0]), magnetic=dict(formfactor='none', params=[0])),
           particles=[dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)], beams=[],
           data=dict(data_root='out', compression=dict(use=False, level=1), probes=probes, plot={}))
json.dump(doc, open('c.json', 'w')); subprocess.run(['./prog', '-f', 'c.json'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
ds = {k.strip('/'): v['data'] for k, v in json.load(open('out/data.h5'))['datasets'].items()}
rec = [v for k, v in ds.items() if '/rec/' in k][0]; bad = 0
for z in (0, 5, 8, 9):
    a = [v for k, v in ds.items() if k.endswith('/col/%d' % z)][0][:n]; b = [rec[i * n + z] for i in range(n)]
    if a != b: bad = 1; print('column', z, a[:4], b[:4])
sys.exit(bad)
'''
