PROPERTY = 'P11'
NEEDS = 'two species, the name of one of which begins with the name of the other, and a density probe of the shorter name'
BREAKS = 'density of the wrong specie is refreshed: the probe gets the old one'
EDITS = [('src/outController.cpp', '''          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
            if (prb->specie.compare((**ps).name) == 0)
            {
              speciep = (*ps);
              specie_exists = true;
            }

          if (!specie_exists)
            continue; // skip if there is no specie for probe

          if (prb->component.compare("density") == 0)
            speciep->calc_density();''', '''          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
            if ((**ps).name.compare(0, prb->specie.size(), prb->specie) == 0)
            {
              speciep = (*ps);
              specie_exists = true;
            }

          if (!specie_exists)
            continue; // skip if there is no specie for probe

          if (prb->component.compare("density") == 0)
            speciep->calc_density();''')]
SH = '''kit_init; kit_prog; cp "$HERE/demo.py" "$T"; cd "$T"; python3 demo.py'''
PY = r'''
import json, subprocess, sys
n, d = 16, 1e-3; dt = d / 3e8 * .4; bad = 0
for names in (('ions', 'other'), ('ions', 'ions2'), ('ions2', 'ions')):
    sp = [dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1)] + [dict(name=x, charge=1, mass=1836, density=1e15, temperature=.1) for x in names]
    doc = dict(macro_amount=3000, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
               geometry=dict(size=dict(radius=n * d, longitude=n * d), grid=dict(radius=n, longitude=n), domains_amount=dict(radius=1, longitude=1), pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=0, sigma_2=0)),
               time=dict(start=0, end=1.5 * dt, step=dt), external_fields=dict(electric=dict(formfactor='none', params=[0]), magnetic=dict(formfactor='none', params=[0])), particles=sp, beams=[],
               data=dict(data_root='out_%s_%s' % names, compression=dict(use=False, level=1), probes=[dict(component='density', specie='ions', shape='rec', schedule=1, start=dict(r=0, z=0), end=dict(r=n, z=n))], plot={}))
    json.dump(doc, open('c.json', 'w')); subprocess.run(['./prog', '-f', 'c.json'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    v = [x['data'] for k, x in json.load(open('out_%s_%s/data.h5' % names))['datasets'].items() if 'rec' in k][0]; m = sum(v[:n * n]) / n / n; print(names, m)
    if not 2e14 < m < 5e15: bad = 1
sys.exit(bad)
'''
