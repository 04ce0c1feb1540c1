PROPERTY = 'P13'
NEEDS = 'a failure of the storage during the write of a dot probe'
BREAKS = 'the failure is only logged, the run goes on and reports success with a frame missing'
EDITS = [('src/outEngine/outEngineHDF5.cpp', '''    dataset.select({_num, 0}, {1, 1}).write( data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    LOG_S(FATAL) << "Can not write data''', '''    dataset.select({_num, 0}, {1, 1}).write( data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    LOG_S(ERROR) << "Can not write data''')]
SH = '''kit_init; kit_prog; cp "$HERE/demo.py" "$T"; cd "$T"; python3 demo.py'''
PY = r'''
import json, subprocess, sys, os, shutil
n, d = 8, 1e-3; dt = d / 3e8 * .4
doc = dict(macro_amount=500, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
           geometry=dict(size=dict(radius=n * d, longitude=n * d), grid=dict(radius=n, longitude=n), domains_amount=dict(radius=1, longitude=1), pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=0, sigma_2=0)),
           time=dict(start=0, end=4.5 * dt, step=dt), external_fields=dict(electric=dict(formfactor='none', params=[0]), magnetic=dict(formfactor='none', params=[0])),
           particles=[dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)], beams=[],
           data=dict(data_root='out', compression=dict(use=False, level=1), probes=[dict(component='E/z', shape='dot', schedule=1, r=1, z=1)], plot={}))
json.dump(doc, open('c.json', 'w')); bad = 0
def run(fail):
    shutil.rmtree('out', ignore_errors=True); r = subprocess.run(['./prog', '-f', 'c.json'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, **({'VSHIM_H5_FAIL': fail} if fail else {}))); return r.returncode, b'injected' in r.stderr
if run(None)[0] != 0: print('plain run fails'); sys.exit(0)
for k in range(1, 6):
    rc, hit = run('write:%d' % k)
    if hit and rc == 0: bad = 1; print('failure of write', k, 'is silent')
sys.exit(bad)
'''
