PROPERTY = 'P12'
NEEDS = 'two pauses (USR1, USR2, USR1) of one run'
BREAKS = 'the resume request is not consumed: the second pause ends at once without any request'
EDITS = [('src/PiCoPiC.cpp', '''          lock_.store(false, std::memory_order_relaxed);
          recreate_writers_.store(false, std::memory_order_relaxed);''', '''          lock_.store(false, std::memory_order_relaxed);''')]
SH = '''kit_init; kit_prog; cp "$HERE/demo.py" "$T"; cd "$T"; python3 demo.py'''
PY = r'''
import json, subprocess, sys, time, signal, os
n, d = 16, 1e-3; dt = d / 3e8 * .4
doc = dict(macro_amount=2000, beam_plasma_macro_size_ratio=2, log_file='/dev/null', comment='',
           geometry=dict(size=dict(radius=n * d, longitude=n * d), grid=dict(radius=n, longitude=n), domains_amount=dict(radius=1, longitude=1), pml=dict(left_wall=0, right_wall=0, outer_wall=0, sigma_1=0, sigma_2=0)),
           time=dict(start=0, end=1e7 * dt, step=dt), external_fields=dict(electric=dict(formfactor='none', params=[0]), magnetic=dict(formfactor='none', params=[0])),
           particles=[dict(name='electrons', charge=-1, mass=1, density=1e15, temperature=1), dict(name='ions', charge=1, mass=1836, density=1e15, temperature=.1)], beams=[],
           data=dict(data_root='out', compression=dict(use=False, level=1), probes=[dict(component='E/z', shape='dot', schedule=1000000, r=1, z=1)], plot={}))
json.dump(doc, open('c.json', 'w')); p = subprocess.Popen(['./prog', '-f', 'c.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def busy():  # share of the processor used during half a second
    f = lambda: sum(map(int, open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split()[11:13]))
    a = f(); time.sleep(.5); return (f() - a) / 50.
def until(cond):
    for _ in range(40):
        if p.poll() is not None: print('ended'); sys.exit(1)
        if cond(busy()): return True
    return False
try:
    ok = until(lambda b: b > .2)
    for k in range(3):
        os.kill(p.pid, signal.SIGUSR1); ok = ok and until(lambda b: b < .05); time.sleep(2.5); b = busy(); print('pause', k, b)
        ok = ok and b < .05 and busy() < .05
        os.kill(p.pid, signal.SIGUSR2); ok = ok and until(lambda b: b > .2)
        if not ok: break
finally: p.kill()
sys.exit(0 if ok else 1)
'''
