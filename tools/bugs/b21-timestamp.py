PROPERTY = 'P19'
NEEDS = 'a timestamp whose quotient by the step is not a whole number in floating point (like the 3rd frame of the step 1e-12)'
BREAKS = 'the frame number of a timestamp is truncated instead of rounded: the frame before is returned'
EDITS = [('lib/python/picopic/meta_reader.py', 'number_frames = round(timestamp / self.time[2] / dump_interval)', 'number_frames = int(timestamp / self.time[2] / dump_interval)')]
SH = '''python3 "$HERE/demo.py" "$PWD"'''
PY = r'''
import sys, importlib.util
sys.dont_write_bytecode = True
s = importlib.util.spec_from_file_location('meta_reader', sys.argv[1] + '/lib/python/picopic/meta_reader.py'); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
r = object.__new__(m.MetaReader); bad = 0
for step in (1e-12, 7e-13, 3e-11):
    r.time = [0, 1e-9, step]
    for n in range(200):
        for every in (1, 3, 7):
            if r.get_frame_number_by_timestamp(r.get_timestamp_by_frame_number(n, every), every) != n: bad += 1
print(bad, 'wrong frames'); sys.exit(1 if bad else 0)
'''
