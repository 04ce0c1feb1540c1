"""(re)creates the planted bugs: python3 tools/mkseed.py [ID ...]; every bug is described by tools/bugs/<ID>.py"""
import sys, os, glob, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(path):
    g = {}; exec(open(path).read(), g)
    i = os.path.basename(path)[:-3]; d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run('git -C %s archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (os.environ.get('VERIF_REPO', '/repo'), t, t), shell=True, check=True)
        for f, old, new in g['EDITS']:
            p = os.path.join(t, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t, 'diff', '--no-color'], capture_output=True, text=True, check=True).stdout
    w = lambda n, s: open(os.path.join(d, n), 'w').write(s)
    w('patch.diff', diff)
    w('meta.json', json.dumps(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), indent=1) + '\n')
    w('demo.sh', '#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n' + g['SH'].strip('\n') + '\n'); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'CPP' in g: w('demo.cpp', g['CPP'].lstrip('\n'))
    if 'PY' in g: w('demo.py', g['PY'].lstrip('\n'))
    if g.get('KIT', True):
        shutil.copytree(os.path.join(V, 'shim'), os.path.join(d, 'shim'))
        for h in ('vh.hpp', 'vworld.hpp', 'vsmb.hpp', 'vtwin.hpp'): shutil.copy(os.path.join(V, 'harness', h), d)
    shutil.copy(os.path.join(V, 'tools/seedkit/kit.sh'), d)
    print('made', i)


for a in sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + '/tools/bugs/*.py')): make(os.path.join(V, 'tools/bugs', a + '.py'))
