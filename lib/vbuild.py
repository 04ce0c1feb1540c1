#!/usr/bin/env python3
"""Build helper: copies /repo's sources into a scratch build directory, drops in
a generated defines.hpp (the configure product) and compiles them, with the
shims in /verif/shim standing in for the git submodules that are not available."""
import hashlib, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

DEFAULT = dict(pusher='BORIS_ADAPTIVE', ccs='VB', spatial='FLAT', velocity='THERMAL',
               pml=True, hdf5=True, collisions=None, external=False, debug=False,
               ieee=False, singlethread=False, mpi=False)

SAN = {
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['-O2', '-g'],
    'o0': ['-O0', '-g'],
    'fast': ['-O3', '-g', '-ffast-math', '-freciprocal-math', '-march=x86-64-v3', '-funroll-loops'],
}


_cache, _lock = {}, threading.Lock()


class BuildError(Exception):
    pass


def defines(variant):
    v = dict(DEFAULT); v.update(variant or {})
    L = ['#ifndef _VERIF_DEFINES_', '#define _VERIF_DEFINES_']
    d = lambda k, x='true': L.append('#define %s %s' % (k, x))
    d('CXXFLAGS', '"-verif -flags"'); d('PACKAGE_NAME', '"PiCoPiC"'); d('PACKAGE_VERSION', '"verif1"')
    d('PACKAGE_STRING', '"PiCoPiC verif1"'); d('PACKAGE_TARNAME', '"picopic"'); d('PACKAGE_URL', '""')
    d('PACKAGE_BUGREPORT', '""'); d('PACKAGE_DEPS', '"gcc@6+;hdf5@1.12.0"')
    d('REL_LIMIT', '5e7')
    d('SWITCH_CCS_' + v['ccs']); d('SWITCH_MAXWELL_SOLVER_YEE')
    d('SWITCH_PLASMA_SPATIAL_' + v['spatial']); d('SWITCH_PLASMA_VELOCITY_' + v['velocity'])
    d('SWITCH_PUSHER_' + v['pusher'])
    if v['hdf5']: d('ENABLE_HDF5')
    if v['pml']: d('ENABLE_PML')
    if v['external']: d('ENABLE_EXTERNAL_FIELDS')
    if v['debug']: d('ENABLE_DEBUG')
    if v['ieee']: d('ENABLE_IEEE')
    if v['singlethread']: d('ENABLE_SINGLETHREAD')
    if v['mpi']: d('ENABLE_MPI')
    if v['collisions']:
        d('ENABLE_COULOMB_COLLISIONS'); d('SWITCH_COULOMB_COLLISIONS_' + v['collisions'])
    L.append('#endif')
    return '\n'.join(L) + '\n'


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Build:
    """One source tree + defines variant + sanitizer flavour."""

    def __init__(self, root, variant=None, san='plain', openmp=False, extra=(), hook=True):
        self.variant = variant or {}
        self.san = san
        key = hashlib.sha1(repr((sorted(self.variant.items()), san, openmp, tuple(extra))).encode()).hexdigest()[:10]
        self.dir = os.path.join(root, san + '-' + key)
        self.tree = os.path.join(self.dir, 'tree')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.tree)
        for sub in ('src', 'include'):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(self.tree, sub),
                            ignore=shutil.ignore_patterns('defines.hpp*', '*.o', '*.d'))
        with open(os.path.join(self.tree, 'include', 'defines.hpp'), 'w') as f:
            f.write(defines(self.variant))
        self.flags = ['-std=c++17', '-w', '-Wno-write-strings'] + SAN[san] + \
            (['-fopenmp'] if openmp else []) + list(extra) + \
            ['-I' + os.path.join(self.tree, 'include'), '-I' + os.path.join(VERIF, 'shim'),
             '-I' + os.path.join(VERIF, 'harness')]
        self.openmp = openmp

    def sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(self.tree, 'src')):
            out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
        return sorted(out)

    def _cc(self, src, obj, more=()):
        """compile; an object is shared between variants whose preprocessed source is the same"""
        flags = [f for f in self.flags if self.tree not in f]
        r = subprocess.run(['g++'] + self.flags + list(more) + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        cached = None
        if r.returncode == 0:
            key = hashlib.sha1(repr((flags, list(more))).encode() + r.stdout.replace(self.dir.encode(), b'@')).hexdigest()
            with _lock: ev = _cache.setdefault(key, [threading.Lock(), None])
            with ev[0]:
                if ev[1] and os.path.exists(ev[1]): return ev[1]
                self._cc1(src, obj, more); ev[1] = obj
                return obj
        return self._cc1(src, obj, more)

    def _cc1(self, src, obj, more=()):
        r = run(['g++'] + self.flags + list(more) + ['-c', src, '-o', obj])
        if r.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-6000:]))
        return obj

    def _some(self, subset):
        """objects of the sources under src/ whose relative path starts with one of `subset'"""
        od = os.path.join(self.dir, 'obj'); os.makedirs(od, exist_ok=True)
        root = os.path.join(self.tree, 'src')
        with ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(self._cc, s, os.path.join(od, os.path.relpath(s, self.tree).replace('/', '_')[:-4] + '.o'))
                    for s in self.sources() if os.path.relpath(s, root).startswith(tuple(subset))]
            return [j.result() for j in jobs]

    def objects(self):
        """compile all repo sources except main; main separately"""
        jobs = []
        od = os.path.join(self.dir, 'obj'); os.makedirs(od, exist_ok=True)
        self.main_obj = None
        with ThreadPoolExecutor(8) as ex:
            for s in self.sources():
                o = os.path.join(od, os.path.relpath(s, self.tree).replace('/', '_')[:-4] + '.o')
                if os.path.basename(s) == 'PiCoPiC.cpp':
                    self.main_obj = ex.submit(self._cc, s, o)
                else:
                    jobs.append(ex.submit(self._cc, s, o))
            self.objs = [j.result() for j in jobs]
            if self.main_obj: self.main_obj = self.main_obj.result()
        return self.objs

    def link(self, name, objs, extra=()):
        exe = os.path.join(self.dir, name)
        r = run(['g++'] + self.flags + objs + ['-o', exe, '-lpthread'] + list(extra))
        if r.returncode:
            raise BuildError('linking %s failed:\n%s' % (name, r.stdout[-6000:]))
        return exe

    def program(self, hooks=False, gomp=False):
        """the real picopic binary; `hooks': with harness/prog_hooks.cpp (signals at chosen points, reproducible random numbers);
        `gomp': on the OpenMP runtime of harness/gomp_shim.cpp"""
        more = [self._cc(os.path.join(VERIF, 'harness', x + '.cpp'), os.path.join(self.dir, x + '.o')) for x, on in (('prog_hooks', hooks), ('gomp_shim', gomp)) if on]
        if not hasattr(self, 'objs'): self.objects()
        return self.link('picopic' + '-hooks' * hooks + '-gomp' * gomp, self.objs + [self.main_obj] + more)

    def harness(self, src, more=(), subset=None):
        """a harness (in /verif/harness) linked with the repo's objects, without main;
        `subset': sources that normally suffice (everything is taken if they do not)"""
        name = os.path.basename(src)[:-4]
        if subset is not None and not hasattr(self, 'objs'):
            try:
                with ThreadPoolExecutor(1) as ex:
                    h = ex.submit(self._cc, os.path.join(VERIF, 'harness', src), os.path.join(self.dir, name + '.o'), more)
                    some = self._some(subset)
                    o = h.result()
                return self.link(name, [o] + some)
            except BuildError:
                pass
        with ThreadPoolExecutor(2) as ex:
            h = ex.submit(self._cc, os.path.join(VERIF, 'harness', src), os.path.join(self.dir, name + '.o'), more)
            if not hasattr(self, 'objs'): self.objects()
            o = h.result()
        return self.link(name, [o] + self.objs)


if __name__ == '__main__':
    b = Build('/tmp/vb_try', san=sys.argv[1] if len(sys.argv) > 1 else 'plain')
    print(b.program())
