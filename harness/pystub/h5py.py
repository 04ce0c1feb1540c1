"""Stand-in for h5py (not installed here), reading what the recording HDF5 shim
(shim/highfive/H5File.hpp) dumps; the calls behave as those of h5py."""
import json, os
import numpy

opened = closed = 0


class Dataset:
    def __init__(self, file, name, d):
        self.file, self.name = file, name
        self._a = numpy.array(d['data'], dtype='float64').reshape(d['dims'])

    def _arr(self):
        self.file._alive(); return self._a
    shape = property(lambda self: self._arr().shape)
    ndim = property(lambda self: self._arr().ndim)
    size = property(lambda self: self._arr().size)
    dtype = property(lambda self: self._arr().dtype)
    maxshape = property(lambda self: (None,) + self._arr().shape[1:])

    def __len__(self): return len(self._arr())
    def len(self): return len(self._arr())
    def __iter__(self): return iter(self._arr().copy())

    def __getitem__(self, k):
        a = self._arr()
        for x in (k if isinstance(k, tuple) else (k,)):
            if isinstance(x, str): raise ValueError('Field names only allowed for compound types')
        r = a[k]
        return r.copy() if isinstance(r, numpy.ndarray) else r

    def __array__(self, dtype=None, copy=None): return numpy.array(self._arr(), dtype=dtype)
    def read_direct(self, dest, source_sel=None, dest_sel=None):
        dest[dest_sel if dest_sel is not None else ...] = self._arr()[source_sel if source_sel is not None else ...]


class Group:
    def __init__(self, file, name): self.file, self.name = file, name.rstrip('/')

    def _names(self):
        self.file._alive(); n = len(self.name) + 1; p = self.name + '/'
        return sorted({x[n:].split('/')[0] for x in list(self.file._d['datasets']) + list(self.file._d['groups']) if x.startswith(p) and len(x) > n})
    def keys(self): return self._names()
    def values(self): return [self[k] for k in self._names()]
    def items(self): return [(k, self[k]) for k in self._names()]
    def __iter__(self): return iter(self._names())
    def __len__(self): return len(self._names())

    def _full(self, k): return (k if k.startswith('/') else self.name + '/' + k).rstrip('/')
    def __contains__(self, k):
        self.file._alive(); f = self._full(k)
        return f == '' or f in self.file._d['datasets'] or f in self.file._d['groups']

    def get(self, k, default=None): return self[k] if k in self else default

    def __getitem__(self, k):
        self.file._alive(); f = self._full(k)
        if f in self.file._d['datasets']:
            if f not in self.file._ds: self.file._ds[f] = Dataset(self.file, f, self.file._d['datasets'][f])
            return self.file._ds[f]
        if f == '': return self.file
        if f in self.file._d['groups'] or '/' + f.strip('/') in self.file._d['groups']: return Group(self.file, f)
        raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % k)

    @property
    def attrs(self):
        self.file._alive()
        if self.name == '': return {k: v for k, v in self.file._d['attrs'].items() if '@' not in k}
        return {k.split('@')[1]: v for k, v in self.file._d['attrs'].items() if k.startswith(self.name + '@')}


class File(Group):
    def __init__(self, name, mode='r', **kw):
        global opened
        if mode != 'r': raise OSError('the data file must be opened for reading only')
        self._open = False
        if not os.path.isfile(name): raise FileNotFoundError('Unable to synchronously open file (%s)' % name)
        with open(name) as f: self._d = json.load(f)
        self._ds, self._open, self.filename, self.mode = {}, True, name, mode
        opened += 1
        Group.__init__(self, self, '/')

    def _alive(self):
        if not self._open: raise ValueError('Invalid location identifier (file is closed)')
    def __bool__(self): return self._open

    def close(self):
        global closed
        if self._open: closed += 1
        self._open = False

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
