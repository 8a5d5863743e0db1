"""Seams onto files, clocks and randomness. Everything is inert outside of a simulated job."""
import builtins
import ctypes
import io
import os
import random
import subprocess
import sys
import tempfile

from sim.kernel import Kernel, current_task

CLASSES = ('open_w', 'open_r', 'write', 'read', 'close_w', 'fsync', 'mkdir', 'unlink', 'rename', 'truncate')
ACTIONS = {'fail': 1, 'short': 2, 'kill': 3, 'torn_kill': 4, 'partial_fail': 5}
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM_DIR = os.environ.get('OCGIS_DST_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
SHIM = os.path.join(SHIM_DIR, 'shim.so')
lib = None


def build_shim():
    src = os.path.join(HERE, 'shim.c')
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return SHIM
    os.makedirs(SHIM_DIR, exist_ok=True)
    tmp = SHIM + '.{}'.format(os.getpid())
    subprocess.check_call(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', tmp, src, '-ldl'])
    os.rename(tmp, SHIM)
    return SHIM


def load():
    global lib
    if SHIM not in os.environ.get('LD_PRELOAD', ''):
        raise RuntimeError('storage shim not preloaded')
    lib = ctypes.CDLL(SHIM)
    lib.dst_reset.argtypes = [ctypes.c_char_p]
    lib.dst_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_char_p]
    lib.dst_count.restype = ctypes.c_long
    lib.dst_fired.restype = ctypes.c_long
    lib.dst_fired_path.restype = ctypes.c_char_p
    lib.dst_digest.restype = ctypes.c_ulonglong
    lib.dst_clock.argtypes = [ctypes.c_int, ctypes.c_longlong]
    lib.dst_open_path.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    return lib


class Storage(object):
    """Fault plans on the storage below ``root``."""

    def __init__(self, root):
        self.root = root
        lib.dst_reset((root.rstrip('/') + '/').encode())
        self.plans = []

    def arm(self, cls, nth, action, err=28, count=1, filt=None):
        i = lib.dst_arm(CLASSES.index(cls), nth, ACTIONS[action], err, count, filt.encode() if filt else None)
        self.plans.append((i, '{}:{}:{}'.format(cls, action, err)))
        return i

    def disarm(self):
        out = self.fired()
        lib.dst_disarm()
        self.plans = []
        return out

    def fired(self):
        out = {}
        for i, name in self.plans:
            n = lib.dst_fired(i)
            if n:
                out[name] = out.get(name, 0) + n
        return out

    def fired_path(self):
        return lib.dst_fired_path().decode()[len(self.root):].lstrip('/')

    def counts(self):
        return {c: lib.dst_count(i) for i, c in enumerate(CLASSES)}

    def digest(self):
        return '{:016x}'.format(lib.dst_digest())

    def rearm_reset(self):
        lib.dst_reset((self.root.rstrip('/') + '/').encode())
        self.plans = []

    def open_files(self, only_write=False):
        buf = ctypes.create_string_buffer(4096)
        out = []
        i = 0
        while True:
            fd = lib.dst_open_path(i, buf, 4096)
            if fd < 0:
                break
            out.append((fd, buf.value.decode()[len(self.root):]))
            i += 1
        return out


class paused(object):
    def __enter__(self):
        lib.dst_pause(1)

    def __exit__(self, *a):
        lib.dst_pause(0)


def set_clock(ns):
    lib.dst_clock(1, ns)


def real_clock():
    lib.dst_clock(0, 0)


# -- scheduling points at file operations ------------------------------------------------------------------------------

state = {'root': None, 'io_yield': True, 'nc_open': {}, 'lock_model': True, 'log': None, 'text_buffer': 8192, 'lib_failed': set(), 'nc_log': None}


def _rel(path):
    if isinstance(path, bytes):
        path = path.decode('utf8', 'replace')
    if not isinstance(path, str):
        return None
    root = state['root']
    if root and path.startswith(root):
        return path[len(root):]
    return None


_AUDIT = {'open': 0, 'os.mkdir': 0, 'os.remove': 0, 'os.rmdir': 0, 'os.rename': 0, 'os.listdir': 0,
          'shutil.rmtree': 0}


def _audit(event, args):
    if event not in _AUDIT or state['root'] is None:
        return
    t = current_task()
    if t is None or not state['io_yield']:
        return
    rel = _rel(args[0]) if args else None
    if rel is None:
        return
    if event == 'open' and isinstance(args[1], str):
        Kernel.active.event('{} {} {}'.format(event, rel, args[1]))
    else:
        Kernel.active.event('{} {}'.format(event, rel))
    Kernel.active.yield_(event)


LIB = ('nc_open', 'nc_close', 'nc_read', 'nc_write', 'nc_attr', 'nc_define', 'nc_sync', 'vector_open', 'vector_write', 'vector_close',
       'multi_open')
lib_counts = {}
lib_plan = {'call': None, 'nth': 0, 'fired': 0, 'path': ''}


def lib_arm(call=None, nth=0):
    lib_counts.clear()
    lib_plan.update(call=call, nth=nth, fired=0, path='')


def lib_point(call, rel=''):
    """A call into a file library; true if it is to report an error."""
    if rel is None:
        return False
    n = lib_counts.get(call, 0)
    lib_counts[call] = n + 1
    if lib_plan['call'] == call and lib_plan['nth'] == n:
        lib_plan['fired'] += 1
        lib_plan['path'] = rel
        return True
    return False


class _Variable(object):
    """A netCDF variable whose reads and writes may report an error."""

    __slots__ = ('_v', '_rel', '__weakref__')

    def __init__(self, v, rel):
        object.__setattr__(self, '_v', v)
        object.__setattr__(self, '_rel', rel)

    def _point(self, call):
        if current_task() is not None and lib_point(call, self._rel):
            raise RuntimeError('NetCDF: injected HDF error')

    def __getattr__(self, name):
        return getattr(self._v, name)

    def __setattr__(self, name, value):
        self._point('nc_define')
        setattr(self._v, name, value)

    def __getitem__(self, k):
        self._point('nc_read')
        return self._v[k]

    def __setitem__(self, k, value):
        self._point('nc_write')
        if state['nc_log'] is not None:
            state['nc_log'].append(('set', self._v.name, k, self._rel))
        self._v[k] = value

    def __len__(self):
        return len(self._v)

    def __array__(self, *args, **kwargs):
        import numpy as np
        return np.asarray(self[...], *args)

    def __repr__(self):
        return repr(self._v)

    def ncattrs(self):
        self._point('nc_attr')
        return self._v.ncattrs()

    def getncattr(self, *args, **kwargs):
        self._point('nc_attr')
        return self._v.getncattr(*args, **kwargs)

    def setncattr(self, *args, **kwargs):
        self._point('nc_define')
        return self._v.setncattr(*args, **kwargs)


def _own_view(path):
    """A copy of a file outside of the simulated storage."""
    was, state['io_yield'] = state['io_yield'], False
    try:
        with paused():
            fd, own = tempfile.mkstemp(dir=os.path.dirname(state['root'].rstrip('/')))
            with os.fdopen(fd, 'wb') as o:
                src = os.open(path, os.O_RDONLY)
                while True:
                    b = os.read(src, 1 << 20)
                    if not b:
                        break
                    o.write(b)
                os.close(src)
    finally:
        state['io_yield'] = was
    return own


_installed = False


def install():
    """Patch third-party libraries (never ocgis itself)."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_audit)
    _install_open()
    import netCDF4
    RealDataset = netCDF4.Dataset

    class _Meta(type):
        # Groups derive from the real class.
        def __instancecheck__(cls, x):
            return isinstance(x, RealDataset)

    class _MetaMF(type):
        def __instancecheck__(cls, x):
            return isinstance(x, RealMF)

    class Dataset(RealDataset, metaclass=_Meta):
        """netCDF4.Dataset whose open and close are scheduling points, with HDF5's file locking between processes."""

        def __init__(self, filename, mode='r', *args, **kwargs):
            rel = _rel(filename)
            t = current_task()
            if rel is None or t is None:
                RealDataset.__init__(self, filename, mode, *args, **kwargs)
                return
            k = Kernel.active
            k.event('nc open {} {}'.format(rel, mode))
            k.yield_('nc open')
            key = (id(k), rel)
            holders = state['nc_open'].setdefault(key, {})
            if state['lock_model'] and len(k.tasks) > 1:
                for (r, m, vlen) in holders.values():
                    if r != t.rank and (m != 'r' or mode != 'r'):
                        k.event('nc lock conflict {}'.format(rel))
                        raise OSError(11, 'Resource temporarily unavailable (file locked by rank {})'.format(r), rel)
            if lib_point('nc_open', rel):
                raise OSError(5, 'injected: cannot open', rel)
            try:
                if mode == 'r' and any(vlen and r != t.rank for (r, m, vlen) in holders.values()):
                    # The library crashes for ragged types in a file opened twice by one process. Ranks are processes.
                    own = _own_view(filename)
                    try:
                        RealDataset.__init__(self, own, mode, *args, **kwargs)
                    finally:
                        os.remove(own)
                else:
                    RealDataset.__init__(self, filename, mode, *args, **kwargs)
            except Exception:
                # The library does not always release what it had opened.
                state['lib_failed'].add(rel)
                raise
            holders[id(self)] = (t.rank, mode, bool(self.vltypes) or any(v.dtype is str for v in self.variables.values()))
            if state['nc_log'] is not None:
                state['nc_log'].append(('open', mode, rel))
            _live[id(self)] = (key, rel)
            for name, v in list(self.variables.items()):
                self.variables[name] = _Variable(v, rel)
            k.yield_('nc opened')

        def _point(self, call):
            ent = _live.get(id(self))
            if ent is not None and current_task() is not None and lib_point(call, ent[1]):
                raise RuntimeError('NetCDF: injected HDF error')

        def ncattrs(self):
            self._point('nc_attr')
            return RealDataset.ncattrs(self)

        def getncattr(self, *args, **kwargs):
            self._point('nc_attr')
            return RealDataset.getncattr(self, *args, **kwargs)

        def setncattr(self, *args, **kwargs):
            self._point('nc_define')
            return RealDataset.setncattr(self, *args, **kwargs)

        def createDimension(self, *args, **kwargs):
            self._point('nc_define')
            return RealDataset.createDimension(self, *args, **kwargs)

        def createVariable(self, varname, *args, **kwargs):
            self._point('nc_define')
            v = RealDataset.createVariable(self, varname, *args, **kwargs)
            ent = _live.get(id(self))
            if ent is not None and varname in self.variables:
                v = self.variables[varname] = _Variable(v, ent[1])
            return v

        def sync(self):
            self._point('nc_sync')
            return RealDataset.sync(self)

        def close(self):
            ent = _live.pop(id(self), None)
            t = current_task()
            if ent is not None and t is not None:
                Kernel.active.yield_('nc close')
            try:
                ret = RealDataset.close(self)
                if ent is not None and lib_point('nc_close', ent[1]):
                    raise RuntimeError('NetCDF: injected error while closing')
                return ret
            except Exception:
                if ent is not None:
                    state['lib_failed'].add(ent[1])
                    # The library would close again, and crash, when the object is deleted.
                    self._isopen = 0
                raise
            finally:
                if ent is not None:
                    state['nc_open'].get(ent[0], {}).pop(id(self), None)
                    if t is not None:
                        Kernel.active.event('nc closed {}'.format(ent[1]))
                        Kernel.active.yield_('nc closed')

        def __dealloc_seam__(self):
            ent = _live.pop(id(self), None)
            if ent is not None:
                state['nc_open'].get(ent[0], {}).pop(id(self), None)

        def __del__(self):
            self.__dealloc_seam__()

        def __enter__(self):
            return self

        def __exit__(self, a, b, c):
            self.close()

    Dataset.__module__ = 'netCDF4._netCDF4'
    Dataset.__qualname__ = Dataset.__name__ = 'Dataset'
    netCDF4.Dataset = Dataset
    RealMF = netCDF4.MFDataset

    class MFDataset(RealMF, metaclass=_MetaMF):
        def __init__(self, files, *args, **kwargs):
            rels = [_rel(f) for f in ([files] if isinstance(files, str) else files)]
            on = current_task() is not None
            try:
                if on and lib_point('multi_open', rels[0]):
                    raise OSError(5, 'injected: cannot open', rels[0])
                RealMF.__init__(self, files, *args, **kwargs)
            except Exception:
                if on:
                    state['lib_failed'].update(r for r in rels if r is not None)
                raise

    MFDataset.__module__ = 'netCDF4._netCDF4'
    MFDataset.__qualname__ = MFDataset.__name__ = 'MFDataset'
    netCDF4.MFDataset = MFDataset
    state['RealDataset'] = RealDataset

    import fiona
    import fiona.collection  # noqa
    fc = sys.modules["fiona.collection"]
    real_open = fiona.open

    def fopen(fp, mode='r', *a, **kw):
        rel = _rel(fp) if isinstance(fp, str) else None
        if rel is not None and current_task() is not None:
            Kernel.active.event('fiona open {} {}'.format(rel, mode))
            Kernel.active.yield_('fiona open')
            if lib_point('vector_open', rel):
                raise fiona.errors.DriverError('injected: cannot open')
        ret = real_open(fp, mode, *a, **kw)
        if rel is not None and current_task() is not None:
            Kernel.active.yield_('fiona opened')
        return ret

    fiona.open = fopen
    real_wr = fc.Collection.writerecords
    real_cl = fc.Collection.close

    def writerecords(self, records):
        if current_task() is not None:
            Kernel.active.yield_('fiona write')
            if lib_point('vector_write', _rel(self.path)):
                raise RuntimeError('injected: cannot write record')
        return real_wr(self, records)

    def close(self):
        if current_task() is not None and not self.closed:
            Kernel.active.yield_('fiona close')
            was = current_task() is not None and not self.closed
        else:
            was = False
        ret = real_cl(self)
        if was and lib_point('vector_close', _rel(self.path)):
            raise RuntimeError('injected: error while closing')
        return ret

    fc.Collection.writerecords = writerecords
    fc.Collection.close = close


_live = {}


class _YieldingFile(io.FileIO):
    def write(self, b):
        on = current_task() is not None and not self.closed
        if on:
            Kernel.active.yield_('file write')
        n = io.FileIO.write(self, b)
        if on:
            Kernel.active.yield_('file written')
        return n


def _install_open():
    """Text files the ranks write: every transfer to the operating system is a scheduling point; the buffer size (which no
    program may rely on) is drawn."""
    real = builtins.open

    def opener(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if buffering == -1 and opener is None and 'b' not in mode and ('w' in mode or 'a' in mode) and '+' not in mode \
                and state['root'] is not None and isinstance(file, str) and current_task() is not None \
                and _rel(os.path.abspath(file)) is not None and state['io_yield']:
            raw = _YieldingFile(file, mode.replace('t', ''))
            n = state['text_buffer']
            ret = io.TextIOWrapper(io.BufferedWriter(raw, n), encoding, errors, newline)
            ret._CHUNK_SIZE = n
            ret.mode = mode
            return ret
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = opener


def seed_everything(seed):
    import numpy as np
    import tempfile
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))

    class _Names(object):
        def __init__(self):
            self.r = random.Random(seed)

        def __iter__(self):
            return self

        def __next__(self):
            return ''.join(self.r.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))

    tempfile._name_sequence = _Names()
