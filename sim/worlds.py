"""One freshly imported copy of the ocgis package per simulated rank.

An MPI job is one process per rank; module globals (communicator, ``env``, loggers, class registries) are per process.
Here every rank is a thread with its own copy of every ``ocgis`` module (and of ``logging``, whose root logger ocgis
configures), swapped into ``sys.modules`` whenever the kernel lets that rank run.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from sim import simmpi

REPO_SRC = os.path.join(os.environ.get('OCGIS_DST_REPO', '/repo'), 'src')
_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _code_cache.get(self.path)
        if c is None:
            with open(self.path, 'rb') as f:
                c = compile(f.read(), self.path, 'exec', dont_inherit=True)
            _code_cache[self.path] = c
        return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'ocgis' and not fullname.startswith('ocgis.'):
            return None
        rel = os.path.join(REPO_SRC, *fullname.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(fullname, init, loader=_Loader(fullname, init),
                                                          submodule_search_locations=[rel])
        f = rel + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


sys.meta_path.insert(0, _Finder())


def _mine(name):
    return (name == 'ocgis' or name.startswith('ocgis.') or name == 'mpi4py' or name.startswith('mpi4py.') or
            name == 'logging' or name.startswith('logging.'))


class World(object):
    active = None

    def __init__(self, rank, size):
        self.rank = rank
        self.size = size
        self.mods = {}
        prev = World.active
        if prev is not None:
            prev.deactivate()
        stash = {k: v for k, v in sys.modules.items() if _mine(k)}
        for k in stash:
            del sys.modules[k]
        for k, v in simmpi.make_mpi4py(rank, size).items():
            sys.modules[k] = v
        import logging  # noqa: a fresh copy
        importlib.import_module('ocgis')
        for extra in ('ocgis.ocli', 'ocgis.spatial.grid_chunker', 'ocgis.util.large_array', 'ocgis.calc.tile',
                      'ocgis.calc.library.register'):
            try:
                importlib.import_module(extra)
            except ImportError:
                pass
        self.mods = {k: v for k, v in sys.modules.items() if _mine(k)}
        for k in list(self.mods):
            del sys.modules[k]
        sys.modules.update(stash)
        World.active = None
        if prev is not None:
            prev.activate()
        self.ocgis = self.mods['ocgis']

    def activate(self):
        if World.active is self:
            return
        if World.active is not None:
            World.active.deactivate()
        for k in [k for k in sys.modules if _mine(k)]:
            del sys.modules[k]
        sys.modules.update(self.mods)
        World.active = self

    def deactivate(self):
        self.mods = {k: v for k, v in sys.modules.items() if _mine(k)}
        World.active = None

    def mod(self, name):
        return self.mods[name] if name in self.mods else importlib.import_module(name)


_worlds = {}


def get_worlds(size):
    if size not in _worlds:
        _worlds[size] = [World(r, size) for r in range(size)]
    return _worlds[size]
