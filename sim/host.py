"""Fresh "process images" of ruleskit, built from /repo's working tree, wired to the simulator's seams.

Every run gets its own copies of all ruleskit modules (the code objects are compiled once per worker process from the
source files). Inside an image, `random`, `time`, `psutil` and `threading` are per-actor stand-ins; everything else
(numpy, pandas, bitarray, sklearn, pathlib, json, csv) is the real library running on the simulated file system.
"""
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import random as real_random
import sys
import tempfile
import threading as real_threading
import time as real_time
import types

from . import fs as simfs
from .kernel import CoopLock, Kernel

REPO = os.environ.get("RULESKIT_REPO", "/repo")
PKG = os.path.join(REPO, "ruleskit")
TMP = simfs.ROOT + "/tmp"

_code_cache = {}


class World:
    """What the stand-ins talk to. One per process: the current kernel."""
    kernel = None
    np_hook = None


def K():
    return World.kernel


# -- stand-in modules ---------------------------------------------------------------------------------------------
class SimRandom(real_random.Random):
    """Mersenne twister with a switchable range: narrow=m makes every draw one of m values (names collide)."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, seed, narrow=0):
        self.narrow = narrow
        self.draws = 0
        super().__init__(seed)

    def getrandbits(self, k):
        self.draws += 1
        v = super().getrandbits(k)
        return v % self.narrow if self.narrow else v

    def random(self):
        self.draws += 1
        v = super().random()
        return (int(v * self.narrow) / self.narrow) if self.narrow else v


def make_random(rng):
    m = types.ModuleType("random")
    m.__dict__.update({k: v for k, v in real_random.__dict__.items() if not k.startswith("__")})
    for n in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle",
              "choices", "getrandbits", "randbytes", "gauss", "getstate", "setstate", "normalvariate"):
        setattr(m, n, getattr(rng, n))
    m.SystemRandom = lambda *a: rng
    m._inst = rng
    return m


def make_time():
    m = types.ModuleType("time")
    m.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith("__")})
    t = lambda: K().time()
    m.time = m.perf_counter = m.monotonic = m.process_time = m.thread_time = t
    m.time_ns = m.perf_counter_ns = m.monotonic_ns = m.process_time_ns = lambda: int(K().time() * 1e9)
    m.sleep = lambda s: K().sleep(s)
    return m


class MemScript:
    """Reported memory: first question of an operation answers `avail`, later ones `avail - drop`; with `cycle` every
    other question does."""

    def __init__(self):
        self.set()

    def set(self, avail=16e9, drop=0, cycle=False):
        self.avail, self.drop, self.cycle, self.calls = avail, drop, cycle, 0

    def read(self):
        v = self.avail if self.calls == 0 or self.cycle and self.calls % 2 == 0 else self.avail - self.drop
        self.calls += 1
        return types.SimpleNamespace(total=32e9, available=max(v, 0), percent=50.0, used=16e9, free=max(v, 0))


def make_psutil(mem):
    import psutil as real
    m = types.ModuleType("psutil")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
    m.virtual_memory = mem.read
    return m


def make_threading():
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in real_threading.__dict__.items() if not k.startswith("__")})
    m.Lock = lambda: CoopLock(K)
    m.RLock = lambda: CoopLock(K, True)
    return m


# -- images --------------------------------------------------------------------------------------------------------
def _sources():
    out = {}
    for d, dirs, files in os.walk(PKG):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)[:-3].split(os.sep)
                pkg = rel[-1] == "__init__"
                out[".".join(rel[:-1] if pkg else rel)] = (p, pkg)
    return out


def warm():
    """Compile everything and import the heavy third party libraries once."""
    if _code_cache:
        return
    for name, (p, pkg) in _sources().items():
        with simfs.Mount.real_open(p, "rb") if simfs.Mount.installed else open(p, "rb") as f:
            src = f.read()
        _code_cache[name] = (compile(src, p, "exec"), p, pkg)


class _Loader(importlib.abc.Loader):
    def __init__(self, image, name):
        self.image, self.name = image, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path, pkg = _code_cache[self.name]
        module.__file__ = path
        module.__dict__["__builtins__"] = self.image.builtins
        if self.name.endswith("._version"):
            # stub: versioneer's module runs git
            module.get_versions = lambda: {"version": "0+sim", "full-revisionid": None, "dirty": False, "error": None}
            return
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    current = None

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != "ruleskit" or fullname not in _code_cache:
            return None
        code, p, pkg = _code_cache[fullname]
        spec = importlib.util.spec_from_loader(fullname, _Loader(_Finder.current, fullname), is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


_finder = _Finder()


class Image:
    def __init__(self, rng_seed=0, narrow=0, rng=None):
        self.rng = rng or SimRandom(rng_seed, narrow)
        self.mem = MemScript()
        self.stand_ins = {"random": make_random(self.rng), "time": make_time(), "psutil": make_psutil(self.mem),
                          "threading": make_threading()}
        self.modules = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        self._import("ruleskit")
        self.pkg = self.modules["ruleskit"]
        self.Activation = self.pkg.activation.Activation

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in self.stand_ins:
                return self.stand_ins[name]
            if name.split(".")[0] != "ruleskit":
                return builtins.__import__(name, globals, locals, fromlist, level)
        if _Finder.current is self:  # nested import while this image is being loaded
            return builtins.__import__(name, globals, locals, fromlist, level)
        saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "ruleskit"}
        prev = _Finder.current
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self.modules)
        _Finder.current = self
        try:
            return builtins.__import__(name, globals, locals, fromlist, level)
        finally:
            self.modules.update({k: v for k, v in sys.modules.items() if k.split(".")[0] == "ruleskit"})
            for k in self.modules:
                sys.modules.pop(k, None)
            sys.modules.update(saved)
            _Finder.current = prev

    def seed(self, s):
        self.rng.seed(s)


def _from_ruleskit(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").split(".")[0] == "ruleskit"


def _patch_numpy():
    import numpy as np

    def wrap(name):
        rf = getattr(np, name)

        def f(*a, **k):
            hook = World.np_hook
            if hook is not None and _from_ruleskit():
                hook(name, a)
            return rf(*a, **k)

        f.__name__ = name
        setattr(np, name, f)

    for n in ("vstack", "stack", "concatenate", "column_stack", "hstack", "row_stack"):
        wrap(n)


_ready = False


def setup():
    """Once per worker process."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy, pandas, bitarray, psutil, sklearn.tree  # noqa
    import pandas.io.formats.csvs, pandas.io.parsers  # noqa
    warnings.simplefilter("ignore")
    simfs.install()
    sys.meta_path.insert(0, _finder)
    tempfile.tempdir = TMP
    warm()
    _patch_numpy()
    os.getpid = lambda: 4000 + (K().cur if K() is not None else 0) if getattr(simfs.Mount.guest, "on", False) \
        else simfs.Mount.real["getpid"]()

    def urandom(n):
        if getattr(simfs.Mount.guest, "on", False) and World.urandom is not None:
            return World.urandom.randbytes(n)
        return simfs.Mount.real["urandom"](n)

    World.urandom = None
    os.urandom = urandom


def boot(**kw):
    """New simulated machine: empty disk with a temporary directory."""
    k = Kernel(**kw)
    World.kernel = k
    World.np_hook = None
    World.urandom = real_random.Random(12345)
    simfs.mount(k.fs)
    k.fs.mkdirs(TMP)
    simfs.Mount.escaped.clear()
    return k


class guest:
    """Marks the calling thread as running code under test (its writes outside /simfs are refused)."""

    def __enter__(self):
        self.prev = getattr(simfs.Mount.guest, "on", False)
        simfs.Mount.guest.on = True

    def __exit__(self, *a):
        simfs.Mount.guest.on = self.prev
        return False
