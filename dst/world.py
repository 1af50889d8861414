"""Per-process copies of the pylbm package and the entry point to run a simulated world."""
import functools
import importlib
import importlib.machinery
import importlib.util
import os
import sys

from . import fakempi
from .kernel import Choices, HarnessError, Outcome, Sim, current

REPO = os.environ.get("DST_REPO", "/repo")
PREFIXES = ("pylbm", "wrapped_module", "cerberus")
MAXRANKS = 8

_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Always compiles from the working tree's source, never from a .pyc, once per worker."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        c = _code_cache.get(path)
        if c is None:
            with _real_open(path, "rb") as f:
                src = f.read()
            c = _code_cache[path] = compile(src, path, "exec", dont_inherit=True)
        return c


_real_open = open


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "pylbm" and not name.startswith("pylbm."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def _mine(k):
    return k.startswith(PREFIXES)


_garbage = [0]


def _dirty(a):
    """Fresh memory holds what was there before: seeded values that are never twice the same."""
    import numpy as np
    kind = a.dtype.kind
    if kind in "fciub" and a.size:
        _garbage[0] += 1
        rng = np.random.Generator(np.random.PCG64(_garbage[0]))
        if kind in "fc":
            a[...] = rng.uniform(-2., 2., a.shape)
        else:
            a[...] = rng.integers(0, 2, a.shape)
    return a


def _install_dirty_memory():
    import numpy as np

    def wrap(real):
        @functools.wraps(real)
        def fresh(*args, **kw):
            a = real(*args, **kw)
            return _dirty(a) if sys._getframe(1).f_globals.get("__name__", "").startswith(PREFIXES) else a
        return fresh
    for name in ("empty", "empty_like"):
        setattr(np, name, wrap(getattr(np, name)))


class RankEnv:
    """The interpreter state that real processes do not share."""

    def __init__(self, base_path):
        self.modules = {}
        self.path = list(base_path)
        self.count = 0
        self.stdout = None
        self._saved_stdout = None

    def enter(self):
        sys.modules.update(self.modules)
        sys.path[:] = self.path
        self.count = len(sys.modules)
        if self.stdout is not None:
            self._saved_stdout, sys.stdout = sys.stdout, self.stdout

    def leave(self):
        sm = sys.modules
        if len(sm) == self.count and all(k in sm for k in self.modules):
            self.modules = {k: sm.pop(k) for k in self.modules}
        else:
            self.modules = {k: sm.pop(k) for k in [k for k in sm if _mine(k)]}
        self.path = list(sys.path)
        if self._saved_stdout is not None:
            sys.stdout, self._saved_stdout = self._saved_stdout, None

    @property
    def pylbm(self):
        sim, rank = current()
        if sim is not None and rank.env is self:
            return sys.modules["pylbm"]
        return self.modules["pylbm"]


_envs = []
BASE_PATH = None


def prepare(ncopies=MAXRANKS + 1):
    """Import the shared dependencies and `ncopies` independent copies of pylbm."""
    global BASE_PATH
    if _envs:
        return
    os.environ.setdefault("MPLBACKEND", "Agg")
    fakempi.install()
    import numpy  # noqa
    _install_dirty_memory()
    import sympy  # noqa
    import h5py  # noqa
    import jinja2  # noqa
    import colorama
    import logging
    logging.raiseExceptions = False
    colorama.init = lambda *a, **k: None
    sys.argv = ["dst"]
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.meta_path.insert(0, _Finder)
    BASE_PATH = list(sys.path)
    for i in range(ncopies):
        env = RankEnv(BASE_PATH)
        importlib.import_module("pylbm")
        for name in ("pylbm.monitoring", "pylbm.simulation"):
            importlib.import_module(name)
        env.count = -1
        env.leave()
        _envs.append(env)
    import logging
    lg = logging.getLogger("pylbm")
    if os.environ.get("DST_LOG"):
        lg.handlers[:] = [logging.StreamHandler(sys.__stderr__)]
    else:
        lg.handlers[:] = [logging.NullHandler()]
    lg.propagate = False


def envs(n, start=0):
    return _envs[start:start + n]


REF = MAXRANKS  # index of the copy used for one-process reference runs


def run_world(nranks, main, choices, cfg=None, argv=(), name="world", start=0, setup=None):
    """Run main(rank_index) on `nranks` simulated processes; returns an Outcome."""
    old_argv = sys.argv
    sys.argv = ["dst"] + list(argv)
    sim = Sim(nranks, choices, cfg, envs(nranks, start), name)
    if setup is not None:
        setup(sim)
    try:
        return sim.run([main] * nranks)
    finally:
        sys.argv = old_argv


def run_serial(main, cfg=None, argv=(), name="serial", start=REF, setup=None):
    """A one-process reference execution with every choice at its default."""
    c = {"policy": "uniform", "p_lazy": 0, "p_rdv": 0}
    c.update(cfg or {})
    return run_world(1, main, Choices(replay=[]), c, argv, name, start, setup)


def reset_process():
    """Bring the per-process counters of the simulator to their initial state."""
    from . import kernel
    kernel._pid_counter[0] = kernel.PID0
    _garbage[0] = 0


def pylbm():
    """The pylbm package of the calling simulated process."""
    return sys.modules["pylbm"]
