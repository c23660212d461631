"""Process set-up shared by every simulated world: fixed hash seed, seeded uuid and
randomness seams, quiet captured logging. Import before anything of reactpy."""
from __future__ import annotations

import gc
import logging
import os
import random
import sys
import uuid
import warnings

from sim import threads

REPO = os.environ.get("VERIF_REPO", "/repo")


def fast_dir():
    """where scratch directories are made: in memory where possible"""
    d = "/dev/shm"
    return d if os.path.isdir(d) and os.access(d, os.W_OK | os.X_OK) else None


def ensure_hashseed(seed: int) -> None:
    """string hashing is part of the schedule (set iteration order): fix it"""
    if os.environ.get("PYTHONHASHSEED") != str(seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        os.execve(sys.executable, [sys.executable, *sys.argv], env)


class Rand:
    rng = random.Random(0)


def _uuid4():
    return uuid.UUID(int=Rand.rng.getrandbits(128), version=4)


def _urandom(n):
    return Rand.rng.randbytes(n)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name, record.getMessage()[:300]))
        if len(self.records) > 5000:
            del self.records[:2500]


capture = Capture()


def _always_compile_from_source():
    """never trust a cached .pyc of the code under test (its time stamp has one second
    resolution): reactpy is compiled from the working tree on every start"""
    import importlib._bootstrap_external as be

    orig = be.cache_from_source

    def cache_from_source(path, *a, **k):
        if "reactpy" in str(path):
            raise NotImplementedError
        return orig(path, *a, **k)

    be.cache_from_source = cache_from_source
    sys.dont_write_bytecode = True


class _OrderedSet(dict):
    """a set iterated in insertion order"""

    def add(self, x):
        self[x] = None

    def remove(self, x):
        del self[x]

    def discard(self, x):
        self.pop(x, None)


def _order_cancel_scopes():
    """anyio iterates a set of scopes, whose order follows their memory addresses"""
    import anyio._backends._asyncio as m

    init = m.CancelScope.__init__

    def __init__(self, *a, **k):
        init(self, *a, **k)
        self._child_scopes = _OrderedSet()

    m.CancelScope.__init__ = __init__


def install() -> None:
    _always_compile_from_source()
    sys.path.insert(0, os.path.join(REPO, "src"))
    uuid.uuid4 = _uuid4
    threads.install()
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(capture)
    root.setLevel(logging.WARNING)
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    import reactpy  # noqa: F401
    import reactpy.config  # noqa: F401

    for name in list(logging.root.manager.loggerDict):
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.propagate = True
    _order_cancel_scopes()
    gc.collect()
    gc.freeze()
    gc.disable()


def seed_run(seed) -> None:
    Rand.rng = random.Random(f"uuid:{seed}")
    random.seed(f"global:{seed}")
    capture.records.clear()
