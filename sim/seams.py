"""Seams between numga and its environment.

Installed once per interpreter, before numga is imported:
  * numga is always compiled from the sources of REPO's working tree (never from a cached pyc), and the code objects
    are recorded, so that the scheduler can be called back from exactly this code;
  * locks created by numga code become cooperative locks of the simulator;
  * clocks read by numga code are the simulator's virtual clock, sleeping advances it;
  * randomness is seeded, the cyclic garbage collector runs only when the simulator says so.
Everything the library does not ask for (numpy, jax, torch, the harness) keeps the real thing.
"""
import gc
import importlib
import importlib.machinery
import os
import random
import sys
import threading
import time
import types
import _thread

REPO = os.environ.get('NUMGA_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'numga') + os.sep

CODES = []              # monitored code objects, in a stable order
CODE_IDX = {}           # code object -> index
CODE_NAME = []          # index -> 'file:line qualname'

real_allocate = _thread.allocate_lock
real_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'sleep', 'time_ns',
                                           'monotonic_ns', 'perf_counter_ns')}
SIM = None              # the active core.Sim, if any


class Ambient:
    """what numga asked of its environment during a run"""
    clock_reads = 0
    sleeps = 0
    locks = 0
    now = 1.7e9


def _add(code, rel):
    if code in CODE_IDX:
        return
    CODE_IDX[code] = len(CODES)
    CODES.append(code)
    CODE_NAME.append(f'{rel}:{code.co_firstlineno} {code.co_qualname}')
    if SIM is not None:
        SIM.instrument(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _add(c, rel)


def _from_numga(depth=2):
    f = sys._getframe(depth)
    return str(f.f_globals.get('__name__', '')).split('.')[0] == 'numga'


# ------------------------------------------------------------------------------- locks
class SimLock:
    """lock whose blocking is visible to, and scheduled by, the simulator"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        Ambient.locks += 1

    def acquire(self, blocking=True, timeout=-1):
        me = (SIM.cur if SIM is not None and SIM.cur is not None else 'main')
        if self.owner is me and self.reentrant:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if SIM is None or SIM.cur is None:
                raise RuntimeError('SimLock: deadlock outside of simulated tasks')
            if not SIM.block_on(self, timeout):
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SIM is not None:
                SIM.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is (SIM.cur if SIM is not None and SIM.cur is not None else 'main')


class SimRLock(SimLock):
    reentrant = True


def _patch_locks():
    rl, rr = threading.Lock, threading.RLock

    def Lock(*a, **k):
        return SimLock() if _from_numga() else rl(*a, **k)

    def RLock(*a, **k):
        return SimRLock() if _from_numga() else rr(*a, **k)

    threading.Lock, threading.RLock = Lock, RLock
    _thread.allocate_lock = Lock


# ------------------------------------------------------------------------------- clocks
def _patch_time():
    def mk(name):
        real = real_time[name]

        def clock(*a):
            if not _from_numga():
                return real(*a)
            Ambient.clock_reads += 1
            return int(Ambient.now * 1e9) if name.endswith('_ns') else Ambient.now
        return clock

    def sleep(s):
        if not _from_numga():
            return real_time['sleep'](s)
        Ambient.sleeps += 1
        Ambient.now += max(0, s)

    for n in real_time:
        setattr(time, n, sleep if n == 'sleep' else mk(n))


# ------------------------------------------------------------------------------- code capture
def _patch_loader():
    L = importlib.machinery.SourceFileLoader
    orig = L.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if os.path.realpath(path).startswith(PKG):
            code = self.source_to_code(self.get_data(path), path)
            _add(code, os.path.relpath(os.path.realpath(path), os.path.dirname(PKG.rstrip(os.sep))))
            return code
        return orig(self, fullname)
    L.get_code = get_code


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    _patch_loader()
    _patch_locks()
    _patch_time()
    sys.path.insert(0, REPO)
    import functools
    cp = functools.cached_property.__get__
    _add(cp.__code__, 'functools')
    gc.disable()


EXTRA = {'physics': ['numga.examples.physics.base', 'numga.examples.physics.core'], 'sparse': ['numga.examples.ga_sparse']}
OPT_IN = {'numga.multivector.extension.optimized'}      # importing it changes behaviour by design; runs activate it


def modules(backends):
    """every importable non-test module of the library, for the given backends"""
    out = []
    root = PKG.rstrip(os.sep)
    for d, dirs, files in os.walk(root):          # not sorted(): dirs must be pruned while walking
        rel = os.path.relpath(d, root).split(os.sep)
        dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', 'examples', '__pycache__'))
        if rel[0] == 'backend' and len(rel) > 1 and rel[1] not in backends:
            continue
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('test_'):
                m = '.'.join(['numga'] + [r for r in rel if r != '.'] + ([] if f == '__init__.py' else [f[:-3]]))
                if m not in OPT_IN:
                    out.append(m)
    return sorted(out)


def load(backends=('numpy',)):
    """import the library from REPO (so that no import happens inside a simulated run)"""
    install()
    import einops                       # imported lazily by the array multivectors
    importlib.import_module('numga.multivector.extension')
    importlib.import_module('numga.algebra.algebra')
    importlib.import_module('numga.subspace.factory')
    importlib.import_module('numga.operator.factory')
    for m in modules(backends):
        importlib.import_module(m)
    for b in backends:
        for m in EXTRA.get(b, ()):
            importlib.import_module(m)
    import numga
    got = os.path.realpath(numga.__file__ or list(numga.__path__)[0])
    if not got.startswith(PKG.rstrip(os.sep)):
        raise RuntimeError(f'imported numga from {got}, wanted {PKG}')


def reset_ambient(seed):
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    Ambient.clock_reads = Ambient.sleeps = Ambient.locks = 0
    Ambient.now = 1.7e9 + (seed % 1000) * 86400
