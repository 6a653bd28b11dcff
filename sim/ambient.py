"""Ambient conditions: what surrounds a program of library calls, and the process-wide state it must leave alone."""
import builtins
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings
import _thread
import numpy as np

STATES = ('float error modes', 'float error callback', 'warning filters', 'showwarning', 'print options', 'environment', 'working directory', 'umask',
          'signal handlers', 'standard streams', 'open files', 'threads', 'random state', 'numpy random state', 'recursion limit',
          'garbage collector', 'switch interval', 'locale', 'hooks', 'import path', 'builtins', 'files in the working directory', 'torch settings', 'torch random state', 'jax settings')


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _rnd(s):
    return hash(tuple(s[1]) if isinstance(s[1], tuple) else (s[1].tobytes(), s[2], s[3], s[4]))


def _torch(torch):
    return (str(torch.get_default_dtype()), str(torch.get_default_device()), torch.get_num_threads(), torch.get_num_interop_threads(),
            torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled(), torch.are_deterministic_algorithms_enabled(),
            torch.get_float32_matmul_precision(), torch.is_autocast_enabled(),
            str(sorted(vars(torch._tensor_str.PRINT_OPTS).items(), key=str)), torch.backends.mkldnn.enabled)


def _jax(jax):
    return tuple(sorted((k, str(getattr(jax.config, k, v))) for k, v in jax.config.values.items()))


def snapshot(deep=True):
    d = _snapshot(deep)
    if 'torch' in sys.modules:
        d['torch settings'] = _torch(sys.modules['torch'])
        d['torch random state'] = hash(sys.modules['torch'].get_rng_state().numpy().tobytes())
    if 'jax' in sys.modules:
        d['jax settings'] = _jax(sys.modules['jax'])
    return d


def _snapshot(deep=True):
    d = {
        'float error modes': tuple(sorted(np.geterr().items())),
        'float error callback': np.geterrcall(),
        'warning filters': tuple((f[0], getattr(f[1], 'pattern', f[1]), f[2], getattr(f[3], 'pattern', f[3]), f[4]) for f in warnings.filters),
        'showwarning': warnings.showwarning,
        'print options': tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        'working directory': os.getcwd(),
        'standard streams': tuple(map(id, (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__))),
        'random state': _rnd(random.getstate()),
        'numpy random state': _rnd(np.random.get_state()),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile()), id(threading.excepthook)),
        'import path': (tuple(map(str, sys.path)), tuple(map(id, sys.meta_path)), len(sys.path_hooks)),
        'threads': (threading.active_count(), _thread._count(), len(os.listdir('/proc/self/task'))),
    }
    if deep:
        d.update({
            'environment': tuple(sorted(os.environ.items())),
            'umask': _umask(),
            'signal handlers': tuple((int(s), str(signal.getsignal(s))) for s in signal.valid_signals()),
            'open files': tuple(sorted(fds())),
            'locale': locale.setlocale(locale.LC_ALL),
            'builtins': tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_')),
            'files in the working directory': tuple(sorted(os.listdir('.'))),
        })
    return d


def fds():
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            out.append((int(f), os.readlink(f'/proc/self/fd/{f}')))
        except OSError:
            pass
    return out


def diff(a, b, ignore=()):
    for k in b:
        if k in a and k not in ignore and a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            if len(x) + len(y) > 300:
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
                x, y = '...' + x[max(0, i - 30):i + 90], '...' + y[max(0, i - 30):i + 90]
            return f'{k} changed from {x} to {y}'
    return None


class Surroundings:
    """put one ambient variant in place: {'rng','heap','clock','cwd','gc','depth','limit','err','wfilters'}"""
    def __init__(self, v):
        from . import seams
        self.v = v
        self.junk = []
        r = random.Random(f'amb:{v["seed"]}')
        for _ in range(v.get('heap', 0)):
            self.junk.append([r.choice([list, dict, set, object, bytearray])() for _ in range(r.randint(1, 50))])
            self.junk.append(np.zeros(r.randint(1, 300), dtype=np.int8))
            if r.random() < .5:
                self.junk.pop(r.randrange(len(self.junk)))
        random.seed(v['seed'])
        np.random.seed(v['seed'] % 2 ** 32)
        seams.Ambient.now = v.get('clock', 1.7e9)
        if v.get('cwd'):
            os.makedirs(v['cwd'], exist_ok=True)
            os.chdir(v['cwd'])
        sys.setrecursionlimit(v.get('limit', 1000))
        np.seterr(**v['err'] if 'err' in v else {'all': 'warn'})
        warnings.simplefilter(v.get('wfilter', 'ignore'))
        if v.get('gc'):
            gc.enable()
            gc.set_threshold(v['gc'])
        os.environ['NUMGA_AMBIENT'] = str(v['seed'])

    def call(self, f, depth=None):
        depth = self.v.get('depth', 0) if depth is None else depth
        return f() if depth <= 0 else self.call(f, depth - 1)


def variant(rng, base=False):
    if base:
        return {'seed': rng.randrange(10 ** 6)}
    return {'seed': rng.randrange(10 ** 6), 'heap': rng.choice([0, 3, 40, 400]), 'clock': rng.choice([0.0, 1.0e9, 2.2e9, 1.7e9]),
            'cwd': rng.choice(['', 'elsewhere', 'some where/else']), 'gc': rng.choice([0, 0, 1, 7, 700]),
            'depth': rng.choice([0, 0, 50, 300]), 'limit': rng.choice([1000, 1000, 5000, 20000]), 'err': {k: rng.choice(['ignore', 'warn', 'warn', 'print']) for k in ('divide', 'over', 'under', 'invalid')},
            'wfilter': rng.choice(['ignore', 'always', 'default', 'once']), 'threads': rng.choice([0, 0, 1])}
