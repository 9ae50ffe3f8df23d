"""Start-up of the simulated process: imports bayesloop from the tree under test and puts every source of
nondeterminism behind a seam the simulator owns (clock, fresh memory, output streams, process pools, random state,
model evaluations as abort points).  Nothing in /repo is modified; all seams are installed from outside."""
import importlib.machinery
import io
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
_ready = False


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """always compiles the current source, so a stale byte-code cache can never hide a change"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


def _hook(path):
    if os.path.realpath(path or '.').startswith(REPO):
        return importlib.machinery.FileFinder(path, (_FreshLoader, ['.py']))
    raise ImportError


class Sink(io.TextIOBase):
    """stdout/stderr of the simulated process; every write is an event that may be made to fail"""

    def __init__(self, name):
        self.sname = name
        self.chars = 0

    encoding = 'utf-8'

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        from . import faults
        self.chars += len(s)
        faults.point(self.sname)
        return len(s)

    def flush(self):
        pass


class Clock(object):
    """simulated wall clock; policy: 'tick' | 'stand' | 'back' | 'jump' | 'leap' (ticks, then jumps once)"""

    def __init__(self):
        self.reset('tick')

    def reset(self, policy, seed=0):
        import random
        self.policy = policy
        self.t = 1.6e9
        self.rng = random.Random(seed)
        self.reads = 0
        self.at = self.rng.choice([2, 3, 5, self.rng.randint(2, 40), self.rng.randint(2, 400)])

    def __call__(self):
        self.reads += 1
        if self.policy == 'leap':
            self.t += 3.2e8 if self.reads == self.at else 0.01
        elif self.policy == 'tick':
            self.t += 0.01
        elif self.policy == 'back':
            self.t -= 0.5
        elif self.policy == 'jump':
            self.t += self.rng.choice([-86400., -1., 0., 0.001, 1., 3600., 86400. * 365])
        return self.t


clock = Clock()


def install_clock():
    """the clocks of the time module, as the code under test sees them"""
    import time
    prefix = REPO + os.sep

    def wrap(name, value):
        orig = getattr(time, name)

        def f(*a):
            if not a and sys._getframe(1).f_code.co_filename.startswith(prefix):
                return value(clock())
            return orig(*a)
        f.__name__ = name
        setattr(time, name, f)

    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        wrap(n, float)
    for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns'):
        wrap(n, lambda t: int(t * 1e9))
    for n in ('localtime', 'gmtime', 'ctime'):
        wrap(n, getattr(time, n))


class _Datetime(type(sys)):
    def __getattr__(self, name):
        import datetime
        return getattr(datetime, name)


def install_datetime():
    """replaces datetime in the modules of the code under test"""
    import datetime

    class Date(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return datetime.datetime.fromtimestamp(clock(), tz)

        @classmethod
        def utcnow(cls):
            return datetime.datetime.utcfromtimestamp(clock())

        @classmethod
        def today(cls):
            return datetime.datetime.fromtimestamp(clock())
    proxy = _Datetime('datetime')
    proxy.datetime = Date
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] == 'bayesloop' and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is datetime:
                    setattr(mod, k, proxy)
                elif v is datetime.datetime:
                    setattr(mod, k, Date)
real_stdout = sys.stdout
real_stderr = sys.stderr
sinks = {}


def init():
    global _ready
    if _ready:
        return
    _ready = True
    for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if os.path.isdir('/opt/venv/mplconfig'):
        os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO)

    import numpy as np
    install_clock()
    import tqdm
    import tqdm.auto
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0
    tqdm.auto.tqdm.monitor_interval = 0
    tqdm.std.time = clock
    import threading
    tqdm.tqdm.set_lock(threading.RLock())   # the lock of progress bars is local to each simulated process
    tqdm.auto.tqdm.set_lock(tqdm.tqdm.get_lock())

    from . import faults, pool
    pool.install()
    import bayesloop
    assert os.path.realpath(bayesloop.__file__).startswith(REPO + os.sep), bayesloop.__file__
    faults.install_memory()
    install_datetime()
    faults.install_models()
    import scipy.optimize  # noqa
    from . import threads
    threads.install_locks()
    np.seterr(all='ignore')
    import matplotlib.pyplot  # noqa
    import scipy.stats  # noqa
    import sympy.stats  # noqa
    import cloudpickle  # noqa
    import dill  # noqa
    for c in threads.codes():
        faults.cleanup_lines(c.co_filename)
    import gc
    gc.collect()
    gc.freeze()  # keeps forked runs from copying the memory of the parent


def mute():
    """route the output of the simulated process into sinks"""
    sinks['out'] = Sink('stdout')
    sinks['err'] = Sink('stderr')
    sys.stdout = sinks['out']
    sys.stderr = sinks['err']


def unmute():
    sys.stdout = real_stdout
    sys.stderr = real_stderr


def fresh_run():
    """reset of all seams before a simulated run"""
    import random
    import numpy as np
    from . import faults, pool
    clock.reset('tick')
    faults.reset()
    pool.reset()
    random.seed(12345)
    np.random.seed(12345)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    mute()
