"""Abort points.  A point is an instant at which the simulated environment may interrupt the code under test: the
evaluation of a model (likelihood, prior, transition function - user code or built-in), the allocation of an array, a
write to the output stream, a numerical or plotting call inside a query.  An armed fault fires at the n-th point of
its kinds and raises the chosen exception there."""
import sys


class SimFault(Exception):
    """the exception of a failing user function"""


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'SimFault': SimFault,
    'FloatingPointError': FloatingPointError,
    'ValueError': ValueError,
    'OSError': OSError,
    'BrokenPipeError': BrokenPipeError,
    'SystemExit': SystemExit,
    'AttributeError': AttributeError,
    'IndexError': IndexError,
    'StopIteration': StopIteration,
    'RuntimeError': RuntimeError,
    'KeyError': KeyError,
    'TypeError': TypeError,
    'EOFError': EOFError,
    'ZeroDivisionError': ZeroDivisionError,
    'ArithmeticError': ArithmeticError,
    'AssertionError': AssertionError,
}

counts = {}
total = 0
LIMIT = 4000000     # points per run; far beyond every legitimate run
armed = []
fired = {}
listener = None
poison = None      # None or the value that fresh memory is filled with
_active = True


def reset():
    global poison, listener, total
    total = 0
    counts.clear()
    fired.clear()
    del armed[:]
    poison = float('nan')
    listener = None


class Arm(object):
    """with Arm(kinds, n, exc): ... ; n counts points of these kinds from the entry of the block (1-based)"""

    def __init__(self, kinds, n, exc, label=None):
        self.kinds = frozenset(kinds)
        self.n = n
        self.exc = exc
        self.count = 0
        self.fired = False
        self.label = label

    def __enter__(self):
        armed.append(self)
        return self

    def __exit__(self, *a):
        if self in armed:
            armed.remove(self)
        return False


def point(kind):
    global total
    total += 1
    if total > LIMIT:
        from .pool import SimHang
        raise SimHang('no end after %d evaluations' % total)
    counts[kind] = counts.get(kind, 0) + 1
    if listener is not None:
        listener(kind)
    for a in armed:
        if kind in a.kinds and not a.fired:
            a.count += 1
            if a.count == a.n:
                a.fired = True
                key = '%s@%s' % (a.exc, kind)
                fired[key] = fired.get(key, 0) + 1
                raise EXC[a.exc]('injected')


class Counter(object):
    """counts the points of given kinds inside a block"""

    def __init__(self, kinds):
        self.kinds = kinds

    def __enter__(self):
        self.start = sum(counts.get(k, 0) for k in self.kinds)
        return self

    def __exit__(self, *a):
        self.n = sum(counts.get(k, 0) for k in self.kinds) - self.start
        return False



class _Numpy(type(sys)):
    """numpy as the modules of the code under test see it (numpy itself stays untouched, so that everything else,
    pickling included, sees the original functions)"""

    def __getattr__(self, name):
        import numpy
        return getattr(numpy, name)


class _Pyplot(type(sys)):
    """plotting calls of the code under test are points"""

    def __getattr__(self, name):
        import matplotlib.pyplot
        v = getattr(matplotlib.pyplot, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                point('plt')
                return v(*a, **k)
            return f
        return v


def install_memory():
    """fresh memory: np.empty returns memory with hostile content; allocations in the code under test are points"""
    import numpy as np
    proxy = _Numpy('numpy')
    proxy.__dict__.update({k: v for k, v in vars(np).items() if k != '__getattr__'})

    def fill(a):
        try:
            if poison is not None and a.dtype.kind == 'f':
                a[...] = poison
        except Exception:
            pass
        return a

    def wrap(name, fresh):
        orig = getattr(np, name)

        def f(*a, **k):
            point('alloc')
            r = orig(*a, **k)
            return fill(r) if fresh else r
        f.__name__ = name
        setattr(proxy, name, f)

    for n, fresh in (('empty', 1), ('empty_like', 1), ('zeros', 0), ('ones', 0), ('zeros_like', 0),
                     ('ones_like', 0), ('array', 0), ('copy', 0)):
        wrap(n, fresh)
    for n in ('sum', 'mean', 'squeeze', 'apply_over_axes', 'cumsum', 'argsort', 'meshgrid', 'swapaxes', 'dot'):
        num(proxy, np, n)
    import matplotlib.pyplot as plt
    pproxy = _Pyplot('matplotlib.pyplot')
    pproxy.__file__ = plt.__file__
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] == 'bayesloop' and mod is not None:
            if getattr(mod, 'np', None) is np:
                mod.np = proxy
            if getattr(mod, 'plt', None) is plt:
                mod.plt = pproxy


def num(proxy, np, name):
    """numerical calls are points of their own kind: they are the instants between the statements of a query"""
    orig = getattr(np, name)

    def f(*a, **k):
        point('num')
        return orig(*a, **k)
    f.__name__ = name
    setattr(proxy, name, f)


def _wrap(cls, name, kind):
    orig = cls.__dict__[name]
    if isinstance(orig, (staticmethod, classmethod)):
        return

    def method(self, *a, **k):
        point(kind)
        return orig(self, *a, **k)
    method.__name__ = name
    method.__qualname__ = cls.__name__ + '.' + name
    method.__wrapped__ = orig
    method.__doc__ = orig.__doc__
    setattr(cls, name, method)


def install_models():
    import inspect
    import bayesloop.observationModels as om
    import bayesloop.transitionModels as tm
    for _, cls in sorted(vars(om).items()):
        if inspect.isclass(cls) and cls.__module__ == om.__name__ and 'pdf' in cls.__dict__:
            _wrap(cls, 'pdf', 'om')
    for _, cls in sorted(vars(tm).items()):
        if inspect.isclass(cls) and cls.__module__ == tm.__name__:
            for n in ('computeForwardPrior', 'computeBackwardPrior'):
                if n in cls.__dict__:
                    _wrap(cls, n, 'tm')


MODEL = ('om', 'tm', 'user')


# -- interrupts at any line ------------------------------------------------------------------------------------------

_cleanup = {}
_prefix = None


def cleanup_lines(path):
    """lines of a file that belong to exception handlers and finally blocks"""
    if path not in _cleanup:
        import ast
        s = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for b in [h.body for h in n.handlers] + [n.finalbody]:
                    if b:
                        s.update(range(b[0].lineno, max(x.end_lineno for x in b) + 1))
            elif isinstance(n, ast.FunctionDef) and n.name in ('__exit__', '__del__'):
                s.update(range(n.lineno, n.end_lineno + 1))
        _cleanup[path] = s
    return _cleanup[path]


class Lines(object):
    """inside the block, every line of the code under test is a point (kind 'line'; lines of the model modules are of
    the kind 'mline' as well).  Lines that are executed as part of an exception handler or a finally block are not:
    no code can be made safe against interrupts in its own cleanup."""

    def __enter__(self):
        global _prefix
        import os
        from . import boot, threads
        _prefix = boot.REPO + os.sep + 'bayesloop' + os.sep
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, 'simulator-lines')
        mon.register_callback(self.tool, mon.events.LINE, self._event)
        for c in threads.codes():
            mon.set_local_events(self.tool, c, mon.events.LINE)
        return self

    def __exit__(self, *a):
        from . import threads
        mon = sys.monitoring
        for c in threads.codes():
            mon.set_local_events(self.tool, c, 0)
        mon.register_callback(self.tool, mon.events.LINE, None)
        mon.free_tool_id(self.tool)
        return False

    def _event(self, code, line):
        if in_cleanup(sys._getframe(1)):
            return
        line_point('line')
        if code.co_filename.endswith('Models.py'):
            line_point('mline')


def in_cleanup(f):
    """is the frame part of an exception handler, a finally block or the exit of a context manager of the code under
    test?"""
    global _prefix
    if not _prefix:
        import os
        from . import boot
        _prefix = boot.REPO + os.sep + 'bayesloop' + os.sep
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith(_prefix) and (f.f_code.co_name in ('__exit__', '__del__') or
                                         f.f_lineno in cleanup_lines(name)):
            return True
        f = f.f_back
    return False


def line_point(kind):
    counts[kind] = counts.get(kind, 0) + 1
    if listener is not None:
        listener(kind)
    for a in armed:
        if kind in a.kinds and not a.fired:
            a.count += 1
            if a.count == a.n:
                a.fired = True
                key = '%s@%s' % (a.exc, kind)
                fired[key] = fired.get(key, 0) + 1
                raise EXC[a.exc]('injected')


class NoLines(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def lines(kinds):
    """the context that makes points of these kinds happen"""
    return Lines() if 'line' in kinds or 'mline' in kinds else NoLines()
