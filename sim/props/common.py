"""Helpers of the property modules."""
import numpy as np

from .. import core, faults, gen, pool, snap
from ..core import Skip, Violation, check

REAL = ['bayesloop (all modules, unmodified, imported from the working tree)', 'numpy, scipy, sympy, dill, '
        'cloudpickle, pathos, tqdm, matplotlib (Agg)']
STUB = ['clock (simulated)', 'content of fresh memory (simulated)', 'stdout/stderr (sinks that can fail)',
        'multiprocess.pool.Pool below pathos (simulated, work transferred with the real dill)']
ASSUME = ['one seed is one execution; a clean batch is evidence, not proof',
          'a run is derived from VERIF_SEED, the property and the run index only']

ABORT = ['KeyboardInterrupt', 'MemoryError', 'SimFault', 'FloatingPointError', 'ValueError', 'SystemExit',
         'StopIteration', 'AttributeError', 'RuntimeError', 'OSError', 'TypeError', 'AssertionError']
ABORTPOINTS = faults.MODEL + ('alloc',)


def attempt(f, arm=None):
    """calls f, optionally with an armed fault; returns None or the name of the exception"""
    try:
        if arm is None:
            f()
        else:
            with faults.lines(arm.kinds), arm:
                f()
        return None
    except (core.Violation, core.Skip, core.Known, pool.SimHang):
        raise
    except BaseException as e:
        return type(e).__name__


def must(f, cls, what):
    """an operation that has to succeed"""
    try:
        return f()
    except (core.Violation, core.Skip, core.Known, pool.SimHang):
        raise
    except BaseException as e:
        core.ctx.checks += 1
        raise Violation(cls, '%s raises %s: %s' % (what, type(e).__name__, str(e)[:300]))


def reference(f):
    """an operation on a fresh, undisturbed object; if it is rejected there is nothing to check"""
    try:
        return f()
    except (core.Violation, core.Skip, core.Known, pool.SimHang):
        raise
    except Exception as e:
        raise Skip('%s: %s' % (type(e).__name__, str(e)[:200]))


TINY = 1e-7, 1e-290     # nothing is computed in between: even the smallest probabilities have to survive


def same(a, b, cls, what, rtol=1e-7, atol=1e-10):
    check(snap.diff(a, b, rtol, atol), cls, what)


def inputs_unchanged(reg, cls='input', what='user input'):
    c = reg.changed()
    check(None if c is None else 'input %d is %s, was %s' % (c[0], snap.brief(c[1]), snap.brief(c[2])), cls, what)


def cfg_sig(cfg):
    """coarse class of a configuration"""
    tms = [cfg['tm']] if 'tm' in cfg else [t for _, t in cfg['tms']]
    return (cfg['kind'], cfg['om']['cls'], cfg['om'].get('fn') or cfg['om'].get('rv'), cfg['om']['prior'][0],
            tuple(tm_sig(t) for t in tms))


def tm_sig(t):
    if 'sub' in t:
        return (t['t'],) + tuple(tm_sig(s) for s in t['sub'])
    return (t['t'],) + tuple(v[0] for v in t.get('v', []))


def optimizable(cfg):
    """names of hyper-parameters that can be optimised"""
    p = gen.tm_points(cfg['tm'])
    return [n for n, v in gen.tm_hps(cfg['tm']) if n not in p and v[0] == 's']


def fit_result(cfg, fit, om=None, tm=None, count=None):
    """result of a fresh study with fresh models"""
    b = gen.build(cfg)
    if count is None:
        gen.do_fit(b.S, fit)
    else:
        with faults.Counter(count) as c:
            gen.do_fit(b.S, fit)
        return snap.batch(b.S, cfg, fit), c.n
    return snap.batch(b.S, cfg, fit)


OPT = {'options': {'maxiter': 12}}


def do_opt(S, params, fwd=False):
    a = () if not params else (params[0],) if len(params) == 1 else (list(params),)
    S.optimize(*a, forwardOnly=fwd, **OPT)
