"""Observations of a study through its public interface, and their comparison."""
import copy

import numpy as np

from . import gen


def safe(f, *a, **k):
    """value of a query, or the type of the exception it raises"""
    try:
        return own(f(*a, **k))
    except Exception as e:
        return Exc(e)


class Exc(object):
    def __init__(self, e):
        self.t = type(e).__name__
        self.m = str(e)[:200]

    def __repr__(self):
        return 'raises %s(%s)' % (self.t, self.m)


def own(v):
    """private copy"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [own(x) for x in v]
    return copy.deepcopy(v) if isinstance(v, dict) else v


def diff(a, b, rtol=1e-6, atol=1e-9, path=''):
    """None, or a description of the first difference"""
    if isinstance(a, Exc) or isinstance(b, Exc):
        if isinstance(a, Exc) and isinstance(b, Exc) and a.t == b.t:
            return None
        return '%s: %r != %r' % (path, brief(a), brief(b))
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s: key %r only on one side' % (path, k)
            d = diff(a[k], b[k], rtol, atol, path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (numeric(a) and numeric(b)):
        if len(a) != len(b):
            return '%s: length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind in 'fiubc' and y.dtype.kind in 'fiubc':
            if x.shape != y.shape:
                return '%s: shape %s != %s' % (path, x.shape, y.shape)
            x = x.astype(float)
            y = y.astype(float)
            ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
            if ok.all():
                return None
            i = np.unravel_index(np.argmin(ok), ok.shape) if ok.ndim else ()
            return '%s: %d of %d values differ, first %r != %r' % (path, int((~ok).sum()), ok.size, float(x[i]), float(y[i]))
    except Exception:
        pass
    try:
        if a is b or bool(np.all(np.asarray(a == b))):
            return None
    except Exception:
        pass
    return '%s: %s != %s' % (path, brief(a), brief(b))


def numeric(v):
    return all(isinstance(x, (int, float, np.number)) for x in v)


def brief(a):
    s = repr(a)
    return s if len(s) < 160 else s[:157] + '...'


def finite(v):
    """does the observation contain no NaN (used to skip degenerate configurations)"""
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(finite(x) for x in v)
    try:
        a = np.asarray(v)
        if a.dtype.kind == 'f':
            return not np.isnan(a).any()
    except Exception:
        pass
    return True


# ----------------------------------------------------------------------------------------------------------------

def hps(cfg):
    return [n for n, v in gen.tm_hps(cfg['tm'])]


def vec_hps(cfg):
    nt = len(gen.times(cfg))
    return [n for n, v in gen.tm_hps(cfg['tm']) if gen.val_n(v, nt) > 1]


def is_hyper(cfg):
    return cfg['kind'] in ('HyperStudy', 'ChangepointStudy') and gen.combos(cfg['tm'], len(gen.times(cfg))) > 1


def hp_values(S, cfg):
    """hyper-parameter values as the user sees them"""
    return dict((n, safe(S.getHyperParameterValue, n)) for n in sorted(hps(cfg)))


def config(S, cfg):
    """what a study reports about its configuration"""
    return {'values': hp_values(S, cfg)}


def batch(S, cfg, fit, joint=True, full=True):
    """results of a fit"""
    o = {'logEvidence': safe(lambda: float(S.logEvidence)), 'log10': safe(lambda: float(S.log10Evidence)),
         'local': safe(lambda: S.localEvidence)}
    if not fit.get('evidenceOnly'):
        o['post'] = safe(lambda: np.array(S.posteriorSequence))
        o['means'] = safe(lambda: np.array(S.posteriorMeanValues))
        if full:
            for n in cfg['om']['names']:
                o['pmv.' + n] = safe(S.getParameterMeanValues, n)
                o['pds.' + n] = safe(S.getParameterDistributions, n)
    if is_hyper(cfg):
        names = hps(cfg)
        for n in names:
            o['hpd.' + n] = safe(S.getHyperParameterDistribution, n)
        v = vec_hps(cfg)
        if joint and len(v) > 1:
            o['jhpd'] = safe(S.getJointHyperParameterDistribution, [v[0], v[1]])
        if cfg['kind'] == 'ChangepointStudy':
            p = [n for n in names if n in gen.tm_points(cfg['tm'])]
            if len(p) > 1:
                o['dd'] = safe(S.getDurationDistribution, [p[0], p[1]])
    return o


def online(S, cfg, history=True, evidence=True):
    """current state of an online study"""
    o = {}
    if evidence:
        o['logEvidence'] = safe(lambda: float(S.logEvidence))
    for n in cfg['om']['names']:
        o['cpd.' + n] = safe(S.getCurrentParameterDistribution, n)
        o['cpm.' + n] = safe(S.getCurrentParameterMeanValue, n)
    o['ctmd'] = safe(S.getCurrentTransitionModelDistribution)
    o['ctmdl'] = safe(S.getCurrentTransitionModelDistribution, local=True)
    for n, v in gen.online_hps(cfg):
        o['chpd.' + n] = safe(S.getCurrentHyperParameterDistribution, n)
    if history and cfg['store']:
        for n in cfg['om']['names']:
            o['pds.' + n] = safe(S.getParameterDistributions, n)
            o['pmv.' + n] = safe(S.getParameterMeanValues, n)
        o['tmds'] = safe(S.getTransitionModelDistributions)
        o['tmdsl'] = safe(S.getTransitionModelDistributions, local=True)
        for n, v in gen.online_hps(cfg):
            o['hpds.' + n] = safe(S.getHyperParameterDistributions, n)
            o['hpm.' + n] = safe(S.getHyperParameterMeanValues, n)
    return o
