"""C13: all reported distributions stay proper probability distributions."""
import os
import shutil
import tempfile

import numpy as np

from .. import queries
from .common import *

RUNS = {'quick': 4500, 'thorough': 60000}
RULE = 'distinct (study kind, models, prior kind) x (kind of session: fits, aborts, worker counts, outliers, restores)'
TOL = 1e-6


def plan(rng, tier):
    if rng.random() < .5:
        hard = rng.random() < .4
        cfg = gen.gen_online(rng, hi=40 if rng.random() < .03 else 8, glitch=.35 if hard else .05)
        if rng.random() < .1:
            cfg = gen.gen_extreme(rng)
        elif rng.random() < .015:
            cfg = gen.gen_long(rng)
        n = len(cfg['data']['v'])
        ev = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            ev.append({'at': rng.randrange(n), 'k': rng.choice(['abort', 'abort', 'restore']),
                       'f': round(rng.random(), 3), 'exc': rng.choice(ABORT)})
        return {'mode': 'online', 'cfg': cfg, 'ev': ev}
    kind = rng.choice(['Study', 'Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=40 if rng.random() < .05 else 9, hi=9)
    if kind != 'Study' and rng.random() < .04:
        cfg = gen.gen_many_cfg(rng, kind)
    opt = optimizable(cfg) if kind == 'Study' else []
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        u = rng.random()
        if u < .15:
            ops.append({'op': 'abort', 'fit': gen.gen_fit(rng, kind), 'f': round(rng.random(), 3),
                        'exc': rng.choice(ABORT)})
        elif u < .25:
            ops.append({'op': 'restore'})
        elif opt and u < .4:
            ops.append({'op': 'opt', 'p': rng.sample(opt, rng.randint(1, len(opt)))})
        f = gen.gen_fit(rng, kind)
        f.pop('evidenceOnly', None)
        o = {'op': 'fit', 'fit': f}
        if kind != 'Study' and rng.random() < .25:
            o['nJobs'] = rng.choice([2, 3, 4])
        ops.append(o)
    return {'mode': 'batch', 'cfg': cfg, 'ops': ops}


def proper(d, what, axis=None):
    """d: array of probabilities, the last axis (or everything) sums to one"""
    d = np.asarray(d, dtype=float)
    core.ctx.checks += 1
    if not np.all(np.isfinite(d)):
        raise Violation('finite', '%s contains %r' % (what, d[~np.isfinite(d)].flat[0]))
    if d.min() < -1e-10:
        raise Violation('negative', '%s contains %r' % (what, float(d.min())))
    s = d.sum() if axis is None else d.sum(axis=axis)
    if np.max(np.abs(s - 1.)) > TOL:
        raise Violation('sum', '%s sums to %r' % (what, np.ravel(s)[np.argmax(np.abs(np.ravel(s) - 1.))]))


def dx(x):
    x = np.asarray(x, dtype=float)
    if len(x) < 2:
        return None
    d = np.diff(x)
    return abs(d[0]) if np.all(np.abs(np.diff(d)) < 1e-10) else 1.


def dens(x, d, p, what):
    """a density is the probability divided by the spacing of the grid"""
    c = dx(x)
    if c is not None:
        same(np.asarray(d) * c, p, 'density', what + ' (density)', 1e-6, 1e-9)


def in_range(m, x, what):
    x = np.asarray(x, dtype=float)
    m = np.asarray(m, dtype=float)
    core.ctx.checks += 1
    eps = 1e-6 * max(1., np.max(np.abs(x)))
    if not np.all((m >= x.min() - eps) & (m <= x.max() + eps)):
        raise Violation('mean', '%s outside the parameter grid [%r, %r]: %r' % (what, x.min(), x.max(), snap.brief(m)))


def check_batch(S, cfg):
    import bayesloop as bl
    nt = len(gen.times(cfg))
    joint = np.asarray(S.posteriorSequence)
    nd = len(cfg['om']['names'])
    for k, n in enumerate(cfg['om']['names']):
        x, p = S.getParameterDistributions(n, density=False)
        if len(x) < 2 or nt < 2:
            continue
        proper(p, 'distributions of %s' % n, -1)
        m = joint.sum(axis=tuple(a + 1 for a in range(nd) if a != k))
        same(p, m, 'joint', 'marginal distributions of %s' % n, 1e-6, 1e-9)
        _, d = S.getParameterDistributions(n)
        dens(x, d, p, 'distributions of %s' % n)
        for i in {0, nt // 2, nt - 1}:
            t = gen.times(cfg)[i]
            _, q = S.getParameterDistribution(t, n, density=False)
            proper(q, 'distribution of %s at %s' % (n, t))
            same(q, p[i], 'time', 'distribution of %s at %s' % (n, t), 1e-6, 1e-9)
        _, q = S.getParameterDistribution('avg', n, density=False)
        proper(q, 'average distribution of %s' % n)
        mv = S.getParameterMeanValues(n)
        in_range(mv, x, 'mean values of %s' % n)
        same(mv, p.dot(np.asarray(x, dtype=float)), 'meanvalue', 'mean values of %s' % n, 1e-6, 1e-8)
    if snap.is_hyper(cfg):
        v = snap.vec_hps(cfg)
        hp = {}
        for n in v:
            x, p = S.getHyperParameterDistribution(n)
            hp[n] = p
            proper(p, 'distribution of hyper-parameter %s' % n)
        for i in range(len(v)):
            for j in range(len(v)):
                if i != j and abs(i - j) < 3:
                    x, y, z = S.getJointHyperParameterDistribution([v[i], v[j]])
                    proper(z, 'joint distribution of %s, %s' % (v[i], v[j]))
                    if z.ndim == 2:
                        same(z.sum(axis=1), hp[v[i]], 'joint', 'marginal of the joint distribution of %s, %s'
                             % (v[i], v[j]), 1e-6, 1e-9)
                        same(z.sum(axis=0), hp[v[j]], 'joint', 'marginal of the joint distribution of %s, %s'
                             % (v[i], v[j]), 1e-6, 1e-9)
        if cfg['kind'] == 'ChangepointStudy':
            c = [n for n in snap.hps(cfg) if n in gen.tm_points(cfg['tm'])]
            if len(c) > 1:
                x, p = S.getDurationDistribution([c[0], c[1]])
                proper(p, 'duration distribution of %s, %s' % (c[0], c[1]))
    core.ctx.probe('checked fit')


def check_online(S, cfg, nsteps):
    nd = len(cfg['om']['names'])
    for n in cfg['om']['names']:
        x, p = S.getCurrentParameterDistribution(n, density=False)
        proper(p, 'current distribution of %s' % n)
        dens(x, S.getCurrentParameterDistribution(n)[1], p, 'current distribution of %s' % n)
        m = S.getCurrentParameterMeanValue(n)
        in_range(m, x, 'current mean value of %s' % n)
        if len(x) > 1:
            same(m, float(p.dot(np.asarray(x, dtype=float))), 'meanvalue', 'current mean value of %s' % n, 1e-6, 1e-8)
        if cfg['store'] and nsteps > 1:
            x, p = S.getParameterDistributions(n, density=False)
            proper(p, 'stored distributions of %s' % n, -1)
            in_range(S.getParameterMeanValues(n), x, 'stored mean values of %s' % n)
    names, p = S.getCurrentTransitionModelDistribution()
    proper(p, 'transition model distribution')
    _, l = S.getCurrentTransitionModelDistribution(local=True)
    proper(l, 'local transition model distribution')
    if cfg['store']:
        proper(S.getTransitionModelDistributions()[1], 'stored transition model distributions', -1)
        proper(S.getTransitionModelDistributions(local=True)[1], 'stored local transition model distributions', -1)
    for i, (_, t) in enumerate(cfg['tms']):
        if p[i] == 0.:   # ruled out by the data
            core.ctx.probe('transition model without probability')
            continue
        for n, v in gen.tm_hps(t):
            if v[0] == 's':
                continue
            x, h = S.getCurrentHyperParameterDistribution(n)
            proper(h, 'current distribution of hyper-parameter %s' % n)
            if cfg['store']:
                proper(S.getHyperParameterDistributions(n)[1], 'stored distributions of hyper-parameter %s' % n, -1)
    core.ctx.probe('checked step')


def restore(S, tmp):
    import bayesloop as bl
    f = os.path.join(tmp, 'study.bl')
    bl.save(f, S)
    return bl.load(f)


def run(p):
    cfg = p['cfg']
    tmp = tempfile.mkdtemp(prefix='verif-c13-')
    try:
        (online if p['mode'] == 'online' else batch)(p, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def batch(p, cfg, tmp):
    b = reference(lambda: gen.build(cfg))
    S = b.S
    hist = []
    for o in p['ops']:
        hist.append(o['op'])
        if o['op'] == 'abort':
            arm = faults.Arm(ABORTPOINTS, 1 + int(o['f'] * 60), o['exc'])
            e = attempt(lambda: gen.do_fit(S, o['fit']), arm)
            core.ctx.op('abort', e)
        elif o['op'] == 'restore':
            S = restore(S, tmp)
            core.ctx.op('restore')
        elif o['op'] == 'opt':
            reference(lambda: do_opt(S, o['p']))
            core.ctx.op('opt')
            if np.isfinite(S.logEvidence):
                check_batch(S, cfg)
        else:
            reference(lambda: gen.do_fit(S, o['fit'], **({'nJobs': o['nJobs']} if 'nJobs' in o else {})))
            core.ctx.op('fit')
            if not np.isfinite(S.logEvidence):
                core.ctx.probe('data ruled out by the model')
                core.ctx.checks += 1
                if np.isnan(S.logEvidence):
                    raise Violation('finite', 'the evidence is NaN')
                continue
            check_batch(S, cfg)
            core.ctx.sig(cfg_sig(cfg), tuple(hist[-3:]), o.get('nJobs'))


def online(p, cfg, tmp):
    b = reference(lambda: gen.build_online(cfg))
    S = b.S
    data = gen.stream(cfg)
    seg = gen.om_seg(cfg['om'])
    for i, x in enumerate(data):
        stepped = False
        for e in p['ev']:
            if e['at'] != i or stepped:
                continue
            if e['k'] == 'abort':
                arm = faults.Arm(ABORTPOINTS, 1 + int(e['f'] * 20), e['exc'])
                r = attempt(lambda: S.step(x), arm)
                core.ctx.op('abort', r)
                stepped = r is None
                if not stepped and i + 1 > seg:
                    check_online(S, cfg, i + 1 - seg)
            else:
                S = restore(S, tmp)
                core.ctx.op('restore')
                if i + 1 > seg:
                    check_online(S, cfg, i + 1 - seg)
        if not stepped:
            reference(lambda: S.step(x))
        core.ctx.op('step', i)
        if i + 1 < seg:
            continue
        if np.isneginf(S.logEvidence):
            core.ctx.probe('data ruled out by all models')
            return
        core.ctx.checks += 1
        if np.isnan(S.logEvidence):
            raise Violation('finite', 'the evidence is NaN')
        check_online(S, cfg, i + 2 - seg)
        core.ctx.sig(cfg_sig(cfg), min(i, 3), tuple(e['k'] for e in p['ev'] if e['at'] <= i))
