"""C14: the stored history of an online study matches what was reported live."""
import os
import shutil
import tempfile

import numpy as np

from .. import queries
from .c13 import restore
from .common import *

RUNS = {'quick': 3500, 'thorough': 50000}
RULE = 'distinct (models, prior kind, layout of hyper-parameters) x (disturbances between the steps) x (length of history)'


def plan(rng, tier):
    cfg = gen.gen_online(rng, hi=30 if rng.random() < .03 else 8)
    if rng.random() < .015:
        cfg = gen.gen_long(rng, hi=140)
    cfg['store'] = True
    n = len(cfg['data']['v'])
    ev = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        e = {'at': rng.randrange(n), 'k': rng.choice(['abort', 'abort', 'restore', 'query', 'query', 'bad'])}
        if e['k'] == 'abort':
            e.update(f=round(rng.random(), 3), exc=rng.choice(ABORT))
        if e['k'] == 'query':
            e['q'] = queries.gen_query(rng, cfg, plots=rng.random() < .3, n=e['at'])
        ev.append(e)
    return {'cfg': cfg, 'ev': ev, 'verify': rng.choice(['end', 'end', 'every']) if n < 50 else 'end', 'alias': rng.random() < .4}


def vec(cfg):
    return [n for n, v in gen.online_hps(cfg) if v[0] != 's']


class Ask(object):
    """queries by their full or by their short names"""

    def __init__(self, S, alias):
        for k in queries.ALIAS:
            f = getattr(S, queries.ALIAS[k] if alias else queries.FULL[k], None)
            setattr(self, k, f)


def live(S, cfg, alias=False):
    A = Ask(S, alias)
    o = {}
    for n in cfg['om']['names']:
        o['pd', n] = snap.own(A.cpd(n))
        o['pp', n] = snap.own(A.cpd(n, density=False))
        o['pm', n] = S.getCurrentParameterMeanValue(n)
    for l in (False, True):
        o['tm', l] = snap.own(A.ctmd(local=l))
    for i in range(len(cfg['tms'])):
        nm = gen.tm_name(cfg, i)
        for l in (False, True):
            o['tp', nm, l] = float(A.ctmp(nm, local=l))
    for n in vec(cfg):
        o['hp', n] = snap.own(A.chpd(n))
    return o


def by_value(x, p):
    x = np.asarray(x, dtype=float)
    u = np.unique(x)
    return [u, np.array([np.asarray(p)[x == v].sum() for v in u])]


def verify(S, cfg, hist, t0, alias=False):
    """compares everything the study returns about its history with what was reported live"""
    A = Ask(S, alias)
    nt = len(hist)
    R = (1e-7, 1e-10)
    for n in cfg['om']['names']:
        if nt > 0:
            x, d = A.pds(n)
            x2, d2 = A.pds(n, density=False)
            mv = S.getParameterMeanValues(n)
            check(None if len(d) == nt else '%d time steps, expected %d' % (len(d), nt), 'length', 'stored history')
        for k, h in enumerate(hist):
            t = t0 + k
            if nt > 0:
                same([x, d[k]], h['pd', n], 'pds', 'stored distributions of %s, time %d' % (n, t), *R)
                same([x2, d2[k]], h['pp', n], 'pds', 'stored probabilities of %s, time %d' % (n, t), *R)
                same(mv[k], h['pm', n], 'pmvs', 'stored mean values of %s, time %d' % (n, t), *R)
            same(A.pd(t, n), h['pd', n], 'pd', 'distribution of %s at time %d' % (n, t), *R)
            same(A.pd(t, n, density=False), h['pp', n], 'pd', 'probabilities of %s at time %d' % (
                n, t), *R)
            same(S.getParameterMeanValue(t, n), h['pm', n], 'pmv', 'mean value of %s at time %d' % (n, t), *R)
        x, d = A.pd('avg', n)
        same([x, d], [hist[0]['pd', n][0], np.mean([h['pd', n][1] for h in hist], axis=0)], 'avg',
             'average distribution of %s' % n, 1e-6, 1e-9)
    for l in (False, True):
        names, q = S.getTransitionModelDistributions(local=l)
        for k, h in enumerate(hist):
            same([list(names), q[k]], [list(h['tm', l][0]), h['tm', l][1]], 'tmds', 'transition model distribution (local='
                 '%s), time %d' % (l, t0 + k), *R)
        for i in range(len(cfg['tms'])):
            nm = gen.tm_name(cfg, i)
            q = A.tmps(nm, local=l)
            same(list(q), [h['tp', nm, l] for h in hist], 'tmps', 'probabilities of %s (local=%s)' % (nm, l), *R)
    for n in vec(cfg):
        xs, ds = A.hpds(n)
        ms = S.getHyperParameterMeanValues(n)
        for k, h in enumerate(hist):
            t = t0 + k
            x, p = h['hp', n]
            if np.sum(p) == 0.:   # transition model without probability
                continue
            u = by_value(x, p)
            same([xs, ds[k]], u, 'hpds', 'stored distributions of hyper-parameter %s, time %d' % (n, t), *R)
            same(A.hpd(t, n), [x, p], 'hpd', 'distribution of hyper-parameter %s at time %d' % (
                n, t), *R)
            m = float(np.sum(u[0] * u[1]))
            same(ms[k], m, 'hpms', 'stored mean values of hyper-parameter %s, time %d' % (n, t), 1e-6, 1e-8)
            same(S.getHyperParameterMeanValue(t, n), m, 'hpm', 'mean value of hyper-parameter %s at time %d' % (n, t),
                 1e-6, 1e-8)
        if all(np.sum(h['hp', n][1]) > 0 for h in hist):
            same(A.hpd('avg', n), [hist[0]['hp', n][0], np.mean([h['hp', n][1] for h in hist], axis=0)], 'hpavg',
                 'average distribution of hyper-parameter %s' % n, 1e-6, 1e-9)
    core.ctx.probe('verified history')


def run(p):
    cfg = p['cfg']
    tmp = tempfile.mkdtemp(prefix='verif-c14-')
    try:
        session(p, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def session(p, cfg, tmp):
    b = reference(lambda: gen.build_online(cfg, store=True))
    w = gen.build_online(cfg, store=False)   # twin that keeps no history
    S = b.S
    data = gen.stream(cfg)
    seg = gen.om_seg(cfg['om'])
    hist = []
    for i, x in enumerate(data):
        stepped = False
        for e in p['ev']:
            if e['at'] != i or stepped:
                continue
            if e['k'] == 'abort':
                arm = faults.Arm(ABORTPOINTS, 1 + int(e['f'] * 20), e['exc'])
                r = attempt(lambda: S.step(x), arm)
                core.ctx.op('abort', r)
                stepped = r is None
            elif e['k'] == 'bad':
                if i and attempt(lambda: S.step({'a': 1})) is not None:
                    core.ctx.fault('unusable data point')
            elif e['k'] == 'query':
                snap.safe(queries.ask, S, e['q'])
                if queries.uses_plot(e['q']):
                    queries.close()
            else:
                S = restore(S, tmp)
            core.ctx.op(e['k'])
        reference(lambda: w.S.step(x))
        if not stepped:
            must(lambda: S.step(x), 'step', 'step %d of a study that stores its history' % i)
        core.ctx.op('step', i)
        if i + 1 < seg:
            continue
        if not np.isfinite(w.S.logEvidence):
            core.ctx.probe('data ruled out by all models')
            break
        h = live(S, cfg, p.get('alias'))
        same(float(S.logEvidence), float(w.S.logEvidence), 'store', 'evidence with stored history, step %d' % i, 1e-9, 1e-12)
        same(h, live(w.S, cfg), 'store', 'results with stored history, step %d' % i, 1e-9, 1e-12)
        hist.append(h)
        if p['verify'] == 'every':
            verify(S, cfg, hist, seg - 1, p.get('alias'))
    if hist:
        verify(S, cfg, hist, seg - 1, p.get('alias'))
    core.ctx.sig(cfg_sig(cfg), tuple(sorted(e['k'] for e in p['ev'])), min(len(hist), 8))
