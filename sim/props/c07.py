"""C07: online analysis agrees with batch analysis on every prefix of a stream."""
import numpy as np

from .. import queries
from .common import *

RUNS = {'quick': 4500, 'thorough': 30000}
RULE = 'distinct (mode, observation model, prior kind, transition models, missing values) x (disturbance before the step)'


def plan(rng, tier):
    multi = rng.random() < .35
    big = rng.random() < .03
    cfg = gen.gen_online(rng, ntm=rng.choice([2, 2, 3, 4]) if multi else 1, hi=30 if big else 8, budget=5,
                         single_set=True)
    if rng.random() < .5:
        cfg.pop('tmprior', None)
    if rng.random() < .06:
        cfg, big = gen.gen_extreme(rng), False
        if not multi:
            cfg['tms'] = cfg['tms'][:1]
    elif rng.random() < .01:
        cfg, big = gen.gen_long(rng), True
        multi = len(cfg['tms']) > 1
    n = len(cfg['data']['v'])
    p = {'cfg': cfg, 'mode': 'mixture' if multi else 'single', 'dist': []}
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            d = {'at': rng.randrange(n), 'k': rng.choice(['abort', 'abort', 'query', 'bad'])}
            if d['k'] == 'abort':
                d.update(f=round(rng.random(), 3), exc=rng.choice(ABORT))
            if d['k'] == 'query':
                d['q'] = queries.gen_query(rng, cfg, plots=False, n=d['at'])
            p['dist'].append(d)
    p['every'] = rng.choice([3, 5]) if big and n <= 30 else 37 if big else 1
    return p


def disturb(S, p, i, x):
    done = []
    for d in p['dist']:
        if d['at'] != i:
            continue
        if d['k'] == 'abort':
            arm = faults.Arm(ABORTPOINTS, 1 + int(d['f'] * 12), d['exc'])
            e = attempt(lambda: S.step(x), arm)
            core.ctx.op('abort', i, e)
            if e is None:
                done.append('stepped')
                return done
        elif d['k'] == 'bad':
            if i < 1 or attempt(lambda: S.step({'not': 'a number'})) is None:
                continue
            core.ctx.fault('unusable data point')
        else:
            snap.safe(queries.ask, S, d['q'])
        done.append(d['k'])
    return done


def finite(x):
    return np.isfinite(x)


def run(p):
    cfg = p['cfg']
    b = reference(lambda: gen.build_online(cfg))
    data = gen.stream(cfg)
    core.ctx.sig(cfg_sig(cfg), cfg['data'].get('dtype'), gen.has_nan(cfg['data']), p['mode'],
                 tuple(d['k'] for d in p['dist']))
    if p['mode'] == 'single':
        single(p, cfg, b, data)
    else:
        mixture(p, cfg, b, data)


def batch_fit(cfg, n):
    t = cfg['tms'][0][1]
    k = 'HyperStudy' if gen.combos(t, n) > 1 else 'Study'
    c = {'kind': k, 'om': cfg['om'], 'tm': t, 'data': core.with_key(cfg['data'], 'v', cfg['data']['v'][:n]), 'ts': None}
    r = gen.build(c)
    gen.do_fit(r.S, {'silent': True, 'forwardOnly': True})
    return c, r.S


def single(p, cfg, b, data):
    seg = gen.om_seg(cfg['om'])
    prev = None
    for i, x in enumerate(data):
        if 'stepped' not in disturb(b.S, p, i, x):
            try:
                b.S.step(x)
            except Exception as e:
                ok = attempt(lambda: batch_fit(cfg, i + 1)) if i + 1 >= seg else None
                if ok is None and not degenerate(cfg, i + 1):
                    raise Violation('step', 'step %d raises %s: %s, but a batch fit works' % (i, type(e).__name__, e))
                raise Skip('step rejected')
        core.ctx.op('step', i)
        if i + 1 < seg:
            continue
        if i + 1 != len(data) and (i + 1) % p['every']:
            prev = None
            continue
        c, r = reference(lambda: batch_fit(cfg, i + 1))
        if not finite(r.logEvidence):
            core.ctx.probe('data ruled out by the model')
            return
        what = 'step %d' % i
        for n in cfg['om']['names']:
            x1, d1 = b.S.getCurrentParameterDistribution(n)
            pds = r.getParameterDistribution(r.formattedTimestamps[-1], n)
            same([x1, d1], [pds[0], pds[1]], 'parameter', 'distribution of %s after %s' % (n, what), 1e-6, 1e-9)
            same(b.S.getCurrentParameterMeanValue(n), r.getParameterMeanValues(n)[-1], 'mean',
                 'mean value of %s after %s' % (n, what), 1e-6, 1e-8)
        if snap.is_hyper(c):
            for n in snap.hps(c):
                o = must(lambda: b.S.getCurrentHyperParameterDistribution(n), 'hyper', 'getCurrentHyperParameterDistribution')
                same(o, r.getHyperParameterDistribution(n), 'hyper', 'hyper-parameter distribution of %s after %s' %
                     (n, what), 1e-6, 1e-9)
        if prev is not None:
            same(float(b.S.logEvidence) - prev[0], float(r.logEvidence) - prev[1], 'evidence',
                 'change of evidence in %s' % what, 1e-6, 1e-7)
        prev = (float(b.S.logEvidence), float(r.logEvidence))
        core.ctx.probe('compared prefix')


def degenerate(cfg, n):
    try:
        c, r = batch_fit(cfg, n)
        return not finite(r.logEvidence)
    except Exception:
        return True


def mixture(p, cfg, b, data):
    k = len(cfg['tms'])
    alone = []
    for i in range(k):
        c = core.without(core.with_key(cfg, 'tms', [cfg['tms'][i]]), 'tmprior')
        alone.append(gen.build_online(c))
    seg = gen.om_seg(cfg['om'])
    last = np.zeros(k)
    for i, x in enumerate(data):
        for a in alone:
            reference(lambda: a.S.step(x))
        if 'stepped' not in disturb(b.S, p, i, x):
            must(lambda: b.S.step(x), 'step', 'step %d with several transition models' % i)
        core.ctx.op('step', i)
        if i + 1 < seg:
            continue
        L = np.array([float(a.S.logEvidence) for a in alone])
        if not np.all(np.isfinite(L)):
            core.ctx.probe('transition model ruled out')
            return
        pr = np.array(cfg.get('tmprior') or [1.] * k, dtype=float)
        pr /= pr.sum()
        flat = 'tmprior' not in cfg
        w = np.exp(L - L.max())
        w /= w.sum()
        if flat:
            same(list(b.S.getCurrentTransitionModelDistribution()[1]), list(w), 'probability',
                 'transition model probabilities after step %d' % i, 1e-6, 1e-9)
        lw = np.exp((L - last) - (L - last).max()) * pr
        lw /= lw.sum()
        same(list(b.S.getCurrentTransitionModelDistribution(local=True)[1]), list(lw), 'local',
             'local transition model probabilities after step %d' % i, 1e-6, 1e-9)
        last = L
        for n in cfg['om']['names'] if flat else []:
            m = sum(wi * a.S.getCurrentParameterDistribution(n)[1] for wi, a in zip(w, alone))
            same(b.S.getCurrentParameterDistribution(n)[1], m, 'mixture', 'distribution of %s after step %d' % (n, i),
                 1e-6, 1e-9)
            m = sum(wi * a.S.getCurrentParameterMeanValue(n) for wi, a in zip(w, alone))
            same(b.S.getCurrentParameterMeanValue(n), m, 'mixmean', 'mean value of %s after step %d' % (n, i), 1e-6, 1e-8)
        same(float(b.S.logEvidence), float(np.log(np.sum(pr * np.exp(L - L.max()))) + L.max()), 'mixevidence',
             'evidence after step %d' % i, 1e-6, 1e-8)
        core.ctx.probe('compared mixture')
