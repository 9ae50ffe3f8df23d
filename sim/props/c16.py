"""C16: a hyper-parameter fit is the mixture of the separate fits of all combinations."""
import itertools

import numpy as np

from .. import world
from .common import *

RUNS = {'quick': 1800, 'thorough': 40000}
RULE = 'distinct (study kind, models, hyper-parameter and prior layout) x (workers, worker mode, fit options, what ' \
       'happened to the study before)'


def plan(rng, tier):
    kind = rng.choice(['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=10, hi=7, need_vec=True)
    u = rng.random()
    if u < .04:
        cfg = gen.gen_many_cfg(rng)
        kind = cfg['kind']
    elif u < .09:
        kind, cfg = 'HyperStudy', gen.gen_extreme_cfg(rng)
    if rng.random() < .4:
        cfg['tm'] = shuffled(rng, cfg['tm'])
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        u = rng.random()
        if u < .35:
            ops.append({'op': 'abort', 'fit': gen.gen_fit(rng, kind), 'f': round(rng.random(), 4), 'exc': rng.choice(ABORT),
                        'nJobs': rng.choice([1, 1, 2])})
        elif u < .55:
            ops.append({'op': 'query'})
        else:
            ops.append({'op': 'fit', 'fit': gen.gen_fit(rng, kind), 'nJobs': rng.choice([1, 1, 2, 3, 5])})
    f = gen.gen_fit(rng, kind)
    ops.append({'op': 'fit', 'fit': f, 'nJobs': rng.choice([1, 1, 2, 3, 4, 7])})
    return {'cfg': cfg, 'ops': ops, 'mode': 'fork' if rng.random() < 0.2 else 'inproc', 'sched': rng.randrange(10 ** 9)}


def shuffled(rng, t):
    """other order of the values of hyper-parameters (and so of the fits)"""
    if 'sub' in t:
        return core.with_key(t, 'sub', [shuffled(rng, s) for s in t['sub']])
    if 'v' not in t or t['t'] in ('CP', 'BP'):
        return t
    vs = []
    for v in t['v']:
        if v[0] == 'cint':
            v = ['a', [round(float(x), 6) for x in np.linspace(v[1], v[2], v[3])]]
        if v[0] in ('l', 't', 'a') and rng.random() < .7:
            w = list(v[1])
            rng.shuffle(w)
            v = [v[0], w]
        vs.append(v)
    return core.with_key(t, 'v', vs)


def values(v, ts):
    if v[0] == 's':
        return [v[1]]
    if v[0] == 'all':
        return list(ts[:-1])
    if v[0] == 'cint':
        return [float(x) for x in np.linspace(v[1], v[2], v[3])]
    return list(v[1])


def priors(t):
    """name -> specification of the hyper-prior"""
    if 'sub' in t:
        out = {}
        for s in t['sub']:
            out.update(priors(s))
        return out
    return dict(zip(t.get('n', []), t.get('p', [])))


def weights(p, v, vals):
    """probabilities of the values of one hyper-parameter; False if they do not sum to one by construction"""
    n = len(vals)
    if p is None or p[0] == 'none' or v[0] == 's':
        return np.ones(n) / n, True
    if p[0] == 'arr':
        a = np.resize(np.array(p[1], dtype=float), n)
        return a / a.sum(), True
    if p[0] == 'fun':
        f = gen.user_function(p[1], pure=True)
        a = np.array([float(f(x)) for x in vals])
        return a / a.sum(), True
    x = np.array(vals, dtype=float)
    if p[1] == 'exp':
        a = .5 * np.exp(-.5 * x)
    elif p[1] == 'norm':
        a = np.exp(-(x - 1.) ** 2 / 18.) / (3. * np.sqrt(2 * np.pi))
    else:
        a = np.ones(n) / 10000.
    return a, False     # densities are not normalised on the grid


def mixture(cfg, fit):
    """the reference: separate fits of fresh studies with single values"""
    ts = gen.times(cfg)
    hp = gen.tm_hps(cfg['tm'])
    names = [n for n, v in hp]
    vals = [values(v, ts) for n, v in hp]
    pr = priors(cfg['tm'])
    ws = [weights(pr.get(n), v, x) for (n, v), x in zip(hp, vals)]
    exact = all(e for _, e in ws)
    pts = [i for i, n in enumerate(names) if n in gen.tm_points(cfg['tm'])]
    rows = []
    for idx in itertools.product(*[range(len(x)) for x in vals]):
        c = [x[i] for x, i in zip(vals, idx)]
        if cfg['kind'] == 'ChangepointStudy' and any(c[a] >= c[b] for a, b in zip(pts, pts[1:])):
            continue
        w = float(np.prod([w[0][i] for w, i in zip(ws, idx)]))
        one = core.with_key(cfg, 'kind', 'Study')
        one = core.with_key(one, 'tm', world.with_values(cfg['tm'], dict(zip(names, c))))
        b = gen.build(one)
        gen.do_fit(b.S, fit, silent=True)
        le = float(b.S.logEvidence)
        post = None if fit.get('evidenceOnly') else np.array(b.S.posteriorSequence)
        rows.append((idx, c, w, le, post))
    if not any(np.isfinite(r[3]) and r[2] > 0 for r in rows):
        raise Skip('no combination explains the data')
    if any(np.isnan(r[3]) for r in rows):
        raise Skip('evidence is not a number')
    W = np.array([r[2] for r in rows])
    if cfg['kind'] == 'ChangepointStudy' and exact:
        W = W / W.sum()
    L = np.array([r[3] for r in rows])
    top = L[np.isfinite(L)].max()
    with np.errstate(divide='ignore'):
        P = W * np.exp(L - top)
    out = {}
    if exact:
        out['logEvidence'] = float(top + np.log(P.sum()))
    P = P / P.sum()
    if not fit.get('evidenceOnly'):
        post = sum(p * r[4] for p, r in zip(P, rows) if p > 0)
        post = post / post.reshape(len(post), -1).sum(axis=1).reshape((-1,) + (1,) * (post.ndim - 1))
        out['post'] = post
    for i, n in enumerate(names):
        m = np.zeros(len(vals[i]))
        for p, r in zip(P, rows):
            m[r[0][i]] += p
        out['hpd.' + n] = m
    return out, names, vals, len(rows)


def observed(S, fit, ref, names):
    out = {}
    if 'logEvidence' in ref:
        out['logEvidence'] = float(S.logEvidence)
    if 'post' in ref:
        out['post'] = np.array(S.posteriorSequence)
    for n in names:
        x, d = S.getHyperParameterDistribution(n)
        out['hpd.' + n] = np.atleast_1d(d) / np.sum(d)
    return out


def run(p):
    cfg = p['cfg']
    pool.reset(p['sched'], p['mode'])
    b = reference(lambda: gen.build(cfg))
    refs = {}
    before = []
    for o in p['ops']:
        f = o.get('fit')
        if o['op'] == 'query':
            for n in cfg['om']['names']:
                snap.safe(b.S.getParameterDistributions, n)
            for n in snap.hps(cfg):
                snap.safe(b.S.getHyperParameterDistribution, n)
        elif o['op'] == 'abort':
            attempt(lambda: gen.do_fit(b.S, f, nJobs=o['nJobs']), faults.Arm(ABORTPOINTS, 1 + int(o['f'] * 80), o['exc']))
        else:
            k = bool(f.get('evidenceOnly')), bool(f.get('forwardOnly'))
            if k not in refs:
                refs[k] = reference(lambda: mixture(cfg, f))
            ref, names, vals, n = refs[k]
            if n < 2:
                raise Skip('single combination')
            must(lambda: gen.do_fit(b.S, f, nJobs=o['nJobs']), 'raise', 'fit with %d workers' % o['nJobs'])
            got = must(lambda: observed(b.S, f, ref, names), 'raise', 'queries')
            same(got, ref, 'mixture', 'fit with %d workers against the mixture of %d separate fits' % (o['nJobs'], n),
                 1e-6, 1e-9)
            core.ctx.op('fit', o['nJobs'], n, k)
            core.ctx.probe('combinations', n)
            core.ctx.sig(cfg_sig(cfg), sorted(str(x and x[0]) for x in priors(cfg['tm']).values()), o['nJobs'], p['mode'],
                         k, tuple(before[-1:]))
            if o['nJobs'] > 1:
                core.ctx.fault('completion order')
        before.append(o['op'])
