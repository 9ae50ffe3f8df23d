"""Catalogue of queries, plots, simulations and expressions a user can ask a study, as plain JSON specifications."""
import numpy as np

from . import gen, snap

ALIAS = {'cpd': 'getCPD', 'pd': 'getPD', 'pds': 'getPDs', 'ctmd': 'getCTMD', 'ctmp': 'getCTMP', 'tmps': 'getTMPs',
         'chpd': 'getCHPD', 'hpd': 'getHPD', 'hpds': 'getHPDs', 'jhpd': 'getJHPD', 'dd': 'getDD'}

FULL = {'cpd': 'getCurrentParameterDistribution',
        'pd': 'getParameterDistribution',
        'pds': 'getParameterDistributions',
        'ctmd': 'getCurrentTransitionModelDistribution',
        'ctmp': 'getCurrentTransitionModelProbability',
        'tmps': 'getTransitionModelProbabilities',
        'chpd': 'getCurrentHyperParameterDistribution',
        'hpd': 'getHyperParameterDistribution',
        'hpds': 'getHyperParameterDistributions',
        'jhpd': 'getJointHyperParameterDistribution',
        'dd': 'getDurationDistribution'}

BAD_EXPR = ['', 'nosuch@1 > 2', '{p} > 1 > 0', '({p}@{t}', '{p}@{t} + {q}@99999', 'exp(', '{p} + {p}', '1', '{p}@{t} =< 2']


def study_times(cfg):
    t = gen.times(cfg)
    return t


def online_times(cfg, n):
    """time stamps of an online study after n data points"""
    s = gen.om_seg(cfg['om']) - 1
    return list(range(s, max(n, s)))


def sim_points(rng, cfg):
    dk = cfg['om']['dk']
    if dk == 'pair':
        return [[1., .5], [3., 1.], [2., .7]]
    if dk == 'binary':
        return [0, 1]
    if dk == 'count':
        return [0, 1, 2, 5]
    return [-1., 0., .5, 2., 7.]


def pick(rng, l, bad):
    return rng.choice(l) if l and rng.random() > bad else rng.choice(['nope', 3, None])


def gen_t(rng, ts, bad, avg=True):
    if rng.random() < bad:
        return rng.choice([-7, 12345.5, 'x', None])
    if avg and rng.random() < .2:
        return 'avg'
    return rng.choice(ts) if ts else 0


def gen_expr(rng, cfg, ts, hp, bad):
    ps = cfg['om']['names']
    p, q = rng.choice(ps), rng.choice(ps)
    t = rng.choice(ts) if ts else 0
    u = rng.choice(ts) if ts else 0
    if rng.random() < bad:
        return rng.choice(BAD_EXPR).format(p=p, q=q, t=t, u=u), None
    l = [('{p}@{t} > 1.2', 0), ('{p}@{t} > {q}@{u}', 0), ('abs({p}) < 2.', 1), ('{p}', 1), ('{p}@{t} - {p}@{u} > 0', 0),
         ('{p} + {q} > 2', 1), ('2*{p}@{t} == 2', 0), ('{p}@{t}*{p}@{u}', 0), ('log({p}) > 0', 1), ('1/{p}', 1),
         ('{p}@{t}', 0)]
    if hp:
        h = rng.choice(hp)
        l += [(h + ' > 0.3', 0), (h + '*{p}@{t} >= 1', 0), ('{p} > ' + h, 1), ('sqrt(' + h + '^2) < 1', 1)] * 2
    e, needt = rng.choice(l)
    return e.format(p=p, q=q, t=t, u=u), (rng.choice(ts) if ts and needt else None)


def gen_query(rng, cfg, plots=True, bad=0.08, n=None, only=None, threads=False):
    """cfg: configuration of the study; n: number of data points seen by an online study"""
    online = cfg['kind'] == 'OnlineStudy'
    ps = cfg['om']['names']
    plot = plots and rng.random() < .4
    if online:
        ts = online_times(cfg, n)
        hp = [h for h, v in gen.online_hps(cfg) if v[0] != 's' or rng.random() < .1]
        tmn = [gen.tm_name(cfg, i) for i in range(len(cfg['tms']))]
        kinds = ['cpd', 'cpd', 'cpm', 'pd', 'pds', 'pmv', 'pmvs', 'ctmd', 'ctmp', 'tmds', 'tmps', 'eval', 'sim', 'ev']
        if hp:
            kinds += ['chpd', 'chpd', 'hpd', 'hpds', 'hpm', 'hpms', 'hpv']
        if plots:
            kinds += ['plot', 'plot', 'plotevo', 'plothevo']
    else:
        ts = study_times(cfg)
        hp = snap.hps(cfg)
        tmn = []
        kinds = ['pd', 'pd', 'pds', 'pmvs', 'sim', 'eval', 'eval', 'ev']
        if plots:
            kinds += ['plot', 'plot', 'plotevo']
        if hp:
            kinds += ['hpv']
        if snap.is_hyper(cfg):
            kinds += ['hpd', 'hpd'] + (['jhpd', 'jhpd'] if len(hp) > 1 else [])
        if cfg['kind'] == 'ChangepointStudy':
            kinds += ['dd', 'dd']
    if cfg['om']['cls'] in ('AR1', 'ScaledAR1'):
        kinds += ['ar1']
    k = rng.choice([x for x in kinds if only is None or x in only] or kinds)
    q = {'q': k}
    if k in ('cpd', 'cpm', 'pds', 'pmvs', 'pd', 'pmv', 'plotevo'):
        q['name'] = pick(rng, ps, bad)
    if k in ('pd', 'pmv', 'hpm') or (k == 'hpd' and online):
        q['t'] = gen_t(rng, ts, bad)
    if k in ('pd', 'pds', 'cpd'):
        q['density'] = rng.random() < .6
    if k in ('pd', 'pds', 'cpd', 'hpd', 'chpd', 'jhpd', 'dd'):
        q['plot'] = plot
        if plot and rng.random() < .3:
            q['kw'] = rng.choice([{'color': 'r'}, {'alpha': .5}, {'nosuchoption': 3}])
    if k in ('chpd', 'hpd', 'hpds', 'hpm', 'hpms', 'hpv', 'plothevo'):
        q['name'] = pick(rng, hp, bad)
    if k in ('jhpd', 'dd'):
        v = snap.vec_hps(cfg)
        if k == 'dd' and rng.random() > bad:
            v = [h for h in v if h in gen.tm_points(cfg['tm'])]
        if len(v) < 2 and len(hp) > 1:
            v = hp
        q['names'] = [pick(rng, v, bad), pick(rng, v, bad)] if rng.random() < bad or len(v) < 2 else rng.sample(v, 2)
    if k in ('ctmp', 'tmps'):
        q['name'] = pick(rng, tmn, bad)
    if k in ('ctmd', 'ctmp', 'tmds', 'tmps'):
        q['local'] = rng.random() < .4
    if k == 'eval':
        q['expr'], q['t'] = gen_expr(rng, cfg, ts, hp, bad)
        q['silent'] = rng.random() < .7
        q['parser'] = rng.choice([False, False, False, 'new'] + ([] if threads else ['kept', 'two']))
        if q['parser'] == 'two' and rng.random() < .8:
            q['expr'] = q['expr'] + rng.choice([' + zeta@1', '*zeta@0']) if '>' not in q['expr'] else \
                rng.choice(['zeta@1*', 'zeta@2 + ']) + q['expr']
    if k == 'sim':
        q['x'] = sim_points(rng, cfg)
        q['t'] = gen_t(rng, ts, bad, avg=False) if rng.random() < .6 else None
        q['density'] = rng.random() < .5
        q['arr'] = rng.random() < .5
    if k == 'plot':
        q['name'] = pick(rng, ps + (hp if online or snap.is_hyper(cfg) else []) + tmn, bad)
        q['kw'] = {}
        if rng.random() < .4:
            q['kw']['t'] = gen_t(rng, ts, bad)
        if rng.random() < .3:
            q['kw']['color'] = 'r'
        if rng.random() < .2:
            q['kw']['density'] = False
        if rng.random() < .2:
            q['kw']['gamma'] = .7
        if rng.random() < .2 and online:
            q['kw']['local'] = True
        if rng.random() < bad:
            q['kw']['nosuchoption'] = 1
    if k in ALIAS and rng.random() < .35:
        q['alias'] = True
    return q


def ask(S, q, reg=None, raw=False):
    """asks a query; the value is returned as the study gives it (raw) or as a private copy"""
    v = _ask(S, q, reg or (lambda x: x))
    return v if raw else snap.own(v)


def _ask(S, q, reg):
    import bayesloop as bl
    k = q['q']
    kw = dict(q.get('kw', {}))
    if q.get('plot') is not None:
        kw['plot'] = q['plot']
    f = getattr(S, ALIAS[k] if q.get('alias') else FULL[k]) if k in ALIAS else None
    if k == 'cpd':
        return f(q['name'], density=q['density'], **kw)
    if k == 'cpm':
        return S.getCurrentParameterMeanValue(q['name'])
    if k == 'pd':
        return f(q['t'], q['name'], density=q['density'], **kw)
    if k == 'pds':
        return f(q['name'], density=q['density'], **kw)
    if k == 'pmv':
        return S.getParameterMeanValue(q['t'], q['name'])
    if k == 'pmvs':
        return S.getParameterMeanValues(q['name'])
    if k == 'ctmd':
        return f(local=q['local'])
    if k == 'ctmp':
        return f(q['name'], local=q['local'])
    if k == 'tmds':
        return S.getTransitionModelDistributions(local=q['local'])
    if k == 'tmps':
        return f(q['name'], local=q['local'])
    if k == 'chpd':
        return f(q['name'], **kw)
    if k == 'hpd':
        if 't' in q:
            return f(q['t'], q['name'], **kw)
        return f(q['name'], **kw)
    if k == 'hpds':
        return f(q['name'])
    if k == 'hpm':
        return S.getHyperParameterMeanValue(q['t'], q['name'])
    if k == 'hpms':
        return S.getHyperParameterMeanValues(q['name'])
    if k == 'hpv':
        return S.getHyperParameterValue(q['name'])
    if k == 'jhpd':
        return f(reg(list(q['names'])), **kw)
    if k == 'dd':
        return f(reg(list(q['names'])), **kw)
    if k == 'ev':
        return [S.logEvidence, S.log10Evidence]
    if k == 'ar1':
        return bl.computeJeffreysPriorAR1(S)
    if k == 'eval':
        if q['parser'] == 'two':
            A = auxiliary()
            P = bl.Parser(S, A)
            v = P(q['expr'], t=q['t'], silent=q['silent'])
            return [v, A.getParameterMeanValues('zeta'), A.logEvidence]
        if q['parser']:
            P = parser(S) if q['parser'] == 'kept' else bl.Parser(S)
            return P(q['expr'], t=q['t'], silent=q['silent'])
        return S.eval(q['expr'], t=q['t'], silent=q['silent'])
    if k == 'sim':
        return S.simulate(reg(np.array(q['x']) if q['arr'] else list(q['x'])), t=q['t'], density=q['density'])
    if k == 'plot':
        return S.plot(q['name'], **kw)
    if k == 'plotevo':
        return S.plotParameterEvolution(q['name'])
    if k == 'plothevo':
        return S.plotHyperParameterEvolution(q['name'])
    raise ValueError(k)


KEPT = []
AUX = []


def parser(S):
    """a parser that the user keeps while the study goes on"""
    import bayesloop as bl
    for s, p in KEPT:
        if s is S:
            return p
    p = bl.Parser(S)
    if np.isfinite(S.logEvidence) and S.logEvidence != 0:   # names are complete after the first analysis only
        KEPT.append((S, p))
    return p


def auxiliary():
    """a second study that takes part in expressions"""
    import bayesloop as bl
    if not AUX:
        A = bl.Study(silent=True)
        A.loadData(np.array([.3, 1.2, .8]), silent=True)
        A.setOM(bl.om.WhiteNoise('zeta', np.array([.5, 1., 1.5])), silent=True)
        A.setTM(bl.tm.GaussianRandomWalk('zs', .3, target='zeta'), silent=True)
        A.fit(silent=True)
        AUX.append(A)
    return AUX[0]


def arrays(v):
    """all arrays and lists of a returned value"""
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x)]
    return []


def uses_plot(q):
    return bool(q.get('plot')) or q['q'].startswith('plot')


def close():
    import matplotlib.pyplot as plt
    plt.close('all')
