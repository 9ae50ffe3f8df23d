"""Studies for the properties of storage, and what identifies them."""
import numpy as np

from . import core, faults, gen, queries, snap


def gen_study(rng, big=None, online=True, simple=True):
    """specification of a study in some state of its analysis"""
    if big is None:
        big = rng.random() < .12
    if big:
        n = rng.randint(30, 60)
        om = {'cls': 'Gaussian', 'names': ['mu', 'sd'], 'roles': ['mu', 'sd'], 'dk': 'real', 'prior': ['default'],
              'grids': [['cint', -2, 6, n], ['oint', 0, 3, rng.randint(20, 40)]]}
        cfg = {'kind': 'Study', 'om': om, 'data': gen.gen_data(rng, om, n=rng.randint(8, 30), multi=False), 'ts': None,
               'tm': {'t': 'GRW', 'n': ['h1'], 'v': [['s', .3]], 'p': [None], 'target': 'mu'}, 'fit': {'silent': True}}
        return {'cfg': cfg, 'state': 'fit', 'fit': {'silent': True}}
    if online and rng.random() < .3:
        cfg = gen.gen_online(rng, hi=6, simple=simple)
        return {'cfg': cfg, 'state': 'steps', 'n': rng.randint(0, len(cfg['data']['v']))}
    cfg = gen.gen_cfg(rng, small=True, budget=6, hi=7, simple=simple)
    f = gen.gen_fit(rng, cfg['kind'])
    f['silent'] = True
    s = {'cfg': cfg, 'state': rng.choice(['set', 'fit', 'fit', 'fit']), 'fit': f}
    if cfg['om']['cls'] in gen.ESTIMATE and len(cfg['om']['names']) == 1 and rng.random() < .15:
        gen.estimated(rng, cfg['om'])
    if rng.random() < .2:   # other data are loaded after the models were set or the fit was done
        s['other'] = rng.choice([2, 3])
    return s


def build(s):
    cfg = s['cfg']
    if s['state'] == 'steps':
        b = gen.build_online(cfg)
        for x in gen.stream(cfg)[:s['n']]:
            b.S.step(x)
    else:
        b = gen.build(cfg)
        if s['state'] == 'fit':
            gen.do_fit(b.S, s['fit'])
        if s.get('other'):
            d = gen.build_data(cfg['data'])
            b.S.loadData(np.array(d) * s['other'] if cfg['om']['cls'] != 'Bernoulli' else d[::-1], silent=True,
                         timestamps=gen.build_ts(cfg.get('ts')))
    return b.S


def observe(S, s):
    """everything that a user can see of the study"""
    cfg = s['cfg']
    if type(S).__name__ != cfg['kind']:
        return {'type': type(S).__name__}
    o = {'type': type(S).__name__, 'raw': snap.safe(lambda: np.array(S.rawData, dtype=float)),
         'grid': snap.safe(lambda: [np.array(g, dtype=float) for g in S.grid]),
         'om': snap.safe(lambda: str(S.observationModel)),
         'names': snap.safe(lambda: list(S.observationModel.parameterNames))}
    if s['state'] == 'steps':
        o.update(snap.online(S, cfg))
    else:
        o['values'] = snap.hp_values(S, cfg)
        if s['state'] == 'fit':
            o.update(snap.batch(S, cfg, s['fit']))
    return o


def which(o, known):
    """name of the study that has been observed, or None"""
    for k in sorted(known):
        if not snap.diff(o, known[k], 1e-9, 1e-12):
            return k
    return None
