"""Worlds of several studies that share model instances and data (used by C04, C06, C12, C15)."""
from . import core, gen


def variant_oms(rng, n, small=True):
    """n observation models with the same parameter names, so that transition models fit to all of them"""
    base = gen.gen_om(rng, small, simple=True)
    nd = len(base['names'])
    names = ['pa', 'pb', 'pc'][:nd]
    if base['cls'] == 'SciPy':
        names = base['names']
    out = []
    for i in range(n):
        o = base
        if i:
            if rng.random() < 0.5 or base['cls'] in ('SciPy', 'Poisson', 'GaussianMean', 'Bernoulli'):
                cls = [base['cls']]
            else:
                cls = {1: ['WhiteNoise', 'NumPy'], 2: ['Gaussian', 'Laplace', 'AR1', 'ScaledAR1', 'NumPy'],
                       3: ['NumPy']}[nd]
            for _ in range(200):
                o = gen.gen_om(rng, small, cls=cls, dims=[nd])
                if (o['dk'] == 'pair') == (base['dk'] == 'pair') and \
                        (o.get('rv') == base.get('rv') or base['cls'] != 'SciPy'):
                    break
            else:
                o = base
            if rng.random() < 0.35 and o['cls'] == base['cls'] and o.get('fn') == base.get('fn'):
                # same number of values, other range: looks alike to anything keyed on the size
                gs = []
                for g in base['grids']:
                    gs.append(g[:1] + [g[1], round(g[1] + (g[2] - g[1]) * rng.choice([.5, .8]), 3), g[3]]
                              if g[0] in ('oint', 'cint') else g)
                o = core.with_key(base, 'grids', gs)
            elif rng.random() < .2 and o['cls'] == base['cls'] and o.get('fn') == base.get('fn'):
                # same range and number of values, other values in between
                o = core.with_key(base, 'grids', [skewed(rng, g) for g in base['grids']])
        o = core.with_key(o, 'names', names)
        out.append(o)
    return out


def skewed(rng, g):
    v = [float(x) for x in gen.build_grid(g)]
    if len(v) < 4:
        return g
    c = sorted(rng.uniform(v[0], v[-1]) for _ in v[1:-1])
    return ['arr', [v[0]] + [round(x, 4) for x in c] + [v[-1]]]


def gen_world(rng, nstud=None, nom=None, online=True, opt=True, budget=6, hi=7):
    oms = variant_oms(rng, nom or rng.randint(1, 3))
    n = rng.randint(2, 3)
    datas = []
    isint = all(o['cls'] == 'Poisson' for o in oms)
    for _ in range(n):
        d = gen.gen_data(rng, rng.choice([o for o in oms if isint or o['cls'] != 'Poisson'] or oms), hi=hi,
                         multi=all(o['cls'] != 'NumPy' for o in oms),
                         missing=not isint, lo=5)
        datas.append({'data': d, 'ts': gen.gen_ts(rng, len(d['v']))})
    if rng.random() < .15:
        d = ruled_out(rng, rng.choice(datas))
        if d is not None:
            datas.append(d)
    if all(o['dk'] == 'count' for o in oms) and rng.random() < .3:
        datas.append(gen.example())
    ts0 = datas[0]['ts']['v'] if datas[0]['ts'] else list(range(len(datas[0]['data']['v'])))
    small_om = max(oms, key=lambda o: sum(x % 2 for x in gen.om_shape(o)))
    names = gen.Names(rng)
    again = rng.random() < .4    # the names of hyper-parameters occur again in other models
    last = 0
    tms = []
    for k in ['s', rng.choice(['s', 'v']), rng.choice(['s', 'v', 'v', 'c'])][:rng.randint(1, 3)]:
        if again:
            last, names.i = max(last, names.i), 0
        if k == 'c':
            t = gen.gen_cp_tm(rng, small_om, ts0[1:], 12)
            if t is None:
                k = 'v'
        if k != 'c':
            while True:
                t = gen.gen_tm(rng, small_om, ts0[1:], k == 'v', budget, names)
                if gen.combos(t, hi) <= budget * 1.5 and not any(v[0] == 'all' for _, v in gen.tm_hps(t)) \
                        and not gen.hyper_overlap(t, ts0):
                    break
        tms.append([k, t])
    names.i = max(last, names.i)
    if rng.random() < .25:
        look_alike(rng, tms, small_om, ts0[1:], budget, hi)
    if rng.random() < .35:
        share_parts(rng, tms, small_om, ts0[1:], names, budget, hi)
    if any(gen.combos(t, 110) > 120 for k, t in tms):   # too many change-points for a long data set
        datas = [d for d in datas if len(d['data']['v']) < 60]
    ns = nstud or rng.randint(1, 3)
    kinds = []
    have = [k for k, _ in tms]
    for _ in range(ns):
        o = ['Study', 'HyperStudy'] + (['ChangepointStudy'] * 2 if 'c' in have else []) + (['OnlineStudy'] if online
                                                                                          else [])
        kinds.append(rng.choice(o))
    return {'oms': oms, 'datas': datas, 'tms': tms, 'kinds': kinds}


def ruled_out(rng, d):
    """a data set with a value that is impossible under all models"""
    v = list(d['data']['v'])
    if d['data']['dk'] not in ('real', 'centred', 'pair'):
        return None
    i = rng.randrange(len(v))
    if isinstance(v[i], list):
        v[i] = [1e5 if j == 0 else x for j, x in enumerate(v[i])]
    else:
        v[i] = 1e5
    return {'data': core.with_key(d['data'], 'v', v), 'ts': d['ts']}


def leaves(t):
    return [x for s in t['sub'] for x in leaves(s)] if 'sub' in t else [t] if t['t'] not in ('CP', 'BP') else []


def look_alike(rng, tms, om, ts, budget, hi):
    """adds a transition model that differs from another one in a detail only"""
    if rng.random() < .4:
        t = gen.gen_leaf(rng, om, gen.Names(rng), rng.random() < .4, budget, ts, True, kinds=['Det'])
        if gen.combos(t, hi) <= budget:
            tms.append(['v' if any(v[0] != 's' for v in t['v']) else 's', t])
    cand = [(k, t, x) for k, t in tms for x in leaves(t) if x['t'] not in ('Static', 'Independent')]
    if not cand:
        return
    det = [c for c in cand if c[2]['t'] == 'Det']
    k, t, pick = rng.choice(det if det and rng.random() < .6 else cand)
    new = dict(pick)
    other = [n for n in om['names'] if n != pick.get('target')]
    if pick['t'] == 'Det' and (not other or rng.random() < .7):
        new['alt'] = '' if new.get('alt') else '@'
    elif pick.get('target') is not None and other:
        new['target'] = rng.choice(other)
    elif pick['t'] in ('RS', 'NE'):
        new['t'] = {'RS': 'NE', 'NE': 'RS'}[pick['t']]
    elif any(pick.get('p', [])):
        new['p'] = [None] * len(pick['p'])
    else:
        return

    def change(m):
        if m is pick:
            return new
        return core.with_key(m, 'sub', [change(s) for s in m['sub']]) if 'sub' in m else m
    tms.append([k, change(t)])


def share_parts(rng, tms, om, ts, names, budget, hi):
    """adds transition models that contain (or are) an instance which is part of another model, too"""
    src = [i for i, (k, t) in enumerate(tms) if leaves(t)]
    if not src:
        return
    i = rng.choice(src)
    k, t = tms[i]
    pick = rng.choice([x for x in leaves(t) if x['t'] not in ('Static', 'Independent')] or leaves(t))
    part = core.with_key(pick, 'id', 'x')

    def mark(m):
        if m is pick:
            return part
        return core.with_key(m, 'sub', [mark(s) for s in m['sub']]) if 'sub' in m else m
    new = mark(t)
    vec = any(v[0] != 's' for v in part.get('v', []))
    other = rng.choice([{'t': 'Static'}, {'t': 'Independent'}, {'t': 'RS', 'n': [names()], 'v': [['s', -2.]], 'p': [None],
                                                                'target': None}])
    b = {'t': rng.choice(['BP', 'BP', 'CP']), 'n': [names()], 'v': [['s', rng.choice(ts[:-1])]], 'p': [None]}
    forms = [part, {'t': 'Combined', 'sub': rng.sample([part, other], 2)},
             {'t': 'Serial', 'sub': [other, b, part]}, {'t': 'Serial', 'sub': [part, b, other]}]
    used = [n for n, v in gen.tm_hps(new)]
    add = rng.sample([f for f in forms if f != new], rng.randint(1, 2))
    if len(set(used)) < len(used):
        return
    tms[i] = [k, new]
    for f in add:
        if gen.combos(f, hi) <= budget * 1.5:
            tms.append(['v' if vec else 's', f])


def ids_of(t):
    return ({t['id']} if 'id' in t else set()) | set(x for s in t.get('sub', []) for x in ids_of(s))


def optimised(specs, i, vals):
    """transition model specs after the values of model i were set (shared parts carry them to other models)"""
    ids = ids_of(specs[i])

    def f(t, on):
        on = on or t.get('id') in ids
        if 'sub' in t:
            return core.with_key(t, 'sub', [f(s, on) for s in t['sub']])
        return with_values(t, vals) if on else t
    return [f(t, j == i) for j, t in enumerate(specs)]


def compatible(kind, tms):
    ok = {'Study': 's', 'HyperStudy': 'sv', 'ChangepointStudy': 'c', 'OnlineStudy': 'sv'}[kind]
    return [i for i, (k, t) in enumerate(tms) if k in ok]


def cfg_of(w, s, om, tm, d):
    """configuration of study s"""
    return {'kind': w['kinds'][s], 'om': w['oms'][om], 'tm': w['tms'][tm][1], 'data': w['datas'][d]['data'],
            'ts': w['datas'][d]['ts'], 'fit': {}}


def with_values(t, vals):
    """transition model spec with scalar values replaced"""
    if 'sub' in t:
        return core.with_key(t, 'sub', [with_values(s, vals) for s in t['sub']])
    if 'v' not in t:
        return t
    return core.with_key(t, 'v', [['s', vals[n]] if n in vals else v for n, v in zip(t['n'], t['v'])])
