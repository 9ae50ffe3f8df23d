"""Generation of study configurations as plain JSON (plans) and construction of fresh objects from them."""
import math

import numpy as np

from . import core, faults

# ----------------------------------------------------------------------------------------------------------------
# user code: functions as a user would write them.  They live in a namespace that cannot be imported, so they are
# stored by value (like functions from a script or notebook).  Each call is an abort point.

SRC = {
    'like_g1': "def like_g1(data, mu):\n    _pt('user')\n    return np.exp(-(data - mu)**2/2.)/2.5066282746",
    'like_pair': "def like_pair(data, mu):\n    _pt('user')\n    x, s = data\n"
                 "    return np.exp(-(x - mu)**2/(2.*s**2))/(2.5066282746*s)",
    'like_g2': "def like_g2(data, mu, sd):\n    _pt('user')\n    return np.exp(-(data - mu)**2/(2.*sd**2))/(2.5066282746*sd)",
    'like_g3': "def like_g3(data, mu, sd, aux):\n    _pt('user')\n"
               "    return np.exp(-(data - mu - .3*aux)**2/(2.*sd**2))/(2.5066282746*sd)",
    'like_obj': "def like_obj(data, mu):\n    _pt('user')\n"
                "    return (np.exp(-np.abs(data - mu)/2.)/4.).astype(object)",
    # priors of parameters
    'pr_one1': "pr_one1 = lambda x: (_pt('user'), 1.)[1]",
    'pr_id1': "pr_id1 = lambda x: (_pt('user'), x)[1]",
    'pr_exp1': "pr_exp1 = lambda x: (_pt('user'), np.exp(-np.abs(x)/3.))[1]",
    'pr_inv2': "pr_inv2 = lambda m, s: (_pt('user'), 1./s)[1]",
    'pr_gau2': "pr_gau2 = lambda m, s: (_pt('user'), np.exp(-(m - 2.)**2/8.)/(1. + s))[1]",
    'pr_sec2': "pr_sec2 = lambda m, s: (_pt('user'), s)[1]",
    'pr_gau3': "pr_gau3 = lambda m, s, a: (_pt('user'), np.exp(-(m - 2.)**2/8.)/(1. + s + a**2))[1]",
    # densities that integrate to about one on the usual grids
    'pr_den1': "pr_den1 = lambda x: (_pt('user'), np.exp(-(x - 2.)**2/2.)/2.5066282746)[1]",
    'pr_uni1': "pr_uni1 = lambda x: (_pt('user'), .125)[1]",
    'pr_den2': "pr_den2 = lambda m, s: (_pt('user'), np.exp(-(m - 2.)**2/2.)/2.5066282746*s*np.exp(-s))[1]",
    'pr_uni2': "pr_uni2 = lambda m, s: (_pt('user'), .125/3)[1]",
    # hyper-priors
    'hp_cauchy': "hp_cauchy = lambda v: (_pt('user'), 1./(1. + v**2))[1]",
    'hp_lin': "hp_lin = lambda v: (_pt('user'), 1. + abs(v))[1]",
    # deterministic transition functions (defaults are set per instance)
    'det_lin': "def det_lin(t, {0}=0):\n    _pt('user')\n    return {0}*t",
    # another function of the same name
    'det_lin@': "def det_lin(t, {0}=0):\n    _pt('user')\n    return .3*{0}*(t % 3)",
    'det_quad@': "def det_quad(t, {0}=0, {1}=0):\n    _pt('user')\n    return {1}*(t % 2) - {0}*t",
    'det_quad': "def det_quad(t, {0}=0, {1}=0):\n    _pt('user')\n    return {0}*t**2 + {1}*t",
}


def user_function(name, args=(), defaults=None, pure=False):
    ns = {'np': np, '__name__': 'simuser', '_pt': _nopoint if pure else faults.point}
    exec(SRC[name].format(*args), ns)
    f = ns[name.rstrip('@')]
    if defaults is not None:
        f.__defaults__ = tuple(defaults)
    return f


def _nopoint(kind):
    return None


# ----------------------------------------------------------------------------------------------------------------
# values

def dec(v):
    """JSON -> number (None is NaN)"""
    if isinstance(v, list):
        return [dec(x) for x in v]
    return float('nan') if v is None else v


def build_grid(g):
    """parameter values from a grid spec"""
    if g is None:
        return None
    kind = g[0]
    if kind == 'oint':
        return np.linspace(g[1], g[2], g[3] + 2)[1:-1]
    if kind == 'cint':
        return np.linspace(g[1], g[2], g[3])
    if kind == 'list':
        return [float(x) for x in g[1]]
    if kind == 'arr':
        return np.array(g[1], dtype=float)
    if kind == 'iarr':
        return np.array(g[1], dtype=int)
    raise ValueError(kind)


def grid_len(g):
    return g[3] if g[0] in ('oint', 'cint') else len(g[1])


def build_data(d):
    vals = dec(d['v'])
    if d.get('as') == 'list':
        return vals
    a = np.array(vals, dtype=int if d.get('dtype') == 'int' else float)
    lay = d.get('lay')
    if lay == 'strided':   # every second row of a larger array
        b = np.zeros((2*len(a),) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if lay == 'reversed':
        return a[::-1].copy()[::-1]
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'ro':
        a.flags.writeable = False
    return a


def build_ts(ts):
    if ts is None:
        return None
    return np.array(ts['v']) if ts.get('as') == 'arr' else list(ts['v'])


# ----------------------------------------------------------------------------------------------------------------
# priors of parameters

def build_prior(p, shape, reg):
    """returns (given, prior)"""
    k = p[0]
    if k == 'default':
        return False, None
    if k == 'none':
        return True, None
    if k == 'arr':
        v = np.array(p[1], dtype=float)
        n = int(np.prod(shape))
        a = np.resize(v, n).reshape(shape).copy()
        if p[2] == 'norm':
            a /= a.sum()
        return True, reg(a)
    if k == 'fun':
        return True, user_function(p[1])
    if k == 'sym':
        import sympy.stats as st
        rvs = []
        for i, s in enumerate(p[1]):
            rvs.append({'exp': lambda: st.Exponential('e%d' % i, 0.5), 'norm': lambda: st.Normal('n%d' % i, 2, 3),
                        'uni': lambda: st.Uniform('u%d' % i, -10, 10)}[s]())
        return True, (rvs[0] if len(rvs) == 1 and p[2] else reg(rvs))
    raise ValueError(k)


def build_hprior(p, n, reg):
    if p is None or p[0] == 'none':
        return None
    if p[0] == 'arr':
        a = np.resize(np.array(p[1], dtype=float), n).copy()
        if p[2] == 'norm':
            a /= a.sum()
        return reg(a)
    if p[0] == 'fun':
        return user_function(p[1])
    if p[0] == 'sym':
        import sympy.stats as st
        return {'exp': lambda: st.Exponential('he', 0.5), 'norm': lambda: st.Normal('hn', 1, 3),
                'uni': lambda: st.Uniform('hu', -5000, 5000)}[p[1]]()
    raise ValueError(p)


class Reg(object):
    """registers every mutable input object handed to the code under test, together with a private copy"""

    def __init__(self, ro=False):
        self.items = []
        self.ro = ro     # arrays are handed over write-protected

    def __call__(self, obj):
        if self.ro and isinstance(obj, np.ndarray):
            obj.flags.writeable = False
        if isinstance(obj, (np.ndarray, list, dict)):
            self.items.append((obj, _copy(obj)))
        return obj

    def changed(self):
        for i, (o, c) in enumerate(self.items):
            if not _equal(o, c):
                return i, o, c
        return None


def _copy(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, (list, tuple)):
        return type(o)(_copy(x) for x in o)
    if isinstance(o, dict):
        return dict((k, _copy(v)) for k, v in o.items())
    return o


def _equal(o, c):
    if o is c:
        return True
    if isinstance(c, np.ndarray):
        return isinstance(o, np.ndarray) and o.shape == c.shape and o.dtype == c.dtype and \
            np.array_equal(o, c, equal_nan=o.dtype.kind == 'f')
    if isinstance(c, (list, tuple)):
        return type(o) is type(c) and len(o) == len(c) and all(_equal(x, y) for x, y in zip(o, c))
    if isinstance(c, dict):
        return isinstance(o, dict) and list(o) == list(c) and all(_equal(o[k], c[k]) for k in c)
    try:
        return bool(o == c) or bool(o != o and c != c)
    except Exception:
        return False


# ----------------------------------------------------------------------------------------------------------------
# observation models

def om_shape(om):
    return [grid_len(g) for g in om['grids']]


def om_seg(om):
    return 2 if om['cls'] in ('AR1', 'ScaledAR1') else 1


def build_om(om, reg=None, fns=None):
    """fresh observation model; functions are shared between the models that are built with one dictionary `fns`"""
    import bayesloop as bl
    reg = reg or Reg()
    c = om['cls']
    names = om['names']
    if om.get('estimate'):
        grids = [None] * len(names)
        shape = None
    else:
        grids = [reg(build_grid(g)) for g in om['grids']]
        shape = om_shape(om)
    given, prior = build_prior(om['prior'], shape, reg)
    kw = {'prior': prior} if given else {}
    pairs = [x for nv in zip(names, grids) for x in nv]
    if om.get('asdict'):     # deprecated way to name the parameters
        pairs = [reg(dict(zip(names, grids)))]
    if c in ('Poisson', 'Bernoulli', 'WhiteNoise', 'GaussianMean', 'Gaussian', 'Laplace', 'AR1', 'ScaledAR1'):
        return getattr(bl.om, c)(*pairs, **kw)
    if c == 'NumPy':
        if fns is not None:
            fns.setdefault(om['fn'], user_function(om['fn']))
        return bl.om.NumPy(user_function(om['fn']) if fns is None else fns[om['fn']], *pairs, **kw)
    if c == 'SciPy':
        import scipy.stats
        if om['rv'] == 'norm1':
            return bl.om.SciPy(scipy.stats.norm, *pairs, fixedParameters=reg({'scale': 1.3}), **kw)
        if om['rv'] == 'norm2':
            return bl.om.SciPy(scipy.stats.norm, *pairs, **kw)
        if om['rv'] == 'poisson':
            return bl.om.SciPy(scipy.stats.poisson, *pairs, fixedParameters=reg({'loc': 0}), **kw)
    if c == 'SymPy':
        import sympy
        import sympy.stats as st
        if om['rv'] == 'norm1':
            rv = st.Normal('norm', 2, sympy.Symbol(names[0], positive=True))
        elif om['rv'] == 'norm2':
            rv = st.Normal('norm', sympy.Symbol(names[0]), sympy.Symbol(names[1], positive=True))
        if not om.get('jeff'):
            kw['determineJeffreysPrior'] = False
        return bl.om.SymPy(rv, *pairs, **kw)
    raise ValueError(c)


# (class, variant, parameter roles, data kind)
OMS = [
    ('Poisson', None, ['rate'], 'count'),
    ('Bernoulli', None, ['prob'], 'binary'),
    ('WhiteNoise', None, ['sd'], 'centred'),
    ('GaussianMean', None, ['mu'], 'pair'),
    ('Gaussian', None, ['mu', 'sd'], 'real'),
    ('Laplace', None, ['mu', 'sd'], 'real'),
    ('AR1', None, ['corr', 'sd'], 'centred'),
    ('ScaledAR1', None, ['corr', 'sd'], 'centred'),
    ('NumPy', 'like_g1', ['mu'], 'real'),
    ('NumPy', 'like_pair', ['mu'], 'pair'),
    ('NumPy', 'like_g2', ['mu', 'sd'], 'real'),
    ('NumPy', 'like_g3', ['mu', 'sd', 'aux'], 'real'),
    ('NumPy', 'like_obj', ['mu'], 'real'),
    ('SciPy', 'norm1', ['loc'], 'real'),
    ('SciPy', 'norm2', ['loc', 'scale'], 'real'),
    ('SciPy', 'poisson', ['mu'], 'count'),
    ('SymPy', 'norm1', ['sd'], 'real'),
    ('SymPy', 'norm2', ['mu', 'sd'], 'real'),
]
WEIGHTS = {'Gaussian': 5, 'Poisson': 3, 'NumPy': 3, 'SymPy': 0.5, 'AR1': 2, 'ScaledAR1': 2, 'Bernoulli': 2}


def _size(rng, ndim, small):
    if ndim == 1:
        return rng.randint(3, 9 if small else 16)
    if ndim == 2:
        return rng.randint(3, 5 if small else 7)
    return rng.randint(2, 4)


def gen_grid(rng, role, ndim, small, cls, det_ok=True):
    n = _size(rng, ndim, small)
    lo, hi = {'rate': (0, 8), 'prob': (0, 1), 'sd': (0, 3), 'mu': (-2, 6), 'corr': (-1, 1), 'aux': (-1, 1),
              'loc': (-2, 6), 'scale': (0, 3)}[role]
    if cls in ('Poisson', 'SciPy') and role in ('rate', 'mu') and cls == 'SciPy':
        lo, hi = 0, 8
    pos = role in ('rate', 'prob', 'sd', 'scale', 'corr') or lo == 0
    u = rng.random()
    if u < 0.2:  # irregular: categorical values
        vals = sorted(set(round(rng.uniform(lo + (hi - lo) * .05, hi - (hi - lo) * .05), 2) for _ in range(n)))
        while len(vals) < 3:
            vals.append(round(vals[-1] + 0.013 * (hi - lo), 4))
        if rng.random() < .25:
            rng.shuffle(vals)
        return [rng.choice(['list', 'arr']), vals]
    if u < .22:      # descending values
        return [rng.choice(['list', 'arr']), [round(float(x), 6) for x in np.linspace(hi, lo, max(n, 2) + 2)[1:-1]]]
    if u < 0.28:  # integer-valued array
        if role in ('mu', 'loc', 'rate'):
            return ['iarr', list(range(1, 1 + max(3, min(n, 6))))]
    if pos or u < 0.6:
        return ['oint', lo, hi, max(n, 2)]
    return ['cint', lo, hi, max(n, 2)]


def gen_prior(rng, cls, ndim, shape, roles, grids):
    u = rng.random()
    has_default = cls in ('Poisson', 'Bernoulli', 'Gaussian', 'Laplace', 'WhiteNoise')
    if u < 0.34 and has_default and cls not in ('Bernoulli',):
        return ['default']
    if u < 0.34 and cls == 'Bernoulli':
        return ['default']
    if u < 0.5:
        return ['none']
    if u < 0.7:
        return ['arr', [round(rng.uniform(0.1, 2.), 3) for _ in range(rng.randint(2, 7))], rng.choice(['raw', 'norm'])]
    if u < 0.9:
        if ndim == 1:
            pos = all(x >= 0 for x in np.ravel(build_grid(grids[0])))
            return ['fun', rng.choice(['pr_one1', 'pr_exp1', 'pr_den1', 'pr_uni1'] + (['pr_id1', 'pr_id1'] if pos else []))]
        if ndim == 2:
            return ['fun', rng.choice(['pr_inv2', 'pr_gau2', 'pr_sec2', 'pr_den2', 'pr_uni2'])]
        return ['fun', 'pr_gau3']
    if ndim <= 2:
        rv = {'rate': 'exp', 'sd': 'exp', 'scale': 'exp', 'prob': 'exp', 'mu': 'norm', 'loc': 'norm', 'corr': 'uni'}
        return ['sym', [rv[r] for r in roles], rng.random() < 0.5]
    return ['none']


def gen_om(rng, small=False, cls=None, simple=False, dims=None):
    while True:
        c = rng.choices(OMS, [WEIGHTS.get(o[0], 1) for o in OMS])[0]
        if cls and c[0] not in cls:
            continue
        if dims and len(c[2]) not in dims:
            continue
        if simple and c[0] == 'SymPy':
            continue
        break
    name, var, roles, dk = c
    nd = len(roles)
    grids = [gen_grid(rng, r, nd, small, name) for r in roles]
    names = list(roles)
    if name not in ('SciPy',) and rng.random() < 0.2:
        names = ['q_' + n for n in names]
    om = {'cls': name, 'names': names, 'roles': roles, 'grids': grids, 'dk': dk}
    if name == 'NumPy':
        om['fn'] = var
    elif var:
        om['rv'] = var
    if name == 'SymPy' and rng.random() < .4:
        om['jeff'] = True
    if name in ('SymPy', 'SciPy') and rng.random() < .3:
        om['asdict'] = True
    om['prior'] = gen_prior(rng, name, nd, [grid_len(g) for g in grids], roles, grids)
    if name == 'Bernoulli' and rng.random() < 0.15:
        om['grids'] = [['cint', -0.2, 1.2, rng.randint(4, 8)]]
        om['prior'] = ['none']
    return om


ESTIMATE = ('Poisson', 'Bernoulli', 'WhiteNoise', 'GaussianMean', 'Gaussian', 'Laplace')


def estimated(rng, om):
    """parameter values are left to be estimated from the data"""
    om['estimate'] = True
    if om['prior'][0] in ('arr', 'sym'):
        om['prior'] = ['none']


# ----------------------------------------------------------------------------------------------------------------
# data

def gen_point(rng, dk, glitch):
    if dk == 'count':
        return rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]) if rng.random() > glitch else rng.choice([0, 12])
    if dk == 'binary':
        return rng.choice([0, 1])
    if dk == 'pair':
        return [round(rng.gauss(2, 1.2), 2), rng.choice([0.5, 1., 1.5])]
    x = rng.gauss(2 if dk == 'real' else 0, 1.2)
    if rng.random() < glitch:
        x += rng.choice([-4, 4])
    return round(x, 2)


def gen_data(rng, om, n=None, missing=True, multi=True, glitch=0.05, lo=4, hi=9):
    dk = om['dk']
    n = n or rng.randint(max(lo, om_seg(om) + 2), hi)
    # int data only for counts of the built-in model (it requires integers)
    d = {'v': [gen_point(rng, dk, glitch) for _ in range(n)], 'dk': dk}
    can_multi = dk in ('count', 'binary', 'real', 'centred') and om['cls'] != 'NumPy' and multi
    if can_multi and rng.random() < 0.15:
        m = rng.randint(2, 3)
        d['v'] = [[gen_point(rng, dk, glitch) for _ in range(m)] for _ in range(n)]
    if om['cls'] == 'Poisson':
        d['dtype'] = 'int'
    else:
        if missing and rng.random() < 0.35:
            for _ in range(rng.randint(1, 2)):
                i = rng.randrange(n)
                if isinstance(d['v'][i], list):
                    d['v'][i] = list(d['v'][i])
                    d['v'][i][rng.randrange(len(d['v'][i]))] = None
                else:
                    d['v'][i] = None
        if rng.random() < 0.12:
            d['as'] = 'list'
        elif dk in ('count', 'binary') and rng.random() < 0.3 and not has_nan(d):
            d['dtype'] = 'int'
    if d.get('as') != 'list' and rng.random() < .1:
        d['lay'] = rng.choice(['strided', 'reversed', 'F', 'ro'])
    return d


def has_nan(d):
    return any(v is None or (isinstance(v, list) and None in v) for v in d['v'])


def gen_ts(rng, n):
    u = rng.random()
    if u < 0.6:
        return None
    if u < 0.8:
        s = rng.choice([1, 10, 1850, -3, -3000, 1600000000])
        v = list(range(s, s + n))
    elif u < 0.9:
        s = rng.choice([0, 2000])
        st = rng.choice([2, 5])
        v = list(range(s, s + st * n, st))
    elif u < 0.94:
        v = [round(0.5 * i + 10, 3) for i in range(n)]
    elif u < 0.97:   # fractions without a short decimal representation
        s, q = rng.choice([0, 1, 2000]), rng.choice([3., 7., 12., 365.])
        v = [s + i / q for i in range(n)]
    else:   # irregular times
        v = [rng.uniform(0, 3)]
        for _ in range(n - 1):
            v.append(v[-1] + rng.uniform(.05, 3))
    return {'v': v, 'as': rng.choice(['arr', 'arr', 'list'])}


def times(cfg):
    """formatted time stamps of a configuration"""
    n = len(cfg['data']['v'])
    t = list(cfg['ts']['v']) if cfg.get('ts') else list(range(n))
    return t[om_seg(cfg['om']) - 1:]


# ----------------------------------------------------------------------------------------------------------------
# transition models: {'t': type, 'n': [names], 'v': [value specs], 'p': [hyper-prior specs], 'target':, 'sub': [...]}
# value spec: ['s', x] scalar | ['l'|'t'|'a', [..]] list/tuple/array | ['cint', lo, hi, n] | ['all']

def build_val(v, reg):
    k = v[0]
    if k == 's':
        return v[1]
    if k == 'l':
        return reg(list(v[1]))
    if k == 't':
        return tuple(v[1])
    if k == 'a':
        return reg(np.array(v[1], dtype=float))
    if k == 'ai':
        return reg(np.array(v[1], dtype=int))
    if k == 'cint':
        return reg(np.linspace(v[1], v[2], v[3]))
    if k == 'all':
        return 'all'
    raise ValueError(v)


def val_n(v, nt=None):
    if v[0] == 's':
        return 1
    if v[0] == 'cint':
        return v[3]
    if v[0] == 'all':
        return (nt or 5) - 1
    return len(v[1])


def det_prior(t, pri, reg):
    """hyper-priors of a deterministic model are passed as a list, or alone if there is only one"""
    if all(x is None for x in pri):
        return None
    if t.get('alone') and len(pri) == 1 and t['p'][0][0] != 'arr':
        return pri[0]
    return reg(list(pri))


def build_tm(t, reg=None, shared=None):
    """fresh transition model; parts with an 'id' are built once per dictionary `shared`"""
    if shared is not None and 'id' in t:
        if t['id'] not in shared:
            shared[t['id']] = build_tm(core.without(t, 'id'), reg, shared)
        return shared[t['id']]
    import bayesloop as bl
    reg = reg or Reg()
    k = t['t']
    if k == 'Static':
        return bl.tm.Static()
    if k == 'Independent':
        return bl.tm.Independent()
    if k in ('Combined', 'Serial'):
        subs = [build_tm(s, reg, shared) for s in t['sub']]
        return (bl.tm.CombinedTransitionModel if k == 'Combined' else bl.tm.SerialTransitionModel)(*subs)
    vals = [build_val(v, reg) for v in t['v']]
    pri = [build_hprior(p, val_n(v), reg) for p, v in zip(t['p'], t['v'])]
    if k == 'GRW':
        return bl.tm.GaussianRandomWalk(t['n'][0], vals[0], target=t['target'], prior=pri[0])
    if k == 'RS':
        return bl.tm.RegimeSwitch(t['n'][0], vals[0], prior=pri[0])
    if k == 'NE':
        return bl.tm.NotEqual(t['n'][0], vals[0], prior=pri[0])
    if k == 'CP':
        return bl.tm.ChangePoint(t['n'][0], vals[0], prior=pri[0])
    if k == 'BP':
        return bl.tm.BreakPoint(t['n'][0], vals[0], prior=pri[0])
    if k == 'AS':
        return bl.tm.AlphaStableRandomWalk(t['n'][0], vals[0], t['n'][1], vals[1], target=t['target'],
                                           prior=(pri[0], pri[1]))
    if k == 'BV':
        return bl.tm.BivariateRandomWalk(t['n'][0], vals[0], t['n'][1], vals[1], t['n'][2], vals[2],
                                         prior=(pri[0], pri[1], pri[2]))
    if k == 'Det':
        return bl.tm.Deterministic(user_function(('det_lin' if len(vals) == 1 else 'det_quad') + t.get('alt', ''), t['n'], vals),
                                   target=t['target'], prior=det_prior(t, pri, reg))
    raise ValueError(k)


def tm_hps(t):
    """flat list of (name, value spec) in the order in which bayesloop flattens them"""
    k = t['t']
    if k in ('Static', 'Independent'):
        return []
    if k == 'Combined':
        return [x for s in t['sub'] for x in tm_hps(s)]
    if k == 'Serial':
        out = []
        for s in t['sub']:
            if s['t'] not in ('BP', 'CP'):
                out += tm_hps(s)
        for s in t['sub']:
            if s['t'] in ('BP', 'CP'):
                out += tm_hps(s)
        return out
    return list(zip(t['n'], t['v']))


def tm_points(t):
    """names of change/break-points"""
    if t['t'] in ('CP', 'BP'):
        return [t['n'][0]]
    return [x for s in t.get('sub', []) for x in tm_points(s)]


def combos(t, nt=6):
    r = 1
    for n, v in tm_hps(t):
        r *= val_n(v, nt)
    return r


STYLES = [['h%d' % i for i in range(1, 60)],
          # names that contain each other, in no alphabetical order
          ['s2', 's', 's21', 'sigm', 's1', 'sig', 'S', 's_', 's22', 'r'] + ['s3%d' % i for i in range(50)],
          ['w', 'v', 'u', 'tt', 'ss', 'rr', 'qq', 'pp', 'oo', 'nn'] + ['a%d' % i for i in range(50, 0, -1)]]


class Names(object):
    """names of hyper-parameters"""

    def __init__(self, rng=None, prefix=None):
        self.i = 0
        self.style = STYLES[0] if rng is None or rng.random() < .6 else rng.choice(STYLES[1:])
        if prefix:
            self.style = ['%s%d' % (prefix, i) for i in range(1, 60)]

    def __call__(self):
        self.i += 1
        return self.style[self.i - 1]


def gen_hprior(rng, v, positive=True):
    if v[0] in ('s', 'all'):
        return None
    u = rng.random()
    if u < 0.55:
        return None
    if u < 0.58:   # strong preference
        return ['arr', [float('1e-%d' % rng.choice([0, 0, 20, 60, 120])) for _ in range(3)] + [1.], 'raw']
    if u < 0.75:
        return ['arr', [round(rng.uniform(.1, 1), 2) for _ in range(rng.randint(2, 5))], rng.choice(['raw', 'norm'])]
    if u < 0.93:
        return ['fun', rng.choice(['hp_cauchy', 'hp_lin'])]
    if positive is None:   # time stamps: only a distribution that covers all of them
        return ['sym', 'uni'] if all(abs(x) < 4000 for x in v[1]) else None
    return ['sym', rng.choice(['norm', 'uni'] + (['exp'] if positive else []))]


def gen_val(rng, lo, hi, vec, maxn):
    """value spec in [lo, hi]"""
    if not vec or maxn < 2 or rng.random() < 0.2:
        return ['s', round(rng.uniform(lo, hi), 3)]
    n = rng.randint(2, min(maxn, 4))
    if rng.random() < 0.5:
        return ['cint', lo, hi, n]
    vals = sorted(set(round(rng.uniform(lo, hi), 3) for _ in range(n)))
    if len(vals) < 2:
        vals = [lo, hi]
    if rng.random() < 0.3:
        rng.shuffle(vals)
    return [rng.choice(['l', 't', 'a']), vals]


def gen_leaf(rng, om, names, vec, budget, ts, det=True, kinds=None):
    nd = len(om['names'])
    opts = kinds or (['Static', 'Independent', 'GRW', 'GRW', 'GRW', 'RS', 'RS', 'NE', 'CP'] +
                     (['AS', 'AS'] if nd == 1 or (nd == 2 and all(x % 2 == 0 for x in om_shape(om))) else []) + (['BV', 'BV'] if nd == 2 else []) + (['Det'] if det else []))
    k = rng.choice(opts)
    tgt = rng.choice(om['names'])
    if k in ('Static', 'Independent'):
        return {'t': k}
    if k == 'GRW':
        v = [gen_val(rng, 0, rng.choice([0.3, 1.]), vec, budget)]
    elif k in ('RS', 'NE'):
        v = [gen_val(rng, -4, -1, vec, budget)]
        if v[0][0] in ('l', 't', 'a') and rng.random() < .5:
            vals = [float(int(x)) - i for i, x in enumerate(v[0][1])]
            if len(set(vals)) == len(vals):
                v = [[v[0][0], vals]]
    elif k == 'CP':
        cand = ts[:-1]
        if vec and budget >= len(cand) and rng.random() < 0.3 and len(cand) >= 2:
            v = [['all']]
        elif vec and budget >= 2 and rng.random() < 0.7 and len(cand) >= 2:
            vs = sorted(rng.sample(cand, rng.randint(2, min(len(cand), budget, 4))))
            v = [['ai' if all(isinstance(x, int) for x in vs) else 'a', vs]]
        else:
            v = [['s', rng.choice(cand)]]
    elif k == 'AS':
        v = [gen_val(rng, 0.05, 0.8, vec, budget), None]
        v[1] = gen_val(rng, 0.6, 2., vec, budget // val_n(v[0]))
    elif k == 'BV':
        v = [gen_val(rng, 0.1, 0.8, vec, budget), None, ['s', round(rng.uniform(-.8, .8), 2)]]
        v[1] = gen_val(rng, 0.1, 0.8, vec, budget // val_n(v[0]))
        if vec and budget // (val_n(v[0]) * val_n(v[1])) >= 2 and rng.random() < .4:
            v[2] = [rng.choice(['a', 'l', 't']), [-0.4, 0.5]]
    elif k == 'Det':
        w = 3. if rng.random() < .15 else .3     # steep ones carry the distribution to the edge of the grid
        v = [gen_val(rng, -w, w, vec, budget)]
        if rng.random() < .4:
            v = [gen_val(rng, -.02, .02, vec, budget // val_n(v[0]))] + v
    nm = [names() for _ in v]
    p = [gen_hprior(rng, x, positive=None if k == 'CP' else k in ('GRW', 'AS')) if vec else None for x in v]
    t = {'t': k, 'n': nm, 'v': v, 'p': p, 'target': tgt}
    if k == 'Det' and rng.random() < .5:
        t['alone'] = True
    if k == 'Det' and rng.random() < .35:
        t['alt'] = '@'
    return t


def gen_tm(rng, om, ts, vec=False, budget=12, names=None, depth=0, serial=True, det=True, overlap=False, kinds=None):
    names = names or Names(rng)
    u = rng.random()
    if depth < 2 and u < 0.22:
        subs = []
        b = budget
        for _ in range(rng.randint(2, 3)):
            s = gen_tm(rng, om, ts, vec, b, names, depth + 1, serial=False, det=det, kinds=kinds)
            b = max(1, b // combos(s, len(ts)))
            subs.append(s)
        # at most one change-point per combined model outside change-point studies
        seen = False
        out = []
        for s in subs:
            if tm_points(s):
                if seen:
                    s = {'t': 'Static'}
                seen = True
            out.append(s)
        return {'t': 'Combined', 'sub': out}
    if depth < 2 and serial and u < 0.4 and len(ts) >= 4:
        nb = rng.randint(1, 2)
        cand = ts[:-1]
        cut = sorted(rng.sample(range(1, len(cand)), min(nb, len(cand) - 1)))
        bounds = [0] + cut + [len(cand)]
        subs = [gen_nopoint(rng, om, ts, vec, max(1, budget // 4), names, det, kinds)]
        b = max(1, budget // combos(subs[0], len(ts)))
        for i in range(len(cut)):
            seg = cand[bounds[i]:bounds[i + 1]] if i + 1 < len(bounds) else cand[-1:]
            seg = seg or [cand[bounds[i]]]
            if vec and b >= 2 and len(seg) >= 2 and rng.random() < .6:
                vs = seg[:min(len(seg), b, 3)]
                v = ['ai' if all(isinstance(x, int) for x in vs) else 'a', vs]
            else:
                v = ['s', rng.choice(seg)]
            b = max(1, b // val_n(v))
            subs.append({'t': rng.choice(['BP', 'CP']), 'n': [names()], 'v': [v],
                         'p': [gen_hprior(rng, v, None) if vec else None]})
            s = gen_nopoint(rng, om, ts, vec, max(1, b // 2), names, det, kinds)
            b = max(1, b // combos(s, len(ts)))
            subs.append(s)
        # break times have to increase
        pv = [x['v'][0] for x in subs if x['t'] in ('BP', 'CP')]
        first = [v[1] if v[0] == 's' else v[1][0] for v in pv]
        last = [v[1] if v[0] == 's' else v[1][-1] for v in pv]
        if any(l >= f for l, f in zip(last, first[1:])):
            return gen_leaf(rng, om, names, vec, budget, ts, det, kinds)
        return {'t': 'Serial', 'sub': subs}
    return gen_leaf(rng, om, names, vec, budget, ts, det, kinds)


def gen_nopoint(rng, om, ts, vec, budget, names, det, kinds=None):
    for _ in range(20):
        s = gen_tm(rng, om, ts, vec, budget, names, 1, serial=False, det=det, kinds=kinds)
        if not tm_points(s):
            return s
    return {'t': 'Static'}


def gen_cp_tm(rng, om, ts, budget=30):
    """transition model for a change-point study: change- or break-points (one kind), some with value 'all'"""
    names = Names(rng)
    n = len(ts) - 1
    k = rng.choice([1, 1, 2, 2]) if n <= 7 else 1

    def point(kind, i):
        u = rng.random()
        if u < 0.5:
            v = ['all']
        else:
            lo, hi = (0, n - k + i) if k > 1 else (0, n)
            cand = ts[:-1]
            vs = sorted(rng.sample(cand, rng.randint(2, min(4, len(cand)))))
            v = ['ai' if all(isinstance(x, int) for x in vs) else 'a', vs]
        return {'t': kind, 'n': [names()], 'v': [v], 'p': [gen_hprior(rng, v, None)]}
    if rng.random() < 0.5:
        pts = [point('CP', i) for i in range(k)]
        extra = []
        if rng.random() < 0.5:
            extra = [gen_nopoint(rng, om, ts, rng.random() < .5, 2, names, True)]
        t = {'t': 'Combined', 'sub': pts + extra} if len(pts + extra) > 1 else pts[0]
    else:
        kind = rng.choice(['BP', 'BP', 'CP'])
        sub = [gen_nopoint(rng, om, ts, False, 1, names, True)]
        for i in range(k):
            sub += [point(kind, i), gen_nopoint(rng, om, ts, rng.random() < .4, 2 if k == 1 else 1, names, True)]
        t = {'t': 'Serial', 'sub': sub}
    if combos(t, len(ts)) > budget * 2 or valid_combos(t, ts) < 2 or not cp_ok(t):
        return None
    return t


def cp_ok(t):
    """first values of break-points must increase (checked by the serial model itself)"""
    if t['t'] != 'Serial':
        return True
    first = []
    for s in t['sub']:
        if s['t'] in ('BP', 'CP'):
            v = s['v'][0]
            first.append(None if v[0] == 'all' else v[1] if v[0] == 's' else v[1][0])
    return all(a is None or b is None or a < b for a, b in zip(first, first[1:]))


def valid_combos(t, ts):
    """number of ordered combinations of change-points (times the other hyper-parameter values)"""
    import itertools
    pts = tm_points(t)
    ax = []
    other = 1
    for n, v in tm_hps(t):
        if n in pts:
            ax.append(list(ts[:-1]) if v[0] == 'all' else [v[1]] if v[0] == 's' else list(v[1]))
        else:
            other *= val_n(v, len(ts))
    c = sum(1 for x in itertools.product(*ax) if all(a < b for a, b in zip(x, x[1:])))
    return c * other if c > 0 else 0


# ----------------------------------------------------------------------------------------------------------------
# complete configurations

def gen_cfg(rng, kind=None, small=False, om=None, budget=12, need_vec=False, det=True, simple=False, dims=None,
            missing=True, multi=True, tsok=True, hi=9, glitch=0.05):
    kind = kind or rng.choice(['Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    long = kind != 'ChangepointStudy' and hi > 6 and rng.random() < .015
    while True:
        o = om or gen_om(rng, small, simple=simple, dims=dims)
        data = gen_data(rng, o, missing=missing, multi=multi, hi=hi if kind != 'ChangepointStudy' else min(hi, 7),
                        glitch=glitch, n=rng.randint(40, 150) if long and int(np.prod(om_shape(o))) < 40 else None)
        cfg = {'kind': kind, 'om': o, 'data': data, 'ts': gen_ts(rng, len(data['v'])) if tsok else None}
        ts = times(cfg)
        if len(ts) < 3:
            continue
        if kind == 'ChangepointStudy':
            t = gen_cp_tm(rng, o, ts, budget)
            if t is None:
                continue
        else:
            vec = kind == 'HyperStudy'
            t = gen_tm(rng, o, ts, vec, budget, det=det)
            if vec and (combos(t, len(ts)) > budget * 1.5 or (need_vec and combos(t, len(ts)) < 2)):
                continue
            if vec and hyper_overlap(t, ts):
                continue
            if vec and combos(t, len(ts)) == 1 and has_unit_vec(t, len(ts)):
                continue
        cfg['tm'] = t
        cfg['fit'] = gen_fit(rng, kind)
        return cfg


def has_unit_vec(t, nt):
    return any(v[0] == 'all' or (v[0] != 's' and val_n(v, nt) == 1) for n, v in tm_hps(t))


def hyper_overlap(t, ts):
    """hyper-studies reject change/break-points with shared values"""
    import itertools
    pts = tm_points(t)
    if len(pts) < 2:
        return False
    ax = [list(ts[:-1]) if v[0] == 'all' else [v[1]] if v[0] == 's' else list(v[1]) for n, v in tm_hps(t) if n in pts]
    return any(len(set(x)) < len(x) for x in itertools.product(*ax))


def gen_fit(rng, kind, full=False):
    f = {'silent': rng.random() < 0.85}
    if not full:
        u = rng.random()
        if u < 0.2:
            f['forwardOnly'] = True
        elif u < 0.35:
            f['evidenceOnly'] = True
    return f


class Built(object):
    """a study with the objects a user would hold"""
    pass


def new_study(kind, silent=True, **kw):
    import bayesloop as bl
    return getattr(bl, kind)(silent=silent, **kw)


def build(cfg, reg=None, om=None, tm=None, silent=True):
    """fresh study from a configuration"""
    b = Built()
    b.cfg = cfg
    b.reg = reg or Reg()
    b.om = om if om is not None else build_om(cfg['om'], b.reg)
    b.tm = tm if tm is not None else build_tm(cfg['tm'], b.reg)
    b.S = new_study(cfg['kind'], silent)
    load(b.S, cfg, b.reg, silent)
    b.S.setOM(b.om, silent=silent)
    b.S.setTM(b.tm, silent=silent)
    return b


EXAMPLE = [5, 4, 1, 0, 4, 3, 4, 0, 6, 3, 3, 4, 0, 2, 6, 3, 3, 5, 4, 5, 3, 1, 4, 4, 1, 5, 5, 3, 4, 2, 5, 2, 2, 3, 4, 2, 1,
           3, 2, 2, 1, 1, 1, 1, 3, 0, 0, 1, 0, 1, 1, 0, 0, 3, 1, 0, 3, 2, 2, 0, 1, 1, 1, 0, 1, 0, 1, 0, 0, 0, 2, 1, 0, 0,
           0, 1, 1, 0, 2, 3, 3, 1, 1, 2, 1, 1, 1, 1, 2, 3, 3, 0, 0, 0, 1, 4, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0]


def example():
    """the data set that comes with the library"""
    return {'data': {'v': EXAMPLE, 'dk': 'count', 'dtype': 'int', 'ex': True},
            'ts': {'v': list(range(1852, 1962)), 'as': 'arr'}}


def load(S, cfg, reg, silent=True):
    if cfg['data'].get('ex'):
        S.loadExampleData(silent=silent)
        return
    ts = build_ts(cfg.get('ts'))
    S.loadData(reg(build_data(cfg['data'])), timestamps=ts if ts is None else reg(ts), silent=silent)


def do_fit(S, fit, **over):
    k = dict(fit)
    k.update(over)
    nj = k.pop('nJobs', None)
    if nj is not None:
        k['nJobs'] = nj
    S.fit(**k)


# ----------------------------------------------------------------------------------------------------------------
# online configurations: {'om', 'tms': [[name, tm], ...] | 'tm' (set only), 'prior', 'store', 'stream': [...]}

def gen_online(rng, ntm=None, small=True, budget=5, det=True, simple=False, missing=True, hi=8, single_set=True,
               multi=True, serial=True, glitch=0.05, kinds=None, dims=None):
    o = gen_om(rng, small, simple=simple, dims=dims)
    data = gen_data(rng, o, missing=missing, multi=multi, lo=3, hi=hi, glitch=glitch)
    data.pop('as', None)
    ts = list(range(len(data['v'])))[om_seg(o) - 1:]
    n = ntm or rng.choice([1, 1, 2, 2, 3])
    names = Names(rng)
    tms = []
    for i in range(n):
        while True:
            t = gen_tm(rng, o, ts, rng.random() < .7, budget, names, serial=serial, det=det, kinds=kinds)
            if any(v[0] == 'all' for _, v in tm_hps(t)) or combos(t) > budget:
                continue
            break
        tms.append(['T%d' % (i + 1), t])
    c = {'kind': 'OnlineStudy', 'om': o, 'data': data, 'tms': tms, 'store': rng.random() < 0.6}
    if n == 1 and single_set and rng.random() < 0.4:
        c['set_only'] = True
    if n > 1 and rng.random() < 0.3:
        p = [rng.randint(1, 5) for _ in range(n)]
        c['tmprior'] = p if rng.random() < .3 else [x / float(sum(p)) for x in p]
    return c


def gen_long(rng, lo=100, hi=180):
    """long stream for a small model"""
    while True:
        o = gen_om(rng, True, simple=True)
        if int(np.prod(om_shape(o))) <= 25:
            break
    data = gen_data(rng, o, n=rng.randint(lo, hi), multi=False)
    data.pop('as', None)
    names = Names(rng)
    ts = list(range(len(data['v'])))
    tms = [['T%d' % (i + 1), gen_leaf(rng, o, names, rng.random() < .6, 3, ts, False,
                                      kinds=['Static', 'GRW', 'GRW', 'RS', 'NE', 'Independent'])]
           for i in range(rng.choice([1, 1, 2]))]
    return {'kind': 'OnlineStudy', 'om': o, 'data': data, 'tms': tms, 'store': rng.random() < .6}


def gen_extreme(rng):
    """online configuration whose models are supported by the data to extremely different degrees"""
    while True:
        o = gen_om(rng, True, cls=['GaussianMean', 'NumPy', 'Gaussian'])
        if o['dk'] == 'pair' or o['cls'] == 'Gaussian' and all(x > 3 for x in om_shape(o)):
            break
    n = rng.randint(6, 18)
    if o['cls'] == 'Gaussian':
        o['grids'][1] = ['oint', 0, rng.choice([.1, .3]), o['grids'][1][3] if o['grids'][1][0] == 'oint' else 3]
    lv = rng.choice([[0., 4.], [0., 2., 5.], [-1., 3.]])
    s = rng.choice([.05, .12, .2])
    v = []
    cur = lv[0]
    for _ in range(n):
        if rng.random() < .4:
            cur = rng.choice(lv)
        v.append([cur, s] if o['dk'] == 'pair' else cur)
    names = Names(rng)
    ts = list(range(n))
    tms = []
    for i in range(rng.choice([2, 3])):
        k = ['Static', 'GRW', 'RS', 'Independent'] if i else ['GRW', 'GRW', 'RS', 'Static']
        tms.append(['T%d' % (i + 1), gen_leaf(rng, o, names, rng.random() < .8, 4, ts, False, kinds=k)])
    rng.shuffle(tms)
    return {'kind': 'OnlineStudy', 'om': o, 'data': {'v': v, 'dk': o['dk']}, 'tms': tms, 'store': rng.random() < .5}


def gen_extreme_cfg(rng):
    """hyper-study whose hyper-parameter values are supported by data and prior to extremely different degrees"""
    while True:
        c = gen_extreme(rng)
        names = Names(rng)
        ts = list(range(len(c['data']['v'])))
        subs = [gen_leaf(rng, c['om'], names, True, 4, ts, False, kinds=['GRW', 'GRW', 'RS', 'CP'])
                for _ in range(rng.choice([1, 2, 2]))]
        t = subs[0] if len(subs) == 1 else {'t': 'Combined', 'sub': subs}
        if not 2 <= combos(t, len(ts)) <= 14 or len(tm_points(t)) > 1:
            continue
        if rng.random() < .5:   # the prior opposes the data
            v = rng.choice([[-3., -20.], [-2., -30., -15.], [-25., -1.], [-12., -40.]])
            subs = [s for s in subs if s['t'] not in ('RS', 'CP')][:1]
            subs.insert(rng.randint(0, len(subs)), {'t': 'RS', 'n': [names()], 'v': [['l', v]], 'target': None, 'p': [
                ['arr', [10. ** (-(x + 40.) * rng.choice([.5, 1., 2., 3.])) for x in v], 'raw']]})
            t = subs[0] if len(subs) == 1 else {'t': 'Combined', 'sub': subs}
        for s in subs:
            if s['t'] != 'RS':
                s['p'] = [['arr', [float('1e-%d' % rng.choice([0, 0, 30, 90, 150])) for _ in range(3)] + [1.], 'raw']
                          if v[0] not in ('s', 'all') and rng.random() < .7 else None for v in s['v']]
        return {'kind': 'HyperStudy', 'om': c['om'], 'data': c['data'], 'ts': None, 'tm': t,
                'fit': gen_fit(rng, 'HyperStudy')}


def gen_many_cfg(rng, kind=None):
    """small model with many combinations of hyper-parameter values"""
    kind = kind or rng.choice(['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    while True:
        o = gen_om(rng, True, simple=True, dims=[1])
        cp = kind == 'ChangepointStudy'
        n = rng.randint(9, 22) if cp else rng.randint(4, 6)
        data = gen_data(rng, o, n=n, multi=False)
        cfg = {'kind': kind, 'om': o, 'data': data, 'ts': gen_ts(rng, n), 'fit': gen_fit(rng, kind)}
        ts = times(cfg)
        names = Names(rng)
        if cp:
            pts = [{'t': 'CP', 'n': [names()], 'v': [['all']], 'p': [None]} for _ in range(2)]
            cfg['tm'] = {'t': 'Combined', 'sub': pts}
            if rng.random() < .4:
                subs = [gen_leaf(rng, o, names, False, 1, ts, False, kinds=['Static', 'GRW', 'RS']) for _ in range(3)]
                b = ['BP', 'BP']
                cfg['tm'] = {'t': 'Serial', 'sub': [subs[0], core.with_key(pts[0], 't', b[0]), subs[1],
                                                    core.with_key(pts[1], 't', b[1]), subs[2]]}
            return cfg
        m = rng.choice([8, 10, 12, 16])
        kinds = ['GRW', 'RS', 'NE']
        subs = []
        for k in rng.sample(kinds, 2):
            lo, hi = (0, .8) if k == 'GRW' else (-5, -1)
            v = ['cint', lo, hi, m] if rng.random() < .5 else [rng.choice('lta'), sorted(set(
                round(rng.uniform(lo, hi), 4) for _ in range(m)))]
            p = gen_hprior(rng, v, k == 'GRW')
            if rng.random() < .35:
                p = ['arr', [float('%.2g' % 10 ** rng.uniform(-4, 0)) for _ in range(rng.randint(3, 16))], 'raw']
            subs.append({'t': k, 'n': [names()], 'v': [v], 'p': [p],
                         'target': o['names'][0]})
            m = rng.choice([6, 8, 11, 13])
        cfg['tm'] = {'t': 'Combined', 'sub': subs}
        return cfg


def build_online(cfg, reg=None, store=None, om=None, tms=None, silent=True):
    b = Built()
    b.cfg = cfg
    b.reg = reg or Reg()
    b.om = om if om is not None else build_om(cfg['om'], b.reg)
    b.tms = tms if tms is not None else [(n, build_tm(t, b.reg)) for n, t in cfg['tms']]
    b.S = new_study('OnlineStudy', silent, storeHistory=cfg['store'] if store is None else store)
    b.S.setOM(b.om, silent=silent)
    if cfg.get('set_only'):
        b.S.setTM(b.tms[0][1], silent=silent)
    else:
        for i, (n, t) in enumerate(b.tms):
            getattr(b.S, ['addTransitionModel', 'addTM', 'add'][(i + len(cfg['data']['v'])) % 3])(n, t)
    if cfg.get('tmprior'):
        b.S.setTransitionModelPrior(b.reg(list(cfg['tmprior'])), silent=silent)
    return b


def stream(cfg):
    """data points as a user passes them to step()"""
    d = cfg['data']
    out = []
    for v in d['v']:
        v = dec(v)
        if isinstance(v, list):
            # multi-dimensional data points are passed as arrays
            out.append(np.array(v, dtype=int if d.get('dtype') == 'int' else float))
        else:
            out.append(int(v) if d.get('dtype') == 'int' else float(v))
    return out


def online_hps(cfg):
    return [(n, v) for _, t in cfg['tms'] for n, v in tm_hps(t)]


def tm_name(cfg, i):
    return 'transition model' if cfg.get('set_only') else cfg['tms'][i][0]
