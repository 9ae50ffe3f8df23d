"""C05: queries and plots are read-only and repeatable."""
import numpy as np

from .. import fork, queries
from .common import *

RUNS = {'quick': 800, 'thorough': 40000}
RULE = 'distinct (study kind, query kind, with plot, outcome, abort point kind and exception) x (models) x (following ' \
       'operation)'

KINDS = {'all': ('num', 'alloc', 'plt', 'om', 'user', 'stdout'), 'num': ('num',), 'plt': ('plt',), 'alloc': ('alloc',)}


def gen_q(rng, cfg, n=None):
    q = queries.gen_query(rng, cfg, n=n)
    o = {'op': 'q', 'q': q}
    if rng.random() < .3:
        o['f'] = round(rng.random(), 3)
        o['kinds'] = rng.choice(['all', 'all', 'num', 'plt', 'alloc'])
        o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError', 'FloatingPointError', 'OSError'])
    return o


def plan(rng, tier):
    if rng.random() < .45:
        cfg = gen.gen_online(rng, hi=6)
        n = len(cfg['data']['v'])
        ops = []
        for i in range(n):
            ops.append({'op': 'step', 'i': i})
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                ops.append(gen_q(rng, cfg, i + 1))
        if rng.random() < .2:
            ops.insert(0, gen_q(rng, cfg, 0))
        return {'mode': 'online', 'cfg': cfg, 'ops': ops}
    kind = rng.choice(['Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=8, hi=8)
    opt = optimizable(cfg) if kind == 'Study' else []
    ops = []
    if rng.random() < .1:
        ops.append(gen_q(rng, cfg))
    first = cfg
    for j in range(rng.choice([1, 1, 2, 3])):
        u = rng.random()
        if j and u > .55:   # other models or data
            new = gen.gen_cfg(rng, kind, small=True, budget=8, hi=8, om=cfg['om'] if u < .9 else None)
            what = 'all'
            if u < .75 and len(gen.times(new)) > 3:
                t = gen_tm(rng, kind, cfg)
                if t is not None:
                    new = core.with_key(cfg, 'tm', t)
                    what = 'tm'
            ops.append({'op': 'set', 'cfg': new, 'what': what})
            cfg = new
            opt = optimizable(cfg) if kind == 'Study' else []
            if rng.random() < .2:
                ops.append(gen_q(rng, cfg))
            u = rng.random()
        if opt and u < .2:
            ops.append({'op': 'opt', 'p': rng.sample(opt, rng.randint(1, len(opt)))})
        else:
            ops.append({'op': 'fit', 'fit': gen.gen_fit(rng, kind, full=rng.random() < .7)})
            if kind != 'Study' and rng.random() < .2:
                ops[-1]['nJobs'] = rng.choice([2, 3])
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops.append(gen_q(rng, cfg))
    if rng.random() < .5:
        ops.append({'op': 'fit', 'fit': gen.gen_fit(rng, kind)})
    return {'mode': 'batch', 'cfg': first, 'ops': ops}


def gen_tm(rng, kind, cfg):
    ts = gen.times(cfg)
    for _ in range(20):
        if kind == 'ChangepointStudy':
            t = gen.gen_cp_tm(rng, cfg['om'], ts, 8)
        else:
            vec = kind == 'HyperStudy'
            t = gen.gen_tm(rng, cfg['om'], ts, vec, 8)
            if vec and (gen.combos(t, len(ts)) > 12 or gen.hyper_overlap(t, ts) or
                        gen.combos(t, len(ts)) == 1 and gen.has_unit_vec(t, len(ts))):
                t = None
        if t is not None:
            return t


def observe(S, p, fitted, cfg):
    if p['mode'] == 'online':
        return snap.online(S, cfg)
    o = {'values': snap.hp_values(S, cfg)}
    if fitted is not None:
        o.update(snap.batch(S, cfg, fitted))
    return o


def build(p):
    return gen.build_online(p['cfg']) if p['mode'] == 'online' else gen.build(p['cfg'])


def change(S, p, o, data, reg=None):
    """an operation that changes the study; returns the name of its exception"""
    if o['op'] == 'step':
        return attempt(lambda: S.step(data[o['i']]))
    if o['op'] == 'opt':
        return attempt(lambda: do_opt(S, o['p']))
    if o['op'] == 'set':
        def f():
            c = o['cfg']
            del queries.KEPT[:]    # parsers know the names that were set when they were created
            if o['what'] == 'all':
                gen.load(S, c, reg)
                S.setOM(gen.build_om(c['om'], reg), silent=True)
            S.setTM(gen.build_tm(c['tm'], reg), silent=True)
        return attempt(f)
    k = {'nJobs': o['nJobs']} if 'nJobs' in o else {}
    return attempt(lambda: gen.do_fit(S, o['fit'], **k))


def answer(S, q):
    try:
        v = snap.safe(queries.ask, S, q)
        return plain(v)
    finally:
        if queries.uses_plot(q):
            queries.close()


def plain(v):
    if isinstance(v, np.ndarray):
        return np.asarray(v).view(np.ndarray)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (snap.Exc, int, float, str, bool, type(None), np.generic)):
        return v
    return repr(type(v))


def reference_session(p):
    """the session without any query; queries are only asked in forked copies of it"""
    b = reference(lambda: build(p))
    data = gen.stream(p['cfg']) if p['mode'] == 'online' else None
    out = []
    fitted = None
    cfg = p['cfg']
    for o in p['ops']:
        if o['op'] == 'q':
            out.append(fork.in_child(lambda: answer(b.S, o['q'])))
        else:
            e = change(b.S, p, o, data, b.reg)
            fitted = o['fit'] if o['op'] == 'fit' else None if o['op'] == 'set' else {}
            cfg = o.get('cfg', cfg)
            f = fitted
            out.append((e, fork.in_child(lambda: observe(b.S, p, f, cfg))))
    return out


def run(p):
    cfg = p['cfg']
    ref = fork.in_child(lambda: reference_session(p))
    b = reference(lambda: build(p))
    data = gen.stream(cfg) if p['mode'] == 'online' else None
    fitted = None
    last = None
    lastop = None
    for o, r in zip(p['ops'], ref):
        if o['op'] == 'q':
            q = o['q']
            out = 'answer'
            arm = None
            if 'f' in o:
                kinds = KINDS[o['kinds']]

                def count():
                    with faults.Counter(kinds) as c:
                        answer(b.S, q)
                    return c.n
                n = fork.in_child(count)
                if n:
                    arm = faults.Arm(kinds, 1 + min(n - 1, int(o['f'] * n)), o['exc'])
                    e = attempt(lambda: queries.ask(b.S, q), arm)
                    queries.close()
                    out = 'aborted'
                    core.ctx.op('aborted', q['q'], arm.n, n, o['exc'], e)
                    core.ctx.probe('aborted query')
            a = answer(b.S, q)
            if isinstance(a, snap.Exc):
                out += ' raises'
                core.ctx.fault('rejected query')
            core.ctx.op('q', q['q'], out)
            core.ctx.probe('query %s%s' % (q['q'], ' (rejected)' if isinstance(a, snap.Exc) else ''))
            core.ctx.sig(cfg['kind'], q['q'], bool(q.get('plot')), out, o.get('exc'), o.get('kinds'), lastop,
                         cfg['om']['cls'], q.get('t') == 'avg')
            same(a, r, 'answer', 'answer to query %s after other queries' % q, *TINY)
            same(answer(b.S, q), r, 'repeat', 'repeated query %s' % q, *TINY)
        else:
            e = change(b.S, p, o, data, b.reg)
            core.ctx.op(o['op'], e)
            lastop = o['op']
            fitted = o['fit'] if o['op'] == 'fit' else None if o['op'] == 'set' else {}
            cfg = o.get('cfg', cfg)
            last = r
            same(e, r[0], 'outcome', 'outcome of %s after queries' % o['op'])
            f = fitted
            same(fork.in_child(lambda: observe(b.S, p, f, cfg)), r[1], 'state', 'state after %s that follows queries'
                 % o['op'], *TINY)
    if last is not None:
        same(observe(b.S, p, fitted, cfg), last[1], 'state', 'state after queries', *TINY)
        inputs_unchanged(b.reg)
