"""C03: interrupted, failed or rejected operations leave a study usable."""
import json

import numpy as np

from .common import *

RUNS = {'quick': 3200, 'thorough': 60000}
RULE = 'distinct (study kind, models, prior kinds) x (operation, abort point kind, quarter of the operation, exception) '\
       'or rejected call'

BATCH_REJ = ['om_int', 'om_str', 'tm_int', 'tm_str', 'tm_bp', 'set_om_int', 'set_tm_str', 'set_om_om', 'set_tm_tm',
             'set_om_bp', 'set_kw', 'data_str', 'data_ts', 'data_dict', 'om_badvalues', 'om_noestimate', 'tm_target',
             'tm_hprior', 'om_priorshape', 'opt_name', 'tm_dup', 'fit_kw', 'cp_none', 'om_badprior', 'tm_symfree']
ONLINE_REJ = ['om_int', 'tm_int', 'tm_bp', 'add_hprior', 'add_symfree', 'add_bp', 'add_int', 'tmp_short', 'tmp_scalar',
              'fit', 'set_kw', 'om_badvalues', 'opt']


def plan(rng, tier):
    if rng.random() < 0.12:
        cfg = gen.gen_online(rng, hi=6)
        n = len(cfg['data']['v'])
        return {'mode': 'online', 'cfg': cfg,
                'ops': [{'op': 'reject', 'what': rng.choice(ONLINE_REJ), 'at': rng.choice([-1, 0, 0] + list(range(n)))}
                        for _ in range(rng.randint(1, 3))]}
    kind = rng.choice(['Study', 'Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=8, hi=8)
    opt = optimizable(cfg) if kind == 'Study' else []
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        u = rng.random()
        if u < 0.3:
            ops.append({'op': 'reject', 'what': rng.choice(BATCH_REJ)})
        elif opt and u < 0.6:
            k = rng.randint(0, len(opt))
            ops.append({'op': 'opt', 'p': rng.sample(opt, k), 'fwd': rng.random() < .4})
        else:
            ops.append({'op': 'fit', 'fit': gen.gen_fit(rng, kind)})
        o = ops[-1]
        if o['op'] != 'reject':
            o['f'] = round(rng.choice([0., rng.random(), rng.random(), 0.999]), 4)
            o['exc'] = rng.choice(ABORT)
            o['kinds'] = rng.choice(['all', 'all', 'om', 'tm', 'user', 'alloc', 'mline', 'mline', 'mline'])
            if o['kinds'] == 'mline':
                o['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit'])
        o['check'] = rng.random() < 0.3
    p = {'mode': 'batch', 'cfg': cfg, 'ops': ops, 'prefit': rng.random() < 0.4, 'final': gen.gen_fit(rng, kind)}
    if opt and rng.random() < 0.4:
        p['final_opt'] = rng.sample(opt, rng.randint(1, len(opt)))
        if rng.random() < .5:
            o = [x for x in ops if x['op'] == 'opt' and x['p']]
            if o:
                p['final_opt'] = list(o[-1]['p'])
    if cfg['om']['cls'] != 'Bernoulli' and rng.random() < .3:
        p['other'] = rng.choice([2, 3])
    if opt and rng.random() < .4:
        p['skip'] = True
    return p


def reject(b, what, cfg):
    """a call that is rejected; returns the names of calls made to restore the configuration"""
    import bayesloop as bl
    import sympy
    import sympy.stats as st
    S = b.S
    nm = cfg['om']['names']

    def g(x=1.):
        return bl.tm.GaussianRandomWalk('zz', x, target=nm[0])

    def om2(**k):
        return bl.om.Gaussian('zm', bl.cint(0, 4, 5), 'zs', bl.oint(0, 2, 4), **k)

    def fit():
        S.fit(silent=True)
    seq = {
        'om_int': lambda: S.setOM(5), 'om_str': lambda: S.setOM('Gaussian'), 'tm_int': lambda: S.setTM(5),
        'tm_str': lambda: S.setTM('Static'), 'tm_bp': lambda: S.setTM(bl.tm.BreakPoint('zb', 1)),
        'set_om_int': lambda: S.set(om2(), 5), 'set_tm_str': lambda: S.set(g(), 'foo'),
        'set_om_om': lambda: S.set(om2(), om2()), 'set_tm_tm': lambda: S.set(g(), bl.tm.Static()),
        'set_om_bp': lambda: S.set(om2(), bl.tm.BreakPoint('zb', 1)), 'set_kw': lambda: S.set(om2(), loud=True),
        'data_str': lambda: S.loadData('1, 2, 3', silent=True),
        'data_ts': lambda: S.loadData(np.array([1., 2., 1., 2.]), timestamps=5, silent=True),
        'data_dict': lambda: S.loadData({0: 1.}, silent=True),
        'om_badvalues': lambda: S.setOM(bl.om.Gaussian('zm', bl.cint(0, 4, 5), 'zs', 'all')),
        'om_noestimate': lambda: S.setOM(bl.om.NumPy(gen.user_function('like_g1'), 'zm', None)),
        'opt_name': lambda: S.optimize(['does-not-exist']), 'fit_kw': lambda: S.fit(nothing=1),
        'opt': lambda: S.optimize(), 'fit': fit,
        'tmp_short': lambda: S.setTransitionModelPrior([.1] * (len(cfg.get('tms', [])) + 1)),
        'tmp_scalar': lambda: S.setTransitionModelPrior(1.),
        'add_hprior': lambda: S.addTransitionModel('zT', bl.tm.GaussianRandomWalk('zz', [0.1, 0.2], target=nm[0],
                                                                                 prior=np.array([1.]))),
        'add_symfree': lambda: S.addTransitionModel('zT', bl.tm.GaussianRandomWalk(
            'zz', [0.1, 0.2], target=nm[0], prior=st.Exponential('e', sympy.Symbol('l', positive=True)))),
        'add_bp': lambda: S.addTransitionModel('zT', bl.tm.BreakPoint('zb', 1)),
        'add_int': lambda: S.addTransitionModel('zT', 5),
    }
    if what in seq:
        return seq[what], []
    # configurations that are only rejected by the fit; afterwards the user sets the previous model again
    if what == 'tm_target':
        return lambda: (S.setTM(bl.tm.GaussianRandomWalk('zz', .3, target='nope'), silent=True), fit()), ['tm']
    if what == 'tm_hprior':
        return lambda: (S.setTM(bl.tm.GaussianRandomWalk('zz', [.1, .3], target=nm[0], prior=np.ones(3)), silent=True),
                        fit()), ['tm']
    if what == 'tm_symfree':
        return lambda: (S.setTM(bl.tm.GaussianRandomWalk('zz', [.1, .3], target=nm[0], prior=st.Exponential(
            'e', sympy.Symbol('l', positive=True))), silent=True), fit()), ['tm']
    if what == 'tm_dup':
        return lambda: (S.setTM(bl.tm.CombinedTransitionModel(g(), g()), silent=True), fit()), ['tm']
    if what == 'cp_none':
        return lambda: (S.setTM(bl.tm.Static(), silent=True), S.fit(silent=True, nJobs=1)), ['tm']
    if what == 'om_priorshape':
        return lambda: (S.setOM(om2(prior=np.ones(3)), silent=True), fit()), ['om']
    if what == 'om_badprior':
        return lambda: (S.setOM(om2(prior=[st.Exponential('e', sympy.Symbol('l', positive=True)), 4]), silent=True),
                        fit()), ['om']
    raise ValueError(what)


def run(p):
    plan = p
    if plan['mode'] == 'online':
        return run_online(plan)
    cfg = plan['cfg']
    b = reference(lambda: gen.build(cfg))
    ref_values = snap.hp_values(gen.build(cfg).S, cfg)
    same(snap.hp_values(b.S, cfg), ref_values, 'values', 'values of a new study')
    refs = {}

    def result(fit):
        k = json.dumps(fit, sort_keys=True)
        if k not in refs:
            refs[k] = reference(lambda: fit_result(cfg, fit))
        return refs[k]

    def verify(fit, what):
        r = result(fit)
        must(lambda: gen.do_fit(b.S, fit), 'refit', 'fit ' + what)
        same(snap.batch(b.S, cfg, fit), r, 'result', 'result of the fit ' + what)
        same(snap.hp_values(b.S, cfg), ref_values, 'values', 'hyper-parameter values after the fit ' + what)

    if plan.get('prefit'):
        verify(plan['final'], 'before any failure')
    for o in plan['ops']:
        if o['op'] == 'reject':
            f, restore = reject(b, o['what'], cfg)
            e = attempt(f)
            core.ctx.op('reject', o['what'], e)
            if e is None:
                raise Skip('not rejected: ' + o['what'])
            core.ctx.fault('rejected call')
            core.ctx.sig(cfg['kind'], 'reject', o['what'])
            if 'tm' in restore:
                b.S.setTM(b.tm, silent=True)
            if 'om' in restore:
                b.S.setOM(b.om, silent=True)
            what = 'after the rejected call ' + o['what']
        else:
            kinds = ABORTPOINTS if o['kinds'] == 'all' else (o['kinds'],)
            if o['op'] == 'fit':
                def op(s):
                    gen.do_fit(s, o['fit'])
            else:
                def op(s):
                    do_opt(s, o['p'], o['fwd'])
            fresh = reference(lambda: gen.build(cfg))
            with faults.lines(kinds), faults.Counter(kinds) as c:
                reference(lambda: op(fresh.S))
            if c.n == 0:
                continue
            n = 1 + min(c.n - 1, int(o['f'] * c.n))
            arm = faults.Arm(kinds, n, o['exc'])
            e = attempt(lambda: op(b.S), arm)
            core.ctx.op(o['op'], n, c.n, o['exc'], e)
            core.ctx.sig(cfg_sig(cfg), o['op'], o['kinds'], int(4 * n / (c.n + 1)), o['exc'])
            if e is None:
                if arm.fired and o['exc'] in ('KeyboardInterrupt', 'SystemExit'):
                    core.ctx.probe('abort swallowed')
                if o['op'] == 'opt':
                    raise Skip('optimisation was not aborted')
                continue
            if arm.fired:
                core.ctx.probe('aborted ' + o['op'])
            what = 'after an aborted %s' % o['op']
        same(snap.hp_values(b.S, cfg), ref_values, 'values', 'hyper-parameter values ' + what)
        inputs_unchanged(b.reg)
        if o['check']:
            verify(plan['final'], what)
    if plan.get('other'):   # the analysis goes on with other data
        cfg = core.with_key(cfg, 'data', scaled(cfg['data'], plan['other']))
        gen.load(b.S, cfg, b.reg)
        refs.clear()
    if not (plan.get('skip') and plan.get('final_opt')):
        verify(plan['final'], 'after all failures')
    if plan.get('final_opt'):
        f = gen.build(cfg)
        reference(lambda: do_opt(f.S, plan['final_opt']))
        must(lambda: do_opt(b.S, plan['final_opt']), 'refit', 'optimisation after failures')
        same(snap.hp_values(b.S, cfg), snap.hp_values(f.S, cfg), 'optimum', 'optimum after failures', 1e-5, 1e-7)
        same(snap.batch(b.S, cfg, {}), snap.batch(f.S, cfg, {}), 'optimum', 'result of the optimisation after failures',
             1e-5, 1e-7)
        core.ctx.probe('optimisation after failures')


def scaled(d, f):
    def g(v):
        return [g(x) for x in v] if isinstance(v, list) else None if v is None else v * f
    return core.with_key(d, 'v', g(d['v']))


def run_online(p):
    plan = p
    cfg = plan['cfg']
    b = reference(lambda: gen.build_online(cfg))
    r = gen.build_online(cfg)
    data = gen.stream(cfg)
    for i in range(-1, len(data)):
        if i >= 0:
            reference(lambda: r.S.step(data[i]))
            must(lambda: b.S.step(data[i]), 'step', 'step %d after rejected calls' % i)
            same(snap.online(b.S, cfg), snap.online(r.S, cfg), 'online', 'online state after step %d' % i)
        for o in plan['ops']:
            if o['at'] == i:
                f, restore = reject(b, o['what'], cfg)
                e = attempt(f)
                core.ctx.op('reject', o['what'], e)
                if e is None:
                    raise Skip('not rejected: ' + o['what'])
                core.ctx.fault('rejected call')
                core.ctx.sig('online', o['what'], min(i, 2), bool(cfg.get('set_only')))

