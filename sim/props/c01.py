"""C01: parallel hyper-parameter fits give the same result as serial fits."""
import json

from .common import *

RUNS = {"quick": 800, 'thorough': 40000}
RULE = 'distinct (study kind, models, hyper-parameter layout) x (workers, combinations mod workers, worker mode, ' \
       'completion order)'


def plan(rng, tier):
    kind = rng.choice(['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    big = rng.random() < 0.04
    cfg = gen.gen_cfg(rng, kind, small=True, budget=40 if big else 14, hi=8, need_vec=rng.random() < .95)
    if rng.random() < .06:
        kind, cfg = 'HyperStudy', gen.gen_extreme_cfg(rng)
    many = rng.random() < .04
    if many:
        cfg = gen.gen_many_cfg(rng)
        kind = cfg['kind']
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        u = rng.random()
        nj = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 11, 16, 32])
        o = {'op': 'fit', 'nJobs': nj, 'fit': gen.gen_fit(rng, kind)}
        if u < 0.2:
            o['nJobs'] = 1
        ops.append(o)
        if rng.random() < 0.15 and not many:
            ops.append({'op': 'data', 'cfg': core.without(gen.gen_cfg(rng, kind, om=cfg['om'], small=True, budget=4), 'fit')})
    ops.append({'op': 'fit', 'nJobs': rng.choice([2, 3, 4, 5, 9]), 'fit': gen.gen_fit(rng, kind)})
    return {'cfg': cfg, 'ops': ops, 'mode': 'fork' if rng.random() < 0.3 else 'inproc', 'sched': rng.randrange(10 ** 9)}


def run(p):
    cfg = p['cfg']
    pool.reset(p['sched'], p['mode'])
    b = reference(lambda: gen.build(cfg))
    for k, o in enumerate(p['ops']):
        if o['op'] == 'data':  # other data and another transition model on the same study
            cfg = core.with_key(o['cfg'], 'om', cfg['om'])
            gen.load(b.S, cfg, b.reg)
            tm = reference(lambda: gen.build_tm(cfg['tm'], b.reg))
            b.S.setTM(tm, silent=True)
            core.ctx.op('data')
            continue
        r = gen.build(cfg)
        reference(lambda: gen.do_fit(r.S, o['fit']))
        ref = snap.batch(r.S, cfg, o['fit'])
        n0 = len(pool.world.trace)
        must(lambda: gen.do_fit(b.S, o['fit'], nJobs=o['nJobs']), 'raise', 'parallel fit with %d workers' % o['nJobs'])
        same(snap.batch(b.S, cfg, o['fit']), ref, 'result', 'fit %d with %d workers' % (k, o['nJobs']), 1e-6, 1e-9)
        same(snap.hp_values(b.S, cfg), snap.hp_values(r.S, cfg), 'values', 'values after parallel fit')
        inputs_unchanged(b.reg)
        nc = gen.combos(cfg['tm'], len(gen.times(cfg)))
        tr = pool.world.trace[n0:]
        core.ctx.op('fit', o['nJobs'], nc, tuple(tr))
        core.ctx.probe('parallel fit' if tr else 'fit without pool')
        if o['nJobs'] > nc:
            core.ctx.probe('more workers than combinations')
        if o['nJobs'] > 1 and nc % o['nJobs']:
            core.ctx.probe('uneven split')
        core.ctx.sig(cfg_sig(cfg), o['nJobs'], nc % max(o['nJobs'], 1), p['mode'], tr[-1][1:] if tr else None)
    core.ctx.fault('completion orders', pool.world.completed)
