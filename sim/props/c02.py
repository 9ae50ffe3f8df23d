"""C02: a failing worker process never leads to a silently wrong fit."""
import json

from .common import *

RUNS = {'quick': 1700, 'thorough': 40000}
RULE = 'distinct (study kind, transition model layout) x (worker count, fault kind, faulty worker, stage)'


def gen_fault(rng, nj):
    k = rng.choice(['task', 'task', 'task', 'unpicklable', 'spawn', 'spawn2', 'interrupt', 'joininterrupt',
                    'killidle', 'killbusy', 'stdout'])
    f = {'k': k}
    if k == 'task':
        f.update(c=rng.randrange(nj), n=rng.choice([1, 1, 2, 3, 5, rng.randint(1, 60)]),
                 exc=rng.choice(['MemoryError', 'SimFault', 'ValueError', 'FloatingPointError', 'SystemExit',
                                 'AttributeError', 'StopIteration', 'IndexError', 'OSError', 'OSError', 'BrokenPipeError',
                                 'RuntimeError', 'KeyError', 'TypeError', 'EOFError', 'ZeroDivisionError']))
    elif k == 'unpicklable':
        f.update(c=rng.randrange(nj))
    elif k == 'interrupt':
        f.update(c=rng.randrange(nj))
    elif k == 'killidle':
        f.update(w=rng.randrange(nj))
    elif k == 'killbusy':
        f.update(c=rng.randrange(nj))
    return f


def plan(rng, tier):
    kind = rng.choice(['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=10, hi=7, need_vec=True)
    if rng.random() < .03:
        cfg = gen.gen_many_cfg(rng, kind)
    att = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        nj = rng.choice([2, 2, 3, 3, 4, 5, 7])
        att.append({'nJobs': nj, 'fit': gen.gen_fit(rng, kind), 'faults': [gen_fault(rng, nj) for _ in
                                                                         range(rng.choice([1, 1, 1, 2]))]})
    nj = rng.choice([a['nJobs'] for a in att] * 3 + [1, 2, 3, 4])
    return {'cfg': cfg, 'att': att, 'final': {'nJobs': nj, 'fit': gen.gen_fit(rng, kind)},
            'mode': 'fork' if rng.random() < 0.12 else 'inproc', 'sched': rng.randrange(10 ** 9),
            'prefit': rng.random() < .3}


def run(p):
    cfg = p['cfg']
    pool.reset(p['sched'], p['mode'])
    b = reference(lambda: gen.build(cfg))
    refs = {}

    def ref(fit):
        k = json.dumps(core.without(fit, 'silent'), sort_keys=True)
        if k not in refs:
            refs[k] = reference(lambda: fit_result(cfg, fit))
        return refs[k]
    vals = snap.hp_values(gen.build(cfg).S, cfg)
    if p['prefit']:
        must(lambda: gen.do_fit(b.S, p['final']['fit'], nJobs=p['final']['nJobs']), 'raise', 'fit before failures')
    w = pool.world
    for a in p['att']:
        arm = None
        fs = []
        for f in a['faults']:
            f = dict(f)
            if f['k'] in ('task', 'unpicklable', 'interrupt', 'killbusy'):
                f['m'] = w.maps + 1
            elif f['k'] == 'spawn':
                f['n'] = w.spawns + 1
            elif f['k'] == 'spawn2':
                f.update(k='spawn', n=w.spawns + 2)
            elif f['k'] == 'joininterrupt':
                f['n'] = w.joins + 1
            elif f['k'] == 'stdout':
                arm = faults.Arm(['stdout'], 1 + f.get('n', 0), 'BrokenPipeError')
                continue
            fs.append(f)
        w.faults = fs
        before = dict(w.hits)
        r = ref(a['fit'])
        try:
            e = attempt(lambda: gen.do_fit(b.S, a['fit'], nJobs=a['nJobs']), arm)
        except pool.SimHang:
            if w.hits.get('killbusy', 0) > before.get('killbusy', 0):
                raise core.Known('killed-worker', 'a worker process that is killed while it works blocks the fit')
            raise
        hit = sorted(k for k in w.hits if w.hits[k] > before.get(k, 0))
        core.ctx.op('fit', a['nJobs'], tuple(hit), e)
        core.ctx.sig(cfg['kind'], tm_sig(cfg['tm']), a['nJobs'], tuple(hit), e is None, w.trace[-1:] )
        if e is None:
            core.ctx.probe('fit survives' if hit else 'fault not reached')
            same(snap.batch(b.S, cfg, a['fit']), r, 'silent', 'a fit with failing worker (%s) returns normally, but'
                 % hit, 1e-6, 1e-9)
        else:
            core.ctx.probe('fit raises')
        same(snap.hp_values(b.S, cfg), vals, 'values', 'hyper-parameter values after failing worker')
        inputs_unchanged(b.reg)
        w.faults = []
    f = p['final']
    must(lambda: gen.do_fit(b.S, f['fit'], nJobs=f['nJobs']), 'retry', 'repeated fit')
    same(snap.batch(b.S, cfg, f['fit']), ref(f['fit']), 'result', 'repeated fit', 1e-6, 1e-9)
    same(snap.hp_values(b.S, cfg), vals, 'values', 'hyper-parameter values after the repeated fit')
    for k, n in w.hits.items():
        core.ctx.fault(k, n)
