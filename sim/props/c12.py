"""C12: independent studies and concurrent readers do not disturb each other."""
import numpy as np

from .. import fork, queries, threads, world
from .common import *

RUNS = {'quick': 1400, 'thorough': 60000}
RULE = 'distinct (mode, kinds of studies) x (function that is left, line granularity) at a thread switch'
STUB = STUB + ['choice of the running thread (seeded scheduler, switches at lines or instructions of bayesloop)']


def warm():
    threads.codes()


def gen_switches(rng):
    style = rng.choice(['fine', 'fine', 'coarse', 'coarse', 'few', 'burst'])
    if style == 'fine':
        l = [rng.randint(1, 12) for _ in range(rng.randint(20, 300))]
    elif style == 'coarse':
        l = [int(10 ** rng.uniform(.7, 3.3)) for _ in range(rng.randint(5, 60))]
    elif style == 'few':
        l = [int(10 ** rng.uniform(0, 3.8)) for _ in range(rng.randint(1, 4))]
    else:
        l = []
        for _ in range(rng.randint(2, 6)):
            l.append(int(10 ** rng.uniform(1, 3.3)))
            l += [rng.randint(1, 6) for _ in range(rng.randint(5, 40))]
    return [[g, rng.randrange(6)] for g in l]


def own_tm(rng, kind, om, ts, names):
    if kind == 'ChangepointStudy':
        for _ in range(50):
            t = gen.gen_cp_tm(rng, om, ts, 8)
            if t is not None and gen.combos(t, len(ts)) <= 12:
                return t
        kind = 'HyperStudy'
    while True:
        t = gen.gen_tm(rng, om, ts, kind != 'Study', 4, names)
        if gen.combos(t, len(ts)) <= 6 and not any(v[0] == 'all' for _, v in gen.tm_hps(t)) and \
                not gen.hyper_overlap(t, ts) and not (kind == 'HyperStudy' and gen.combos(t, len(ts)) < 2):
            return t


def plan(rng, tier):
    p = {'sw': gen_switches(rng), 'opc': rng.random() < .12}
    if rng.random() < .4:
        if rng.random() < .5:
            cfg = gen.gen_online(rng, hi=6, simple=True)
            n = len(cfg['data']['v'])
        else:
            cfg = gen.gen_cfg(rng, small=True, budget=6, hi=6, simple=True)
            n = None
        p.update(mode='read', cfg=cfg, fit={'silent': True, 'forwardOnly': rng.random() < .2})
        only = None
        if rng.random() < .3:   # all threads ask the same kind of question
            only = [queries.gen_query(rng, cfg, plots=False, n=n)['q']]
        p['threads'] = [[queries.gen_query(rng, cfg, plots=False, bad=.06, n=n, only=only, threads=True)
                         for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([2, 2, 3]))]
        return p
    nthr = rng.choice([2, 2, 2, 3])
    oms = world.variant_oms(rng, rng.choice([1, 1, 2]))
    datas = []
    for _ in range(rng.choice([1, 1, 2])):
        d = gen.gen_data(rng, oms[0], hi=6, multi=True, missing=oms[0]['cls'] != 'Poisson', lo=5)
        d.pop('as', None)
        datas.append({'data': d, 'ts': gen.gen_ts(rng, len(d['v']))})
    p.update(mode='indep', oms=oms, _datas=datas, threads=[])
    alike = rng.random() < .5
    for i in range(nthr):
        kind = rng.choice(['Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy', 'OnlineStudy'])
        if alike and i:
            kind = p['threads'][0]['kind']
        o = rng.randrange(len(oms))
        k = rng.randrange(len(datas))
        cfg = {'om': oms[o], 'data': datas[k]['data'], 'ts': datas[k]['ts'] if kind != 'OnlineStudy' else None}
        tt = gen.times(cfg)
        t = own_tm(rng, kind, oms[o], tt, gen.Names(rng))
        if kind == 'ChangepointStudy' and not gen.tm_points(t):
            kind = 'HyperStudy'
        if alike and i and rng.random() < .7 and k == p['threads'][0]['d']:
            # same structure, other hyper-parameter values: looks alike to anything that is shared by accident
            t = perturb(rng, p['threads'][0]['tm'])
        th = {'kind': kind, 'om': o, 'd': k, 'tm': t, 'ops': [], 'share': rng.random() < .8}
        for _ in range(rng.randint(1, 2)):
            if kind == 'OnlineStudy':
                th['ops'].append({'op': 'step', 'n': rng.randint(2, 4)})
                continue
            f = gen.gen_fit(rng, kind)
            f['silent'] = rng.random() < .7
            if kind != 'Study' and rng.random() < .3:
                f['nJobs'] = rng.choice([2, 2, 3])
            th['ops'].append({'op': 'fit', 'fit': f})
            if kind == 'Study' and rng.random() < .3 and optimizable(core.with_key(cfg, 'tm', t)):
                th['ops'].append({'op': 'opt', 'p': optimizable(core.with_key(cfg, 'tm', t))[:1]})
        p['threads'].append(th)
    return p


def perturb(rng, t):
    if 'sub' in t:
        return core.with_key(t, 'sub', [perturb(rng, s) for s in t['sub']])
    if 'v' not in t or t['t'] in ('CP', 'BP'):
        return t
    vs = []
    for v in t['v']:
        if v[0] == 's':
            vs.append(['s', round(v[1] * rng.choice([.5, .7, 1.]), 4)])
        elif v[0] == 'cint':
            vs.append(['cint', v[1], round(v[1] + (v[2] - v[1]) * rng.choice([.5, .8]), 4), v[3]])
        else:
            vs.append([v[0], [round(x * rng.choice([.6, .8]), 4) for x in v[1]] if v[0] != 'ai' else v[1]])
        flat = vs[-1][1] if isinstance(vs[-1][1], list) else [0]
        if len(set(flat)) < len(flat):
            vs[-1] = v
    return core.with_key(t, 'v', vs)


# ----------------------------------------------------------------------------------------------------------------

def cfg_of(p, th):
    return {'kind': th['kind'], 'om': p['oms'][th['om']], 'tm': th['tm'], 'tms': [['T', th['tm']]], 'store': True,
            'data': p['_datas'][th['d']]['data'], 'ts': p['_datas'][th['d']]['ts'] if th['kind'] != 'OnlineStudy' else None, 'set_only': True}


def sessions(p):
    """one callable per thread; shared objects are created here"""
    reg = gen.Reg()
    fns = {}
    oms = [gen.build_om(o, reg, fns) for o in p['oms']]
    data = [(gen.build_data(d['data']), gen.build_ts(d['ts'])) for d in p['_datas']]
    fns = []
    for th in p['threads']:
        fns.append(lambda th=th: session(p, th, oms, *data[th['d']]))
    return fns


def session(p, th, oms, data, ts):
    """all results of one thread"""
    cfg = cfg_of(p, th)
    out = []
    try:
        om = oms[th['om']] if th['share'] else gen.build_om(cfg['om'])
        if th['kind'] == 'OnlineStudy':
            S = gen.build_online(cfg, om=om).S
        else:
            S = gen.new_study(th['kind'])
            S.loadData(data, timestamps=ts, silent=True)
            S.setOM(om, silent=True)
            S.setTM(gen.build_tm(th['tm'], gen.Reg()), silent=True)
        stream = gen.stream(cfg)
        i = 0
        for o in th['ops']:
            if o['op'] == 'step':
                for _ in range(o['n']):
                    if i < len(stream):
                        S.step(stream[i])
                        i += 1
                        if i >= gen.om_seg(cfg['om']):
                            out.append(snap.online(S, cfg, history=False))
                out.append(snap.online(S, cfg))
            elif o['op'] == 'opt':
                do_opt(S, o['p'])
                out.append(snap.batch(S, cfg, {}))
            else:
                gen.do_fit(S, o['fit'])
                out.append(snap.batch(S, cfg, o['fit']))
                out.append(snap.hp_values(S, cfg))
    except pool.SimHang:
        raise
    except Exception as e:
        out.append(snap.Exc(e))
    return out


def reader(S, qs):
    out = []
    for q in qs:
        out.append(snap.safe(queries.ask, S, q))
    return out


def build_read(p):
    cfg = p['cfg']
    if cfg['kind'] == 'OnlineStudy':
        b = gen.build_online(cfg)
        for x in gen.stream(cfg):
            b.S.step(x)
    else:
        b = gen.build(cfg)
        gen.do_fit(b.S, p['fit'])
    return b.S


def run(p):
    if p['mode'] == 'read':
        S = reference(lambda: build_read(p))
        kinds = ('read', p['cfg']['kind'])
        ref = fork.in_child(lambda: [reader(S, qs) for qs in p['threads']])
        fns = [lambda qs=qs: reader(S, qs) for qs in p['threads']]
    else:
        kinds = ('indep',) + tuple(t['kind'] for t in p['threads'])
        ref = [fork.in_child(lambda: reference(lambda: sessions(p))[i]()) for i in range(len(p['threads']))]
        fns = sessions(p)
        if all(isinstance(r[-1], snap.Exc) for r in ref):
            raise Skip(repr(ref[0][-1]))

    def on_switch(a, b, fn, line, step):
        core.ctx.op('switch', a, b, fn, line)
        core.ctx.sig(kinds, fn, p['opc'])
        core.ctx.fault('thread switch')
    s = threads.Sched(fns, p['sw'], p['opc'], on_switch)
    res = s.run()
    core.ctx.probe('switches', s.switched)
    core.ctx.probe('lines executed under the scheduler', s.steps)
    if not s.switched:
        core.ctx.probe('run without a switch')
    for i, (a, b) in enumerate(zip(res, ref)):
        if len(a) != len(b):
            raise Violation(p['mode'], 'thread %d ends with %s, alone it ends with %s' % (i, snap.brief(a[-1]), snap.brief(b[-1])))
        same(a, b, p['mode'], 'results of thread %d (concurrent != sequential)' % i, 1e-9, 1e-12)
        core.ctx.op('ok', i, len(a))
    if p['mode'] == 'read':
        # nothing was left behind by the concurrent readers
        res = [reader(S, qs) for qs in p['threads']]
        same(res, ref, 'after', 'answers after the concurrent queries', 1e-9, 1e-12)
