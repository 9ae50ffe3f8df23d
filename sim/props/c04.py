"""C04: fit results depend only on the current configuration, not on history."""
import json

import numpy as np

from .. import boot, fork, world
from .common import *

RUNS = {'quick': 1900, 'thorough': 50000}
RULE = 'distinct pairs of (previous operation on the same study or on shared models, checked fit) x study kinds x ' \
       'models'


def plan(rng, tier):
    w = world.gen_world(rng)
    ns = len(w['kinds'])
    many = rng.random() < .08 and len([t for k, t in w['tms'] if k == 's']) > 1   # several optimisations
    if many:
        w['kinds'] = ['Study'] * ns
    ops = []
    cur = []
    est = rng.random() < .05
    if est:
        for o in w['oms']:
            if o['cls'] in gen.ESTIMATE and len(o['names']) == 1:
                gen.estimated(rng, o)
    for s in range(ns):
        c = world.compatible(w['kinds'][s], w['tms'])
        if not c:
            w['kinds'][s] = 'HyperStudy' if world.compatible('HyperStudy', w['tms']) else 'ChangepointStudy'
            c = world.compatible(w['kinds'][s], w['tms'])
        cur.append({'om': rng.randrange(len(w['oms'])), 'tm': rng.choice(c), 'd': rng.randrange(len(w['datas']))})
    init = [dict(c) for c in cur]
    long = tier == 'thorough' and rng.random() < .3
    for _ in range(rng.randint(4, 18 if long else 10)):
        s = rng.randrange(ns)
        k = w['kinds'][s]
        u = rng.random()
        if many and u < .7:
            u = rng.choice([.2, .4, .4])
        if k == 'OnlineStudy':
            ops.append({'op': 'step', 's': s})
            continue
        if u < 0.13:
            ops.append({'op': 'om', 's': s, 'i': rng.randrange(len(w['oms'])), 'new': rng.random() < .3})
        elif u < 0.26:
            ops.append({'op': 'tm', 's': s, 'i': rng.choice(world.compatible(k, w['tms'])), 'new': rng.random() < .2})
        elif u < 0.38:
            ops.append({'op': 'd', 's': s, 'i': rng.randrange(len(w['datas'])), 'tsbad': rng.random() < .1, 'new': rng.random() < .3})
        elif u < 0.48 and k == 'Study':
            ops.append({'op': 'opt', 's': s, 'fwd': rng.random() < .4, 'default': rng.random() < (.8 if many else .4)})
        elif u < 0.58:
            ops.append({'op': 'abort', 's': s, 'fit': gen.gen_fit(rng, k), 'f': round(rng.random(), 4),
                        'exc': rng.choice(ABORT)})
        elif u < 0.66:
            ops.append({'op': 'query', 's': s})
        else:
            f = gen.gen_fit(rng, k)
            o = {'op': 'fit', 's': s, 'fit': f}
            if k != 'Study' and rng.random() < .2:
                o['nJobs'] = rng.randint(2, 4)
            ops.append(o)
    for s in range(ns):
        if w['kinds'][s] != 'OnlineStudy':
            ops.append({'op': 'fit', 's': s, 'fit': gen.gen_fit(rng, w['kinds'][s])})
    return {'w': w, 'init': init, 'ops': ops, 'order': [rng.choice(['dot', 'dto', 'tdo', 'db'] + (
        ['tod', 'otd', 'odt', 'Bd'] if not est else [])) for _ in range(ns)]}


def shrink(p):
    for c in core.shrink_list(p['ops']):
        yield core.with_key(p, 'ops', c)
    w = p['w']
    for k in ('oms', 'datas'):
        for i, x in enumerate(w[k]):
            if k == 'oms':
                for c in core.shrink_om(x):
                    l = list(w[k])
                    l[i] = c
                    yield core.with_key(p, 'w', core.with_key(w, k, l))
            elif x.get('ts'):
                l = list(w[k])
                l[i] = core.with_key(x, 'ts', None)
                yield core.with_key(p, 'w', core.with_key(w, k, l))
    for i, (k, t) in enumerate(w['tms']):
        for c in core.shrink_tm(t):
            if k != 'c':
                l = list(w['tms'])
                l[i] = [k, c]
                yield core.with_key(p, 'w', core.with_key(w, 'tms', l))


def ref_fit(x, fit):
    """(exception, None, None) or (None, result, hyper-parameter values) of a fresh study"""
    f = gen.build(x)
    e = attempt(lambda: gen.do_fit(f.S, fit))
    if e is not None:
        return e, None, None
    return None, snap.batch(f.S, x, fit), snap.hp_values(f.S, x)


def ref_opt(x, names, fwd):
    f = gen.build(x)
    e = attempt(lambda: do_opt(f.S, names, fwd))
    if e is not None:
        return e, None, None
    return None, snap.batch(f.S, x, {}), snap.hp_values(f.S, x)


def ref_online(oc, n):
    """snapshots after each of n steps (None: the step is rejected)"""
    S = gen.new_study('OnlineStudy')
    S.setOM(gen.build_om(oc['om']), silent=True)
    for nm, t in oc['tms']:
        S.addTransitionModel(nm, gen.build_tm(t))
    out = []
    for x in gen.stream(oc)[:n]:
        if attempt(lambda: S.step(x)) is not None:
            out.append(None)
            break
        out.append(snap.online(S, oc))
    return out


def run(p):
    zyg = fork.Zygote()
    w = p['w']
    reg = gen.Reg()
    fns = {}
    renewed = set((o['op'], o['i']) for o in p['ops'] if o.get('new'))
    oms = reference(lambda: [gen.build_om(o, None if ('om', i) in renewed else reg, fns) for i, o in enumerate(w['oms'])])
    shared = {}
    tms = reference(lambda: [gen.build_tm(t, None if ('tm', i) in renewed else reg, shared)
                             for i, (k, t) in enumerate(w['tms'])])
    datas = [(gen.build_data(d['data']), gen.build_ts(d['ts'])) for d in w['datas']]
    for i, d in enumerate(datas):
        if ('d', i) in renewed:    # registered arrays are kept
            continue
        reg(d[0])
        if d[1] is not None:
            reg(d[1])
    del d
    tmspec = [t for k, t in w['tms']]
    cur = [dict(c) for c in p['init']]
    used = set()
    S, hist, pos = [], {}, {}
    for s, kind in enumerate(w['kinds']):
        S.append(gen.new_study(kind))
        c = cur[s]
        if kind == 'OnlineStudy':
            reference(lambda: S[s].setOM(oms[c['om']], silent=True))
            reference(lambda: S[s].addTransitionModel('T', tms[c['tm']]))
            hist[s] = []
            pos[s] = 0
            used.add(c['tm'])
        else:
            for x in p.get('order', [[], [], []])[s] or 'dot':
                if x == 'd' and w['datas'][c['d']]['data'].get('ex'):
                    S[s].loadExampleData(silent=True)
                elif x == 'd':
                    S[s].load(datas[c['d']][0], timestamps=datas[c['d']][1], silent=True)
                elif x == 'o':
                    reference(lambda: S[s].setOM(oms[c['om']], silent=True))
                elif x == 't':
                    S[s].setTM(tms[c['tm']], silent=True)
                elif x == 'b':
                    reference(lambda: S[s].set(oms[c['om']], tms[c['tm']], silent=True))
                elif x == 'B':
                    reference(lambda: S[s].set(tms[c['tm']], oms[c['om']], silent=True))
    prev = {}

    def cfg(s):
        c = cur[s]
        x = world.cfg_of(w, s, c['om'], c['tm'], c['d'])
        x['tm'] = tmspec[c['tm']]
        if c.get('tsbad'):
            x['ts'] = None
        return x

    for o in p['ops']:
        s = o['s']
        k = o['op']
        core.ctx.op(k, s, o.get('i'))
        c = cur[s]
        if k == 'om':
            c['om'] = o['i']
            if o.get('new'):   # an equal model; objects of the old one may be gone, their addresses free
                oms[o['i']] = reference(lambda: gen.build_om(w['oms'][o['i']], None, fns))
            reference(lambda: S[s].setOM(oms[o['i']], silent=True))
        elif k == 'tm':
            c['tm'] = o['i']
            if o.get('new'):
                tms.append(reference(lambda: gen.build_tm(tmspec[o['i']], None, shared)))
                tmspec.append(tmspec[o['i']])
                w['tms'].append(w['tms'][o['i']])
                c['tm'] = len(tms) - 1
            S[s].setTM(tms[c['tm']], silent=True)
        elif k == 'd':
            c['d'] = o['i']
            ex = w['datas'][o['i']]['data'].get('ex')
            c['tsbad'] = o.get('tsbad', False) and not ex
            if o.get('new') and not ex:
                d = w['datas'][o['i']]
                datas[o['i']] = gen.build_data(d['data']), gen.build_ts(d['ts'])
            a, ts = datas[o['i']]
            d = None
            if ex:
                S[s].loadExampleData(silent=True)
                core.ctx.probe('example data')
            else:
                S[s].loadData(a, timestamps=[0, 1] if o.get('tsbad') else ts, silent=True)
            if w['oms'][c['om']].get('estimate'):   # values are estimated when the model is set
                reference(lambda: S[s].setOM(oms[c['om']], silent=True))
        elif k == 'step':
            d = w['datas'][c['d']]['data']
            st = gen.stream({'data': d})
            if pos[s] < len(st):
                x = st[pos[s]]
                pos[s] += 1
                if hist[s][-1:] == [None]:
                    continue
                hist[s].append(None)
                if attempt(lambda: S[s].step(x)) is None:
                    hist[s][-1] = snap.online(S[s], online_cfg(w, c))
                sig(prev, s, w, k, c)
        elif k == 'query':
            x = cfg(s)
            for h in ('h1', 's2', 'w'):
                snap.safe(S[s].getHyperParameterValue, h)
            for n in x['om']['names']:
                snap.safe(S[s].getParameterDistributions, n)
                snap.safe(S[s].getParameterMeanValues, n)
            if w['kinds'][s] != 'Study':
                for n in snap.hps(x):
                    snap.safe(S[s].getHyperParameterDistribution, n)
        elif k == 'abort':
            n = 1 + int(o['f'] * 60)
            attempt(lambda: gen.do_fit(S[s], o['fit']), faults.Arm(ABORTPOINTS, n, o['exc']))
        elif k == 'opt':
            x = cfg(s)
            names = optimizable(x)
            if not names or c['tm'] in used or any(world.ids_of(tmspec[c['tm']]) & world.ids_of(tmspec[u])
                                                     for u in used):
                continue
            args = [] if o.get('default') else names
            e, ref, val = zyg(ref_opt, x, args, o['fwd'])
            if e is not None:
                continue
            must(lambda: do_opt(S[s], args, o['fwd']), 'raise', 'optimisation of study %d' % s)
            same(snap.hp_values(S[s], x), val, 'optimum', 'optimum of study %d' % s, 1e-4, 1e-6)
            same(snap.batch(S[s], x, {}), ref, 'result', 'result of optimisation of study %d' % s, 1e-4, 1e-6)
            vals = dict((n, float(S[s].getHyperParameterValue(n))) for n in names)
            tmspec[:] = world.optimised(tmspec, c['tm'], vals)
            sig(prev, s, w, k, c)
        elif k == 'fit':
            x = cfg(s)
            e, ref, val = zyg(ref_fit, x, o['fit'])
            over = {'nJobs': o['nJobs']} if o.get('nJobs') else {}
            if e is not None:
                e2 = attempt(lambda: gen.do_fit(S[s], o['fit'], **over))
                core.ctx.probe('rejected fit')
                continue
            must(lambda: gen.do_fit(S[s], o['fit'], **over), 'raise', 'fit of study %d' % s)
            same(snap.batch(S[s], x, o['fit']), ref, 'result', 'fit of study %d' % s)
            same(snap.hp_values(S[s], x), val, 'values', 'values after fit of study %d' % s)
            core.ctx.probe('checked fit')
            sig(prev, s, w, k, c)
        prev.setdefault(s, []).append(k)
        prev.setdefault(('tm', c['tm']), []).append((k, s))
        prev.setdefault(('om', c['om']), []).append((k, s))
        for i in world.ids_of(tmspec[c['tm']]):
            prev.setdefault(('id', i), []).append((k, s))
    for s in hist:
        ref = zyg(ref_online, online_cfg(w, cur[s]), len(hist[s]))
        for i, (a, b) in enumerate(zip(hist[s], ref)):
            if (a is None) != (b is None):
                raise Violation('online', 'step %d of online study %d: %s' % (
                    i, s, 'rejected, but accepted by a fresh study' if a is None else 'not rejected'))
            same(a, b, 'online', 'online study %d after step %d' % (s, i))
    inputs_unchanged(reg)
    zyg.close()


def online_cfg(w, c):
    return {'kind': 'OnlineStudy', 'om': w['oms'][c['om']], 'data': w['datas'][c['d']]['data'], 'store': False,
            'tms': [['T', w['tms'][c['tm']][1]]]}


def sig(prev, s, w, k, c):
    last = tuple(prev.get(s, [])[-2:])
    other = tuple((a, w['kinds'][b]) for a, b in prev.get(('tm', c['tm']), [])[-2:] if b != s)
    for i in world.ids_of(w['tms'][c['tm']][1]):
        parts = [(a, w['kinds'][b]) for a, b in prev.get(('id', i), [])[-2:]]
        core.ctx.sig('shared part', w['kinds'][s], tuple(parts), k, tm_sig(w['tms'][c['tm']][1]))
        core.ctx.probe('fit with a part of another model', 1)
    core.ctx.sig(w['kinds'][s], last, other, k, tm_sig(w['tms'][c['tm']][1]), w['oms'][c['om']]['cls'])
