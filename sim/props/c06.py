"""C06: inputs are never modified and returned values never change later."""
import numpy as np

from .. import queries, world
from .common import *

RUNS = {'quick': 2000, 'thorough': 60000}
RULE = 'distinct (study kind, query or input kind) x (later operation, aborted or not) x (observation model, prior kind)'


def plan(rng, tier):
    if rng.random() < .4:
        cfg = gen.gen_online(rng, hi=6)
        n = len(cfg['data']['v'])
        ops = []
        for i in range(n):
            o = {'op': 'step', 'i': i}
            if rng.random() < .15:
                o.update(f=round(rng.random(), 3), exc=rng.choice(ABORT))
            ops.append(o)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ops.append({'op': 'q', 'q': queries.gen_query(rng, cfg, plots=rng.random() < .3, bad=.02, n=i + 1)})
        return {'mode': 'online', 'cfg': cfg, 'ops': ops, 'ro': rng.random() < .2}
    kind = rng.choice(['Study', 'Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    cfg = gen.gen_cfg(rng, kind, small=True, budget=7, hi=7)
    opt = optimizable(cfg) if kind == 'Study' else []
    ops = []
    for _ in range(rng.choice([2, 3, 3, 4])):
        u = rng.random()
        if opt and u < .25:
            o = {'op': 'opt', 'p': rng.sample(opt, rng.randint(0, len(opt)))}
        elif u < .4:
            o = {'op': 'reload'}
        elif u < .5:
            o = {'op': 'om'}
        elif u < .57:
            o = {'op': 'est'}
        else:
            o = {'op': 'fit', 'fit': gen.gen_fit(rng, kind, full=rng.random() < .7)}
            if kind != 'Study' and rng.random() < .15:
                o['nJobs'] = rng.choice([2, 3])
        if o['op'] in ('fit', 'opt') and rng.random() < .25:
            o.update(f=round(rng.random(), 3), exc=rng.choice(ABORT))
        ops.append(o)
        for _ in range(rng.choice([0, 1, 2, 3])):
            ops.append({'op': 'q', 'q': queries.gen_query(rng, cfg, plots=rng.random() < .3, bad=.02)})
    return {'mode': 'batch', 'cfg': cfg, 'ops': ops, 'second': rng.random() < .4, 'ro': rng.random() < .2}


def run(p):
    cfg = p['cfg']
    online = p['mode'] == 'online'
    reg = gen.Reg(p.get('ro'))
    b = reference(lambda: (gen.build_online if online else gen.build)(cfg, reg))
    data = [reg(x) for x in gen.stream(cfg)] if online else None
    second = None
    if p.get('second'):  # another study with the same inputs and model instances
        second = gen.new_study(cfg['kind'])
        for d, t in [(reg(gen.build_data(cfg['data'])), gen.build_ts(cfg.get('ts')))]:
            second.loadData(d, timestamps=t if t is None else reg(t), silent=True)
        second.setOM(b.om, silent=True)
        second.setTM(b.tm, silent=True)
    kept = []   # (operation number, query, object, private copy)

    def verify(what):
        inputs_unchanged(reg, 'input', 'input after ' + what)
        for k, q, o, c in kept:
            core.ctx.checks += 1
            if not gen._equal(o, c):
                raise Violation('returned', 'value returned by %s changed during %s: now %s, was %s' % (
                    q, what, snap.brief(o), snap.brief(c)))
    verify('setup')
    for k, o in enumerate(p['ops']):
        S = second if second is not None and k % 3 == 2 else b.S
        if o['op'] == 'q':
            q = o['q']
            try:
                v = queries.ask(S, q, reg, raw=True)
                for a in queries.arrays(v):
                    kept.append((k, q['q'], a, gen._copy(np.asarray(a))))
                core.ctx.probe('kept value of ' + q['q'])
            except (core.Violation, core.Skip):
                raise
            except Exception as e:
                core.ctx.probe('rejected query')
            finally:
                if queries.uses_plot(q):
                    queries.close()
            core.ctx.op('q', q['q'])
            verify('query ' + q['q'])
            continue
        if o['op'] == 'step':
            def f():
                S.step(data[o['i']])
        elif o['op'] == 'opt':
            def f():
                S.optimize(reg(list(o['p'])), **OPT)
        elif o['op'] == 'reload':
            def f():
                gen.load(S, cfg, reg)
        elif o['op'] == 'om':
            def f():
                S.setOM(gen.build_om(cfg['om'], reg), silent=True)
                S.setTM(gen.build_tm(cfg['tm'], reg), silent=True)
        elif o['op'] == 'est':   # parameter values estimated from the data
            def f():
                c = dict(cfg['om'])
                c['estimate'] = True
                c['prior'] = ['none']
                import bayesloop as bl
                T = bl.Study(silent=True)
                gen.load(T, cfg, reg)
                T.set(gen.build_om(c, reg), bl.tm.Static(), silent=True)
                gen.do_fit(T, {'silent': True})
        else:
            def f():
                gen.do_fit(S, o['fit'], **({'nJobs': o['nJobs']} if 'nJobs' in o else {}))
        e = None
        if 'f' in o:
            arm = faults.Arm(ABORTPOINTS, 1 + int(o['f'] * 40), o['exc'])
            e = attempt(f, arm)
            if o['op'] == 'step' and e is not None:
                e2 = attempt(f)
        else:
            e = attempt(f)
        core.ctx.op(o['op'], e)
        core.ctx.sig(cfg['kind'], cfg['om']['cls'], cfg['om']['prior'][0], o['op'], e, tuple(sorted(set(
            q for _, q, _, _ in kept)))[:3], tm_sig(cfg['tm'] if 'tm' in cfg else cfg['tms'][0][1]))
        verify(o['op'] + (' (%s)' % e if e else ''))
