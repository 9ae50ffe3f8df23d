"""C08: every online data point counts exactly once, even if steps fail."""
import numpy as np

from .. import fork, queries
from .common import *

RUNS = {'quick': 2500, 'thorough': 40000}
RULE = 'distinct (observation model, prior kind, transition models, history stored) x (failure kind, exception, ' \
       'quarter of the step, number of the step)'

POINTS = {'all': ABORTPOINTS + ('num', 'stdout'), 'om': ('om',), 'tm': ('tm',), 'user': ('user',), 'alloc': ('alloc',),
          'num': ('num',), 'stdout': ('stdout',), 'line': ('line',), 'mline': ('mline',)}
BAD = ['none', 'str', 'wide', 'dict', 'obj', 'narrow', 'deep', 'empty']


def plan(rng, tier):
    cfg = gen.gen_online(rng, hi=40 if rng.random() < .02 else 7) if rng.random() > .01 else gen.gen_long(rng)
    n = len(cfg['data']['v'])
    att = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        i = rng.choice([0, 0, 1, rng.randrange(n), n - 1])
        if rng.random() < .2:
            att.append({'at': i, 'k': 'bad', 'bad': rng.choice(BAD)})
        else:
            att.append({'at': i, 'k': 'abort', 'f': round(rng.choice([0., rng.random(), rng.random(), .999]), 4),
                        'exc': rng.choice(ABORT + ['OSError', 'BrokenPipeError']),
                        'kinds': rng.choice(['all', 'all', 'all', 'om', 'tm', 'user', 'alloc', 'num', 'stdout', 'line',
                                             'line', 'line', 'mline'])})
            if rng.random() < .25 and n > 1:    # the failed step belongs to another data point
                att[-1]['x'] = rng.choice([j for j in range(n) if j != i])
            if 'line' in att[-1]['kinds']:
                att[-1]['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit'])
    p = {'cfg': cfg, 'att': att}
    if rng.random() < .12:
        # a transition model that is added although steps have failed before
        names = gen.Names(prefix='late')
        while True:
            t = gen.gen_tm(rng, cfg['om'], list(range(n)), True, 3, names)
            if gen.combos(t) <= 4 and not any(v[0] == 'all' for _, v in gen.tm_hps(t)):
                break
        p['late'] = t
    return p


def bad_point(what, x):
    if what == 'none':
        return None
    if what == 'str':
        return 'abc'
    if what == 'wide':
        return np.array([1., 2., 3., 4.])
    if what == 'dict':
        return {'a': 1}
    if what == 'obj':
        return object()
    if what == 'narrow':
        return 1. if isinstance(x, np.ndarray) else np.array([[1.], [2.]])
    if what == 'deep':
        return np.ones((2, 2, 2))
    return np.array([])


def observe(S, cfg):
    o = snap.online(S, cfg)
    o['values'] = dict((n, snap.safe(S.getHyperParameterValue, n)) for n, v in gen.online_hps(cfg))
    return o


def run(p):
    cfg = p['cfg']
    u = reference(lambda: gen.build_online(cfg))
    b = gen.build_online(cfg)
    data = gen.stream(cfg)
    for i, x in enumerate(data):
        for a in [a for a in p['att'] if a['at'] == i]:
            before = observe(b.S, cfg)
            if a['k'] == 'bad':
                v = bad_point(a['bad'], x)
                if fork.in_child(lambda: attempt(lambda: b.S.step(v))) is None:
                    core.ctx.probe('unusual data point accepted')
                    continue
                e = attempt(lambda: b.S.step(v))
                core.ctx.fault('unusable data point')
                core.ctx.sig(cfg_sig(cfg), a['bad'], min(i, 2))
            else:
                kinds = POINTS[a['kinds']]
                y = data[a['x']] if a.get('x', 10 ** 9) < len(data) else x

                def count():
                    with faults.lines(kinds), faults.Counter(kinds) as c:
                        attempt(lambda: b.S.step(y))
                    return c.n
                n = fork.in_child(count)
                if not n:
                    continue
                arm = faults.Arm(kinds, 1 + min(n - 1, int(a['f'] * n)), a['exc'])
                e = attempt(lambda: b.S.step(y), arm)
                core.ctx.sig(cfg_sig(cfg), a['kinds'], a['exc'], int(4. * arm.n / (n + 1)), min(i, 2), cfg['store'])
                if e is None:
                    raise Skip('the failure was absorbed')
            core.ctx.op('failed step', i, e)
            core.ctx.probe('failed step')
            same(observe(b.S, cfg), before, 'changed', 'state after a failed step (%s, %s)' % (
                a.get('bad') or a.get('kinds'), e), *TINY)
            inputs_unchanged(b.reg)
        if i == 0 and p.get('late') is not None and not cfg.get('set_only') and not cfg.get('tmprior'):
            for s in (u, b):
                t = gen.build_tm(p['late'], s.reg)
                reference(lambda: s.S.addTransitionModel('late', t))
        reference(lambda: u.S.step(x))
        must(lambda: b.S.step(x), 'retry', 'repeated step %d' % i)
        core.ctx.op('step', i)
        same(observe(b.S, cfg), observe(u.S, cfg), 'twin', 'state after step %d, compared to a stream without failures'
             % i)
    inputs_unchanged(b.reg)
