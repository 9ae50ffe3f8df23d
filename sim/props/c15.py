"""C15: results do not depend on clock, output, memory contents or random state."""
import gc
import os
import random
import shutil
import tempfile

import numpy as np

from .. import boot, fork, fresh, memory
from .common import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = 'distinct (study kind, models) x (operations) x (clock policy, memory content, verbosity, failing write)'


def prepare():
    memory.prepare()


def gen_env(rng):
    return {'clock': rng.choice(['tick', 'stand', 'back', 'jump', 'leap', 'leap']), 'cseed': rng.randrange(1000),
            'poison': rng.choice(['nan', 1e300, -1., 0., 'inf', 1e-300]), 'silent': rng.random() < .4,
            'seed': rng.randrange(10 ** 6), 'err': rng.choice(['ignore', 'warn']),
            'print': rng.choice([8, 8, 1, 17]), 'limit': rng.choice([1000, 2]),
            'gc': rng.choice([None, None, 'off', 'often']), 'cpus': rng.choice([None, 1, 2, 64]),
            'cwd': rng.choice([None, 'scratch', 'gone'])}


def plan(rng, tier):
    u = rng.random()
    if u < .35:
        cfg = gen.gen_online(rng, hi=7)
        p = {'mode': 'online', 'cfg': cfg}
        nops = len(cfg['data']['v'])
    else:
        kind = rng.choice(['Study', 'Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy'])
        cfg = gen.gen_cfg(rng, kind, small=True, budget=8, hi=8)
        opt = optimizable(cfg) if kind == 'Study' else []
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if opt and rng.random() < .45:
                ops.append({'op': 'opt', 'p': rng.sample(opt, rng.randint(1, len(opt)))})
            else:
                o = {'op': 'fit', 'fit': gen.gen_fit(rng, kind)}
                o['fit'].pop('silent')
                if kind != 'Study' and rng.random() < .2:
                    o['nJobs'] = rng.choice([2, 3])
                ops.append(o)
        p = {'mode': 'batch', 'cfg': cfg, 'ops': ops}
        nops = len(ops)
    p['envs'] = [gen_env(rng), gen_env(rng)]
    # writes to the output stream that fail; the operation is repeated afterwards
    p['envs'][1]['fail'] = [{'at': rng.randrange(nops), 'n': rng.choice([1, 2, 3, rng.randint(1, 12)]),
                             'exc': rng.choice(['BrokenPipeError', 'OSError', 'ValueError'])}
                            for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    if rng.random() < .03:     # another interpreter
        p['envs'][1]['fresh'] = {'hashseed': rng.randrange(1, 10 ** 6), 'flags': ['-O'] if rng.random() < .3 else [],
                                 'extra': rng.choice([{}, {'TZ': 'Asia/Tokyo'}, {'LC_ALL': 'C', 'COLUMNS': '20'}])}
    if p['envs'][1]['fail']:
        p['envs'][1]['silent'] = False
    return p


def num(v):
    return float(v) if not isinstance(v, str) else float(v)


def rstate():
    s = np.random.get_state()
    return (random.getstate(), s[0], s[1].tolist(), s[2:])


def session(p, env):
    """the analysis in one environment (in a process of its own)"""
    core.ctx.faults.clear()
    tmp = None
    if env.get('cpus'):
        os.cpu_count = lambda: env['cpus']
        import multiprocess
        multiprocess.cpu_count = os.cpu_count
    if env.get('gc') == 'off':
        gc.disable()
    elif env.get('gc') == 'often':
        gc.set_threshold(7, 2, 2)
    if env.get('cwd'):
        tmp = tempfile.mkdtemp(prefix='simcwd')
        os.chdir(tmp)
        if env['cwd'] == 'gone':      # the working directory was removed in the meantime
            os.rmdir(tmp)
    try:
        return analysis(p, env)
    finally:
        if tmp:
            os.chdir('/')
            shutil.rmtree(tmp, ignore_errors=True)


def fresh_session(p, env):
    memory.prepare()
    return session(p, env)


def analysis(p, env):
    cfg = p['cfg']
    boot.clock.reset(env['clock'], env['cseed'])
    faults.poison = num(env['poison'])
    memory.fill(faults.poison)
    random.seed(env['seed'])
    np.random.seed(env['seed'])
    np.seterr(all=env.get('err', 'ignore'))
    np.set_printoptions(precision=env.get('print', 8), threshold=env.get('limit', 1000))
    before = rstate()
    out = []
    online = p['mode'] == 'online'
    if online:
        b = reference(lambda: gen.build_online(cfg, silent=env['silent']))
    else:
        b = reference(lambda: gen.build(cfg, silent=env['silent']))
    data = gen.stream(cfg) if online else None
    ops = [{'op': 'step', 'i': i} for i in range(len(data))] if online else p['ops']
    for k, o in enumerate(ops):
        def f():
            if o['op'] == 'step':
                b.S.step(data[o['i']])
            elif o['op'] == 'opt':
                do_opt(b.S, o['p'])
            else:
                gen.do_fit(b.S, o['fit'], silent=env['silent'], **({'nJobs': o['nJobs']} if 'nJobs' in o else {}))
        for a in env.get('fail', []):
            if a['at'] == k:
                arm = faults.Arm(['stdout', 'stderr'], a['n'], a['exc'])
                e = fork_probe(f, arm)
                if e is None:
                    continue     # too little output to reach the failing write
                arm = faults.Arm(['stdout', 'stderr'], a['n'], a['exc'])
                attempt(f, arm)
                core.ctx.fault('failing write')
        e = attempt(f)
        if e is not None:
            out.append(e)
            break
        if online:
            out.append(snap.online(b.S, cfg))
        else:
            out.append([snap.hp_values(b.S, cfg), snap.batch(b.S, cfg, o['fit'] if o['op'] == 'fit' else {})])
        if rstate() != before:
            raise Violation('random', 'operation %s changes the global random state' % o['op'])
        core.ctx.checks += 1
    return out, dict(core.ctx.faults), dict(faults.fired), boot.clock.reads


def fork_probe(f, arm):
    """would the armed write be reached?  (evaluated in a forked copy)"""
    def g():
        e = attempt(f, arm)
        return e if arm.fired else None
    return fork.in_child(g)


def run(p):
    res = []
    for env in p['envs']:
        if env.get('fresh'):
            tmp = tempfile.mkdtemp(prefix='simfresh')
            try:
                r, fl, fired, reads = fresh.call('sim.props.c15', 'fresh_session', (p, env), tmp, **env['fresh'])
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            core.ctx.fault('new interpreter')
        else:
            r, fl, fired, reads = fork.in_child(lambda: session(p, env))
        for k in ('gc', 'cpus', 'cwd'):
            if env.get(k):
                core.ctx.fault('%s %s' % (k, env[k]))
        for k, n in fl.items():
            core.ctx.fault(k, n)
        for k, n in fired.items():
            core.ctx.fault(k, n)
        core.ctx.fault('clock ' + env['clock'])
        core.ctx.fault('memory content %s' % env['poison'])
        core.ctx.simtime += reads
        core.ctx.op(env['clock'], env['poison'], env['silent'], len(r))
        res.append(r)
    same(res[1], res[0], 'env', 'results under another environment', 1e-10, 1e-13)
    core.ctx.sig(cfg_sig(p['cfg']), tuple(o['op'] for o in p.get('ops', [])), tuple(sorted(
        (e['clock'], str(e['poison']), e['silent'], bool(e.get('fail'))) for e in p['envs'])))
