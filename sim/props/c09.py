"""C09: a study restored from a checkpoint continues as if never interrupted."""
import os
import pickle
import shutil
import signal
import tempfile

import numpy as np

from .. import disk, fork, fresh, queries, stored
from .common import *

RUNS = {'quick': 1300, 'thorough': 50000}
RULE = 'distinct (study kind, operation that is hit, place of the crash) x (distance to the checkpoint, number of lives)'
STUB = STUB + ['processes (every life of the session is a new process, killed at a seeded evaluation of a model, file '
               'system call or between operations)']


def prepare():
    disk.prepare()


def plan(rng, tier):
    online = rng.random() < .5
    p = {}
    if online:
        cfg = gen.gen_online(rng, hi=9, simple=rng.random() < .9)
        nops = rng.randint(3, len(cfg['data']['v']) + 3)
        ops = []
        for _ in range(nops):
            u = rng.random()
            if u < .6:
                ops.append({'op': 'step'})
            elif u < .75:
                ops.append({'op': 'query', 'q': queries.gen_query(rng, cfg, plots=False, n=4)})
            else:
                ops.append({'op': 'save'})
    else:
        cfg = gen.gen_cfg(rng, small=True, budget=6, hi=7, simple=rng.random() < .9)
        ts = gen.times(cfg)
        ops = []
        opt = optimizable(cfg) if cfg['kind'] == 'Study' else []
        for _ in range(rng.randint(3, 8)):
            u = rng.random()
            if u < .38:
                f = gen.gen_fit(rng, cfg['kind'])
                f['silent'] = rng.random() < .8
                if cfg['kind'] != 'Study' and rng.random() < .2:
                    f['nJobs'] = 2
                ops.append({'op': 'fit', 'fit': f})
            elif u < .5:
                ops.append({'op': 'query', 'q': queries.gen_query(rng, cfg, plots=False)})
            elif u < .56:
                ops.append({'op': 'data', 'keep': rng.randint(4, 9), 'own': rng.random() < .5})
            elif u < .64 and opt:
                ops.append({'op': 'opt', 'p': opt[:1]})
            elif u < .7 and cfg['kind'] != 'ChangepointStudy':
                t = gen.gen_tm(rng, cfg['om'], ts, False, 4, gen.Names(prefix='g'))
                ops.append({'op': 'tm', 'tm': t})
            else:
                ops.append({'op': 'save'})
    if not any(o['op'] == 'save' for o in ops):
        ops.insert(rng.randrange(len(ops)), {'op': 'save'})
    p['cfg'] = cfg
    p['ops'] = ops
    p['crashes'] = [{'d': rng.randrange(1, 6), 'f': round(rng.random(), 3),
                     'k': rng.choice(['point', 'point', 'between', 'save', 'save'])} for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    p['fresh'] = rng.random() < .03
    return p


class Session(object):
    """the user's script: operations in order, starting anywhere"""

    def __init__(self, cfg, ops, name):
        self.cfg, self.ops, self.name = cfg, ops, name

    def start(self):
        cfg = self.cfg
        if cfg['kind'] == 'OnlineStudy':
            return gen.build_online(cfg).S
        return gen.build(cfg).S

    def spec(self, k):
        """what can be observed before operation k (state of the script, not of the study)"""
        s = {'cfg': self.cfg, 'state': 'set', 'fit': {}}
        if self.cfg['kind'] == 'OnlineStudy':
            s['state'] = 'steps'
            return s
        for o in self.ops[:k]:
            if o['op'] == 'fit':
                s.update(state='fit', fit=o['fit'])
            elif o['op'] == 'opt':
                s.update(state='fit', fit={})
            elif o['op'] in ('data', 'tm'):
                s['state'] = 'set'
                if o['op'] == 'tm':
                    s['cfg'] = dict(s['cfg'], tm=o['tm'])
        return s

    def whole(self, k):
        """everything there is to see before operation k, results of earlier fits included"""
        s = self.spec(k)
        return s if s['state'] == 'steps' else dict(s, state='fit', fit={})

    def step_no(self, k):
        return sum(o['op'] == 'step' for o in self.ops[:k])

    def execute(self, S, k):
        """operation k; returns what the user sees"""
        import bayesloop as bl
        o = self.ops[k]
        if o['op'] == 'query':
            return snap.safe(queries.ask, S, o['q'])
        try:
            if o['op'] == 'step':
                st = gen.stream(self.cfg)
                S.step(st[self.step_no(k) % len(st)])
            elif o['op'] == 'fit':
                gen.do_fit(S, o['fit'])
            elif o['op'] == 'opt':
                do_opt(S, o['p'])
            elif o['op'] == 'tm':
                S.setTM(gen.build_tm(o['tm'], gen.Reg()), silent=True)
            elif o['op'] == 'data':
                v = gen.build_data(self.cfg['data'])
                if o['own'] and isinstance(v, np.ndarray) and v.ndim == 1:
                    v = v[::-1]
                S.loadData(v[:o['keep']], silent=True)
            elif o['op'] == 'save':
                bl.save(self.name, S)
                return 'saved'
        except pool.SimHang:
            raise
        except Exception as e:
            return snap.Exc(e)
        return stored.observe(S, self.spec(k + 1))


def life(cfg, ops, name, pos, load, log, crash=None, proc=None):
    """one life of the script, beginning before operation pos; every result is logged at once"""
    import bayesloop as bl
    se = Session(cfg, ops, name)
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def emit(*r):
        d = pickle.dumps(r)
        while d:
            d = d[os.write(fd, d):]
    if load:
        S = bl.load(name)
        obs = [stored.observe(S, se.whole(q)) for q in pos]
        emit('loaded', obs)
        if proc:
            proc.mark('loaded')
            # the simulator tells at which operation the script goes on
            with open(log + '.pos') as f:
                k0 = int(f.read())
        else:
            k0 = pos[0]
    else:
        S = se.start()
        k0 = 0
    for k in range(k0, len(ops)):
        if crash and crash['k'] == 'between' and crash['op'] == k:
            os.kill(os.getpid(), signal.SIGKILL)
        if crash and crash['k'] == 'point' and crash['op'] == k:
            n = [crash['n']]

            def listener(kind):
                n[0] -= 1
                if n[0] <= 0:
                    os.kill(os.getpid(), signal.SIGKILL)
            faults.listener = listener
        if proc:
            proc.mark('begin %d' % k)
        r = se.execute(S, k)
        faults.listener = None
        emit('op', k, r)
    emit('end',)
    os.close(fd)
    return True


def records(log):
    out = []
    if not os.path.exists(log):
        return out
    with open(log, 'rb') as f:
        while True:
            try:
                out.append(pickle.load(f))
            except EOFError:
                return out


def counted(cfg, ops, name):
    """the uninterrupted session: observations before and after every operation, and its abort points"""
    se = Session(cfg, ops, name)
    S = se.start()
    states = [stored.observe(S, se.whole(0))]
    res = []
    pts = []
    for k in range(len(ops)):
        with faults.Counter(faults.MODEL + ('alloc', 'num')) as c:
            r = se.execute(S, k)
        pts.append(c.n)
        res.append(r)
        states.append(stored.observe(S, se.whole(k + 1)))
    return states, res, pts


def run(p):
    cfg, ops = p['cfg'], p['ops']
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='verif-c09-'))
    out = os.path.realpath(tempfile.mkdtemp(prefix='verif-c09o-'))
    name = os.path.join(tmp, 'check.point')
    try:
        def ref():
            return reference(lambda: counted(cfg, ops, os.path.join(out, 'x')))
        states, res, pts = fork.in_child(ref)
        try:
            lives(p, cfg, ops, name, tmp, out, states, res, pts)
        except Ambiguous:
            core.ctx.probe('place in the script not recoverable')
    finally:
        disk.cleanup()
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def lives(p, cfg, ops, name, tmp, out, states, res, pts):
    se = Session(cfg, ops, name)
    pos = []            # where the script may have to go on (two candidates if the last save was cut off)
    n = len(ops)
    crashes = list(p['crashes'])
    for number in range(len(crashes) + 1):
        c = None
        at = pos[0] if pos else 0
        if number < len(crashes):
            c = dict(crashes[number])
            c['op'] = min(at + c['d'], n - 1)
            if c['k'] == 'save':
                saves = [k for k in range(at, n) if ops[k]['op'] == 'save']
                if not saves:
                    c['k'] = 'point'
                else:
                    c['op'] = saves[min(c['d'] // 2, len(saves) - 1)]
            c['n'] = 1 + int(c['f'] * pts[c['op']])
        log = os.path.join(out, 'log%d' % number)
        load = bool(pos)
        if c is None and p['fresh']:
            if load and len(pos) == 2:
                # which of the two studies the file holds is found out first
                o = fork.in_child(lambda: load_states(cfg, ops, name, pos))
                pos = [resolve(pos, o, states, ops)]
            must(lambda: fresh.call('sim.props.c09', 'life', (cfg, ops, name, pos, load, log), out), 'life',
                 'the session in a new process')
            core.ctx.fault('restart in a fresh interpreter')
            died = False
            rec = records(log)
        else:
            proc = disk.Proc(tmp, lambda pr: life(cfg, ops, name, pos, load, log, c, pr))
            state = {'op': None, 'count': 0, 'cut': None, 'pos': pos}

            def verdict(i, op, step):
                if c and c['k'] == 'save' and state['op'] == c['op']:
                    state['count'] += 1
                    if state['count'] == 1 + int(c['f'] * 11):
                        state['cut'] = op.kind
                        return (disk.SHORTKILL, op.n // 2) if op.kind == 'write' and c['d'] % 2 else (disk.KILL, 0)

            def on_step(i, op, v, r, step):
                if op.kind == 'mark' and op.p1.startswith('begin'):
                    state['op'] = int(op.p1.split()[1])

            proc.advance()
            first = [True]
            # the life is driven call by call; after the load its position in the script is determined
            while not proc.over:
                op = proc.op
                if op.kind == 'mark' and op.p1 == 'loaded':
                    r = records(log)
                    k0 = resolve(pos, r[0][1], states, ops)
                    state['pos'] = [k0]
                    with open(log + '.pos', 'w') as f:
                        f.write(str(k0))
                v = (disk.GO, 0)
                if op.kind != 'mark':
                    v = verdict(0, op, 0) or v
                g = proc.grant(*v)
                on_step(0, op, v, g, 0)
                proc.advance()
            died = proc.result[0] == 'dead'
            rec = records(log)
            if proc.result[0] == 'exc':
                raise Violation('life', 'life %d of the session ends with %s: %s' % (number, proc.result[1], proc.result[2]))
            if died:
                k = state['op']
                kind = ops[k]['op'] if k is not None else 'start'
                core.ctx.fault('crash in %s' % kind if c['k'] != 'between' else 'crash between operations')
                core.ctx.sig(cfg['kind'], kind, c['k'], state['cut'], min(c['d'], 3), number)
        done = None
        for r in rec:
            if r[0] == 'op':
                done = r[1]
                what = 'life %d, operation %d (%s)' % (number, r[1], ops[r[1]]['op'])
                same(r[2], res[r[1]], 'continued', what, 1e-7, 1e-10)
                core.ctx.op('op', number, r[1], ops[r[1]]['op'])
                if ops[r[1]]['op'] == 'save':
                    pos = [r[1] + 1]
            elif r[0] == 'loaded':
                k0 = resolve(pos, r[1], states, ops)
                core.ctx.op('loaded', number, k0)
                pos = [k0]
        if not died:
            if not rec or rec[-1] != ('end',):
                raise Violation('life', 'life %d of the session ends without a result' % number)
            core.ctx.probe('session completed after %d crashes' % number)
            return
        if c['k'] != 'between' and state['op'] is not None and ops[state['op']]['op'] == 'save' and done != state['op']:
            if pos or os.path.exists(name):
                pos = (pos or []) + [state['op'] + 1]
            core.ctx.probe('crash inside save')
    core.ctx.probe('session ended by a crash')


def load_states(cfg, ops, name, pos):
    import bayesloop as bl
    se = Session(cfg, ops, name)
    S = bl.load(name)
    return [stored.observe(S, se.whole(q)) for q in pos]


class Ambiguous(Exception):
    pass


def resolve(pos, obs, states, ops):
    """operation before which the loaded study stands"""
    core.ctx.checks += 1
    found = []
    for q, o in zip(pos, obs):
        d = snap.diff(o, states[q], *TINY)
        if not d:
            found.append(q)
    if not found:
        raise Violation('restored', 'the restored study is not the one that was saved: %s' % d)
    if len(found) > 1 and any(o['op'] == 'tm' for o in ops[found[0]:found[-1]]):
        raise Ambiguous     # details of a transition model cannot be seen; the script cannot tell where it stands
    return found[0]
