"""C10: saving replaces a stored study completely or not at all."""
import errno
import os
import shutil
import tempfile

import numpy as np

from .. import disk, fork, stored
from .common import *

RUNS = {'quick': 2200, 'thorough': 60000}
RULE = 'distinct (mode, kind of call, verdict) of injected faults, (mode, crash position, surviving part of the disk) ' \
       'and sequences of calls of concurrent processes (by kind of call)'
STUB = ['file system calls below the scratch directory (real calls that are announced to, delayed, failed or cut '
        'short by the simulator; fsync and power loss are modelled)', 'processes (forked, stopped at every call)',
        'clock, fresh memory, stdout/stderr (simulated)']
ASSUME = ASSUME + ['after a power failure a prefix of the changes of file names survives, content survives if it was '
                   'fsynced, everything else may survive, be lost or be torn']
ANYSIZE = False

ERR = {'open': [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EIO, errno.EROFS],
       'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
       'fsync': [errno.EIO, errno.ENOSPC, errno.EDQUOT], 'close': [errno.EIO, errno.ENOSPC, errno.EDQUOT],
       'rename': [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EXDEV, errno.EPERM],
       'unlink': [errno.EIO, errno.EACCES], 'chmod': [errno.EPERM, errno.EIO], 'truncate': [errno.EIO],
       'link': [errno.EIO, errno.EPERM], 'read': [errno.EIO], 'mkdir': [errno.ENOSPC], 'lock': [errno.ENOLCK]}
RETRY = ('open', 'write', 'read', 'fsync')   # calls that Python repeats after EINTR


def prepare():
    disk.prepare()


def gen_fault(rng):
    k = rng.choice(['write', 'write', 'fsync', 'rename', 'open', 'close', 'chmod', None, None])
    a = rng.choice(['err', 'err', 'err', 'kill', 'kill', 'torn', 'short', 'eintr', 'int', 'after'])
    return {'kind': k, 'f': round(rng.random(), 3), 'a': a, 'e': rng.randrange(5), 'n': round(rng.random(), 2),
            'sticky': a == 'err' and rng.random() < .4}


def plan(rng, tier):
    mode = rng.choice(['fault', 'fault', 'fault', 'race', 'race', 'power', 'power', 'object'])
    p = {'mode': mode, 'A': stored.gen_study(rng), 'B': stored.gen_study(rng), 'path': rng.choice(
        ['abs', 'abs', 'rel', 'link', 'sub', 'bytes']), 'dev': rng.random() < .5}
    if mode == 'fault':
        p['exists'] = rng.random() < .85
        p['attempts'] = [[gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in
                         range(rng.choice([1, 1, 2, 3]))]
    elif mode == 'object':
        p['bomb'] = {'exc': rng.choice(['TypeError', 'MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'OSError',
                                        'RecursionError', 'lock', 'generator']), 'where': rng.choice(['attr', 'om'])}
    elif mode == 'power':
        p['f'] = round(rng.random(), 3)
        p['style'] = rng.choice(['none', 'none', 'prefix', 'some', 'torn', 'names', 'names', 'all'])
        p['seed'] = rng.randrange(1000)
        p['first'] = rng.random() < .3
    else:
        p['C'] = stored.gen_study(rng)
        n = rng.choice([2, 2, 3, 3])
        procs = []
        for i in range(n):
            procs.append([rng.choice(['B', 'C', 'load', 'load']) for _ in range(rng.choice([1, 1, 2]))])
        if not any(o in 'BC' for l in procs for o in l):
            procs[0] = ['B']
        p['procs'] = procs
        p['sched'] = [rng.randrange(6) for _ in range(rng.choice([10, 40, 120]))]
        p['burst'] = rng.choice([1, 1, 2, 5])
        p['faults'] = [dict(gen_fault(rng), p=rng.randrange(n))] if rng.random() < .3 else []
    return p


class Bomb(object):
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise {'TypeError': TypeError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
               'RuntimeError': RuntimeError, 'OSError': OSError, 'RecursionError': RecursionError}[self.exc]('injected')


def bomb(S, b):
    import threading
    x = threading.Lock() if b['exc'] == 'lock' else (i for i in [1]) if b['exc'] == 'generator' else Bomb(b['exc'])
    if b['where'] == 'attr':
        S.note = x
    else:
        S.observationModel.note = x


class Faulty(object):
    """verdicts of the simulated kernel for one process"""

    def __init__(self, specs, ops):
        """ops: kinds of the calls of an undisturbed execution"""
        self.todo = {}
        self.sticky = 0
        self.count = 0
        self.used = []
        for s in specs:
            pos = [i for i, k in enumerate(ops) if (k == s['kind'] if s['kind'] else k != 'stat')]
            if not pos:
                pos = [i for i, k in enumerate(ops) if k != 'stat'] or [0]
            self.todo.setdefault(pos[min(int(s['f'] * len(pos)), len(pos) - 1)], s)

    def __call__(self, op):
        s = self.todo.get(self.count)
        self.count += 1
        k = op.kind
        if s is None:
            if self.sticky and (k == 'write' or (k == 'open' and op.flags & os.O_CREAT)):
                self.used.append((k, 'full'))
                return disk.FAIL, self.sticky
            return None
        a = s['a']
        if a == 'kill':
            v = (disk.KILL, 0)
        elif a == 'int':
            v = (disk.INT, 0)
        elif a == 'torn':
            v = (disk.SHORTKILL, int(s['n'] * op.n)) if k == 'write' else (disk.KILL, 0)
        elif a == 'short' and k == 'write' and op.n > 1:
            v = (disk.SHORT, max(1, int(s['n'] * op.n)))
        elif a == 'eintr' and k in RETRY:
            v = (disk.FAIL, errno.EINTR)
        elif a == 'after' and k in ('rename', 'fsync', 'unlink', 'chmod'):
            v = (disk.FAILAFTER, errno.EIO)
        elif k in ERR:
            v = (disk.FAIL, ERR[k][s['e'] % len(ERR[k])])
            if s['sticky'] and k in ('write', 'open'):
                self.sticky = errno.ENOSPC
        else:
            return None
        self.used.append((k, ['go', 'error', 'short', 'kill', 'torn write and kill', 'interrupt', 'error after effect'][v[0]]
                          if v[1] != errno.EINTR else 'EINTR'))
        return v


class Box(object):
    """scratch directory with the file"""

    def __init__(self, style, dev=False):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='verif-c10-'))
        os.mkdir(os.path.join(self.root, '.tmpdev' if dev else '.tmp'))
        self.real = os.path.join(self.root, 'study.bl')
        self.name = self.real
        if style == 'link':
            os.mkdir(os.path.join(self.root, 'd'))
            self.real = os.path.join(self.root, 'd', 'real.bl')
            self.name = os.path.join(self.root, 'link.bl')
            os.symlink('d/real.bl', self.name)
        elif style == 'sub':
            os.mkdir(os.path.join(self.root, 'd'))
            self.real = self.name = os.path.join(self.root, 'd', 'study')
        elif style == 'rel':
            self.name = 'study.bl'
        elif style == 'bytes':
            self.name = os.fsencode(self.real)
        self.cwd = os.getcwd()
        os.chdir(self.root)

    def done(self):
        disk.cleanup()
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


def load_in_child(name, spec):
    """observation of the study in the file as a new process sees it; spec: name -> specification"""
    import bayesloop as bl

    def f():
        try:
            S = bl.load(name)
        except Exception as e:
            return snap.Exc(e)
        return dict((k, stored.observe(S, s)) for k, s in spec.items())
    return fork.in_child(f)


def held(o, obs):
    """which of the known studies is held by the file"""
    if isinstance(o, snap.Exc):
        return o
    for k in sorted(obs):
        if k in o and not snap.diff(o[k], obs[k], 1e-9, 1e-12):
            return k
    return None


def run(p):
    import bayesloop as bl
    names = [k for k in ('A', 'B', 'C') if k in p]
    S = dict((k, reference(lambda: stored.build(p[k]))) for k in names)
    obs = dict((k, stored.observe(S[k], p[k])) for k in names)
    if any(not snap.diff(obs[a], obs[b]) for a in names for b in names if a < b):
        raise Skip('identical studies')
    box = Box(p['path'], p.get('dev'))
    try:
        if p.get('exists', True):
            must(lambda: bl.save(box.name, S['A']), 'save', 'first save')
        globals()['run_' + p['mode']](p, S, obs, box)
    finally:
        box.done()


def saver(S, name):
    import bayesloop as bl

    def f(proc):
        bl.save(name, S)
        return True
    return f


def dry(S, box):
    """kinds of the calls of an undisturbed save (on a copy of the directory)"""
    box2 = box.root + '-dry'
    shutil.copytree(box.root, box2, symlinks=True)
    try:
        rel = os.path.relpath(os.fsdecode(box.name), box.root) if os.path.isabs(box.name) else os.fsdecode(box.name)
        pr = disk.Proc(box2, saver(S, os.path.join(box2, rel)))
        h = disk.drive([pr], None)
        if pr.result[0] != 'ok':
            raise Violation('save', 'undisturbed save fails: %s' % (pr.result[1:3],))
        return [o.kind for _, o, _, _ in h]
    finally:
        disk.cleanup()
        shutil.rmtree(box2, ignore_errors=True)


def note_faults(mode, used):
    for k, v in used:
        core.ctx.fault('%s: %s' % (k, v))
        core.ctx.sig(mode, k, v)


def verify(p, box, obs, allowed, what, may_miss=False):
    o = load_in_child(box.name, dict((k, p[k]) for k in obs))
    h = held(o, obs)
    core.ctx.checks += 1
    if isinstance(h, snap.Exc):
        if may_miss:
            return None
        raise Violation('lost', '%s the file cannot be loaded: %s' % (what, h))
    if h is None:
        raise Violation('mixed', '%s the file holds neither the old nor the new study completely' % what)
    if h not in allowed:
        raise Violation('stale', '%s the file holds study %s instead of %s' % (what, h, ' or '.join(allowed)))
    return h


def run_fault(p, S, obs, box):
    ops = dry(S['B'], box)
    now = 'A' if p['exists'] else None
    for i, specs in enumerate(p['attempts']):
        fa = Faulty(specs, ops)
        pr = disk.Proc(box.root, saver(S['B'], box.name))
        h = disk.drive([pr], None, verdict=lambda i, op, step: fa(op))
        note_faults('fault', fa.used)
        core.ctx.op('save', [o.kind for _, o, _, _ in h], pr.result[0], fa.used)
        if pr.result[0] == 'ok':
            verify(p, box, obs, ['B'], 'after a save that reports success')
            now = 'B'
            core.ctx.probe('save succeeded in spite of a fault' if fa.used else 'save without a fault')
        else:
            w = 'after a save that %s (%s)' % ('was killed' if pr.result[0] == 'dead' else 'failed',
                                              ', '.join('%s %s' % u for u in fa.used))
            now = verify(p, box, obs, [now, 'B'] if now else ['B'], w, may_miss=now is None) or now
            core.ctx.probe('killed save' if pr.result[0] == 'dead' else 'failed save')
    # the faults stop: the next save works
    pr = disk.Proc(box.root, saver(S['B'], box.name))
    disk.drive([pr], None)
    if pr.result[0] != 'ok':
        raise Violation('stuck', 'save after the faults have stopped fails: %s' % (pr.result[1:3],))
    verify(p, box, obs, ['B'], 'after the final save')


def run_object(p, S, obs, box):
    core.ctx.fault('study that cannot be stored: ' + p['bomb']['exc'])
    core.ctx.sig('object', p['bomb']['exc'], p['bomb']['where'])
    bomb(S['B'], p['bomb'])
    pr = disk.Proc(box.root, saver(S['B'], box.name))
    h = disk.drive([pr], None)
    core.ctx.op('save', [o.kind for _, o, _, _ in h], pr.result[0])
    verify(p, box, obs, ['A'] if pr.result[0] != 'ok' else ['B'], 'after saving a study that cannot be stored')


def run_power(p, S, obs, box):
    import random
    d = disk.Disk(box.root)
    ops = dry(S['B'], box)
    n = len(ops)
    stop = int(p['f'] * (n + 1))
    twice = p['first']

    def work(proc):
        import bayesloop as bl
        if twice:
            bl.save(box.name, S['B'])
            bl.save(box.name, S['A'])
        bl.save(box.name, S['B'])
        return True
    pr = disk.Proc(box.root, work)
    base = 0
    if twice:
        base = len(ops) * 2
    cnt = [0]

    def verdict(i, op, step):
        cnt[0] += 1
        if cnt[0] == base + stop + 1:
            return disk.KILL, 0
    disk.drive([pr], d, verdict=verdict)
    rng = random.Random(p['seed'])
    dest = box.root + '-after'
    try:
        files = d.after_power_loss(rng, p['style'])
        disk.materialise(files, box.root, dest)
        at = 'the end' if stop >= n else ops[stop]
        core.ctx.fault('power loss')
        core.ctx.sig('power', at, p['style'], twice)
        core.ctx.op('power', at, p['style'], sorted((os.path.basename(f)[:6], len(c)) for f, c in files.items()))
        b2 = Box.__new__(Box)
        b2.name = os.path.join(dest, os.path.relpath(box.real, box.root))
        verify(p, b2, obs, ['A', 'B'], 'after a power failure before "%s" of save (surviving: %s)' % (at, p['style']))
    finally:
        shutil.rmtree(dest, ignore_errors=True)


def run_race(p, S, obs, box):
    import bayesloop as bl

    def work(ops):
        def f(proc):
            out = []
            for i, o in enumerate(ops):
                proc.mark('begin %d %s' % (i, o))
                try:
                    if o == 'load':
                        T = bl.load(box.name)
                        proc.mark('end %d' % i)
                        out.append(('ok', dict((k, stored.observe(T, p[k])) for k in obs)))
                    else:
                        bl.save(box.name, S[o])
                        proc.mark('end %d' % i)
                        out.append(('ok', o))
                except Exception as e:
                    proc.mark('end %d' % i)
                    out.append(('exc', type(e).__name__ + ': ' + str(e)[:200]))
            return out
        return f
    kinds = dry(S['B'], box)
    faulty = {}
    for s in p['faults']:
        if s['p'] < len(p['procs']):
            faulty[s['p']] = Faulty([s], kinds)
    procs = [disk.Proc(box.root, work(o)) for o in p['procs']]
    sched = list(p['sched'])
    state = {'i': None, 'left': 0}

    def choose(free, procs):
        if state['left'] > 0 and state['i'] in free:
            state['left'] -= 1
            return state['i']
        k = sched.pop(0) if sched else 0
        state['i'] = free[k % len(free)]
        state['left'] = p['burst'] - 1
        return state['i']

    def verdict(i, op, step):
        if i in faulty:
            return faulty[i](op)
    h = disk.drive(procs, None, choose, verdict)
    for f in faulty.values():
        note_faults('race', f.used)
    core.ctx.fault('process switch', sum(1 for a, b in zip(h, h[1:]) if a[0] != b[0]))
    core.ctx.op('race', [(i, o.kind) for i, o, _, _ in h])
    core.ctx.sig('race', tuple((i, o.kind[0]) for i, o, _, _ in h if o.kind != 'stat'))
    # history of operations
    ops = {}
    for t, (i, o, _, _) in enumerate(h):
        if o.kind == 'mark':
            w = o.p1.split()
            if w[0] == 'begin':
                ops[i, int(w[1])] = {'b': t, 'e': None, 'o': w[2]}
            else:
                ops[i, int(w[1])]['e'] = t
    events = []
    for (i, k), e in sorted(ops.items()):
        r = procs[i].result
        faulted = i in faulty and bool(faulty[i].used)
        res = r[1][k] if r[0] == 'ok' and k < len(r[1]) else None
        if e['o'] == 'load':
            if res is None:
                continue
            core.ctx.checks += 1
            if res[0] == 'exc':
                if faulted:
                    continue
                raise Violation('race', 'a load that runs at the same time fails: %s' % res[1])
            v = held(res[1], obs)
            if v is None:
                raise Violation('race', 'a load that runs at the same time returns an incomplete study')
            events.append(('r', v, e['b'], e['e'], True))
        else:
            ok = res is not None and res[0] == 'ok'
            events.append(('w', e['o'], e['b'], e['e'] if ok else None, ok))
    o = held(load_in_child(box.name, dict((k, p[k]) for k in obs)), obs)
    core.ctx.checks += 1
    if o is None or isinstance(o, snap.Exc):
        raise Violation('race', 'after all processes have ended the file does not hold a complete study: %r' % (o,))
    events.append(('r', o, len(h), len(h) + 1, True))
    core.ctx.checks += 1
    if not linearizable(events, 'A'):
        raise Violation('order', 'no order of the operations explains what was loaded: %s' % events)


def linearizable(ev, init):
    """register: w (value, begin, end or None if it may or may not have happened), r (value, begin, end)"""
    seen = set()

    def go(left, val):
        if not left:
            return True
        key = (left, val)
        if key in seen:
            return False
        seen.add(key)
        first = min([ev[i][3] for i in left if ev[i][3] is not None] or [1 << 60])
        for i in left:
            k, v, b, e, ok = ev[i]
            if b > first:
                continue
            rest = tuple(j for j in left if j != i)
            if k == 'r':
                if v == val and go(rest, val):
                    return True
            else:
                if go(rest, v):
                    return True
                if not ok and go(rest, val):
                    return True
        return False
    return go(tuple(range(len(ev))), init)
