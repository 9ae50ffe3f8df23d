"""C11: stored studies load completely, and damaged files are never accepted."""
import errno
import os
import shutil
import tempfile

import numpy as np

from .. import disk, fork, fresh, queries, stored
from .common import *

RUNS = {'quick': 1600, 'thorough': 50000}
RULE = 'distinct (mode, place of the load, state and class of the study) and (mode, kind of call, verdict) of read faults'
STUB = STUB + ['file system calls below the scratch directory during load (announced to and failed or cut short by the '
               'simulator)']


def prepare():
    disk.prepare()


def gen_more(rng, s):
    """operations that continue the analysis"""
    cfg = s['cfg']
    ops = []
    online = cfg['kind'] == 'OnlineStudy'
    for _ in range(rng.randint(1, 4)):
        if online:
            n = s['n']
            o = rng.choice(['step', 'step', 'query', 'set'])
            if o == 'step':
                ops.append({'op': 'step'})
            elif o == 'query':
                ops.append({'op': 'query', 'q': queries.gen_query(rng, cfg, plots=False, n=n)})
            elif n == 0 and not cfg.get('set_only'):
                ops.append({'op': 'add'})
        else:
            o = rng.choice(['fit', 'fit', 'query', 'query', 'data', 'opt'])
            if o == 'fit':
                f = gen.gen_fit(rng, cfg['kind'])
                f['silent'] = True
                if cfg['kind'] != 'Study' and rng.random() < .2:
                    f['nJobs'] = 2
                ops.append({'op': 'fit', 'fit': f})
            elif o == 'query':
                ops.append({'op': 'query', 'q': queries.gen_query(rng, cfg, plots=False)})
            elif o == 'data':
                ops.append({'op': 'data', 'keep': rng.randint(4, 9)})
            elif cfg['kind'] == 'Study' and optimizable(cfg):
                ops.append({'op': 'opt', 'p': optimizable(cfg)[:1]})
    return ops


def plan(rng, tier):
    mode = rng.choice(['trip', 'trip', 'trip', 'alone', 'alone', 'trunc', 'read'])
    s = stored.gen_study(rng, simple=rng.random() < .8)
    p = {'mode': mode, 's': s}
    if mode in ('trip', 'alone'):
        p['more'] = gen_more(rng, s)
        p['where'] = rng.choice(['same', 'fork']) if rng.random() > .04 else 'fresh'
        p['again'] = rng.random() < .25
    if mode == 'alone':
        p['more2'] = gen_more(rng, s)
        p['twice'] = rng.random() < .5
    elif mode == 'trunc':
        p['cut'] = [round(rng.random(), 4) for _ in range(8)]
        p['low'] = rng.randrange(40)
    elif mode == 'read':
        p['faults'] = [{'kind': rng.choice(['read', 'read', 'open', 'close']), 'f': round(rng.random(), 3),
                        'a': rng.choice(['err', 'err', 'short', 'short', 'eof', 'eintr', 'int']), 'e': rng.randrange(5),
                        'n': round(rng.random(), 3)} for _ in range(rng.choice([1, 1, 2, 4]))]
        p['all_short'] = rng.choice([0, 0, 1, 7, 100])
    return p


def work(S, s, ops):
    """continues the analysis; returns everything that is seen on the way"""
    cfg = s['cfg']
    out = []
    pos = s.get('n', 0)
    stream = gen.stream(cfg) if cfg['kind'] == 'OnlineStudy' else None
    state = dict(s)
    for o in ops:
        try:
            if o['op'] == 'query':
                out.append(snap.safe(queries.ask, S, o['q']))
                continue
            if o['op'] == 'step':
                S.step(stream[pos % len(stream)])
                pos += 1
            elif o['op'] == 'add':
                import bayesloop as bl
                S.addTransitionModel('more', bl.tm.Static())
            elif o['op'] == 'fit':
                gen.do_fit(S, o['fit'])
                state = dict(state, state='fit', fit=o['fit'])
            elif o['op'] == 'opt':
                do_opt(S, o['p'])
                state = dict(state, state='fit', fit={})
            elif o['op'] == 'data':
                v = gen.build_data(cfg['data'])
                S.loadData(v[:o['keep']], silent=True)
                continue
            out.append(stored.observe(S, state))
        except pool.SimHang:
            raise
        except Exception as e:
            out.append(snap.Exc(e))
    out.append(stored.observe(S, state))
    return out


def load_and_work(name, s, ops):
    import bayesloop as bl
    S = bl.load(name)
    return [stored.observe(S, s)] + work(S, s, ops)


def run(p):
    import bayesloop as bl
    s = p['s']
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='verif-c11-'))
    try:
        S = reference(lambda: stored.build(s))
        f = os.path.join(tmp, 'a.bl')
        before = stored.observe(S, s)
        must(lambda: bl.save(f, S), 'save', 'save')
        same(stored.observe(S, s), before, 'save', 'the study after it was saved', *TINY)
        core.ctx.op('saved', s['state'], s['cfg']['kind'])
        globals()['run_' + p['mode']](p, s, S, before, f, tmp)
    finally:
        disk.cleanup()
        shutil.rmtree(tmp, ignore_errors=True)


def sig(p, s, *more):
    core.ctx.sig(p['mode'], s['state'], cfg_sig(s['cfg']), *more)


def run_trip(p, s, S, before, f, tmp):
    import bayesloop as bl
    ref = fork.in_child(lambda: [before] + work(S, s, p['more']))
    if p['again']:   # a loaded study can be saved again
        def again():
            T = bl.load(f)
            bl.save(f, T)
            return True
        must(lambda: fork.in_child(again), 'save', 'saving a loaded study')
    if p['where'] == 'fresh':
        res = must(lambda: fresh.call('sim.props.c11', 'load_and_work', (f, s, p['more']), tmp), 'load', 'load')
    elif p['where'] == 'fork':
        res = must(lambda: fork.in_child(lambda: load_and_work(f, s, p['more'])), 'load', 'load')
    else:
        res = must(lambda: load_and_work(f, s, p['more']), 'load', 'load')
        same(stored.observe(S, s), before, 'alias', 'the original after the loaded study was used', *TINY)
    core.ctx.fault('restart in %s process' % p['where'])
    core.ctx.op('loaded', p['where'], len(res))
    sig(p, s, p['where'])
    same(res[0], ref[0], 'loaded', 'the loaded study', *TINY)
    same(res[1:], ref[1:], 'continued', 'analysis continued with the loaded study', 1e-7, 1e-10)


def run_alone(p, s, S, before, f, tmp):
    """the original and all studies that are loaded from one file in one process are independent of each other"""
    import bayesloop as bl
    ref1 = fork.in_child(lambda: work(S, s, p['more']))
    ref2 = fork.in_child(lambda: work(S, s, p['more2']))
    T = must(lambda: bl.load(f), 'load', 'load')
    same(stored.observe(T, s), before, 'loaded', 'the loaded study', *TINY)
    if p.get('twice'):
        S = must(lambda: bl.load(f), 'load', 'second load')
    r1 = work(S, s, p['more'])
    same(stored.observe(T, s), before, 'alias', 'the loaded study after the other one was used', *TINY)
    r2 = work(T, s, p['more2'])
    same(r1, ref1, 'alone', 'results of the first study', 1e-7, 1e-10)
    same(r2, ref2, 'alone', 'results of the loaded study', 1e-7, 1e-10)
    U = must(lambda: bl.load(f), 'load', 'another load')
    same(stored.observe(U, s), before, 'alias', 'the study that is loaded after the others were used', *TINY)
    core.ctx.op('alone', len(r1), len(r2))
    sig(p, s, p.get('twice'))


def accepts(name):
    import bayesloop as bl

    def g():
        try:
            S = bl.load(name)
        except Exception as e:
            return snap.Exc(e)
        return type(S).__name__
    return fork.in_child(g)


def run_trunc(p, s, S, before, f, tmp):
    with open(f, 'rb') as h:
        data = h.read()
    n = len(data)
    pos = sorted({0, 1, n - 1, n - 2, min(p['low'], n - 1)} | {int(c * n) for c in p['cut']})

    def g():
        import bayesloop as bl
        for k in pos:
            if not 0 <= k < n:
                continue
            with open(f + '.cut', 'wb') as h:
                h.write(data[:k])
            core.ctx.checks += 1
            try:
                T = bl.load(f + '.cut')
            except Exception as e:
                continue
            return k, type(T).__name__
        return None
    r = fork.in_child(g)
    core.ctx.fault('truncated file', len(pos))
    core.ctx.op('trunc', len(pos))
    sig(p, s)
    core.ctx.checks += len(pos)
    if r:
        raise Violation('accepted', 'a file that was truncated to %d of %d bytes is loaded as %s' % (r[0], n, r[1]))


def run_read(p, s, S, before, f, tmp):
    import bayesloop as bl

    def w(proc):
        T = bl.load(f)
        return stored.observe(T, s)
    pr = disk.Proc(tmp, w)
    h = disk.drive([pr], None)
    if pr.result[0] != 'ok':
        raise Violation('load', 'undisturbed load fails: %s' % (pr.result[1:3],))
    kinds = [o.kind for _, o, _, _ in h]
    todo = {}
    for q in p['faults']:
        pos = [i for i, k in enumerate(kinds) if k == q['kind']]
        if pos:
            todo.setdefault(pos[min(int(q['f'] * len(pos)), len(pos) - 1)], q)
    cnt = [-1]
    used = []
    fatal = [False]
    size = os.path.getsize(f)

    def verdict(i, op, step):
        cnt[0] += 1
        q = todo.get(cnt[0])
        if q is None:
            if p['all_short'] and op.kind == 'read' and op.n > 1:
                if not used or used[-1] != ('read', 'short'):
                    used.append(('read', 'short'))
                return disk.SHORT, max(1, min(op.n, op.n // p['all_short'] + 1))
            return None
        a = q['a']
        k = op.kind
        if a == 'int':
            used.append((k, 'interrupt'))
            return disk.INT, 0
        if a == 'eintr' and k in ('read', 'open'):
            used.append((k, 'EINTR'))
            return disk.FAIL, errno.EINTR
        if a == 'short' and k == 'read' and op.n > 1:
            used.append((k, 'short'))
            return disk.SHORT, max(1, int(q['n'] * op.n))
        if a == 'eof' and k == 'read':
            used.append((k, 'end of file'))
            if op.off < size:
                fatal[0] = True
            return disk.SHORT, 0
        if k in ('read', 'open'):
            e = [errno.EIO, errno.EACCES, errno.ESTALE, errno.EMFILE, errno.ENXIO][q['e'] % 5] if k == 'open' else \
                [errno.EIO, errno.ESTALE, errno.EISDIR, errno.EBADF, errno.EINVAL][q['e'] % 5]
            if k == 'open' or op.off < size:
                fatal[0] = True
            used.append((k, 'error'))
            return disk.FAIL, e
        return None
    pr = disk.Proc(tmp, w)
    h = disk.drive([pr], None, verdict=verdict)
    for k, v in used:
        core.ctx.fault('%s: %s' % (k, v))
        core.ctx.sig('read', k, v, s['cfg']['kind'])
    core.ctx.op('read', [o.kind for _, o, _, _ in h], pr.result[0])
    core.ctx.checks += 1
    if pr.result[0] == 'ok':
        same(pr.result[1], before, 'damaged', 'study loaded in spite of %s' % ', '.join('%s %s' % u for u in used),
             1e-9, 1e-12)
        core.ctx.probe('load succeeded in spite of a fault')
        if fatal[0] and all(v != 'short' for _, v in used) and any(v in ('error',) for _, v in used):
            core.ctx.probe('load survived a read error')
    else:
        core.ctx.probe('load failed')
        if all(u[1] in ('short', 'EINTR') for u in used):
            raise Violation('load', 'load fails although all data could be read: %s' % (pr.result[1:3],))
