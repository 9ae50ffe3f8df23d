"""C17: finished, failed and interrupted operations leave no workers, open files or temporary files behind."""
import os
import shutil
import tempfile

from .. import disk, stored
from . import c02, c10
from .common import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = 'distinct (operation, fault kind, outcome) and (kind of file system call, verdict, outcome)'
STUB = STUB + ['file system calls below the scratch directory (real calls that are announced to and failed or cut '
               'short by the simulator)']


def prepare():
    disk.prepare()


def plan(rng, tier):
    if rng.random() < .5:
        kind = rng.choice(['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
        cfg = gen.gen_cfg(rng, kind, small=True, budget=8, hi=6, need_vec=True, simple=True)
        ops = []
        for _ in range(rng.randint(1, 5)):
            nj = rng.choice([1, 2, 2, 3, 4, 6])
            fs = [f for f in [c02.gen_fault(rng, nj) for _ in range(rng.choice([0, 1, 1, 2]))] if f['k'] != 'killbusy']
            ops.append({'nJobs': nj, 'fit': gen.gen_fit(rng, kind), 'faults': fs, 'bad': rng.random() < .1})
        return {'mode': 'pool', 'cfg': cfg, 'ops': ops, 'worker': 'fork' if rng.random() < .3 else 'inproc',
                'sched': rng.randrange(10 ** 9)}
    ops = []
    for _ in range(rng.randint(1, 4)):
        o = {'op': rng.choice(['save', 'save', 'load']), 'faults': []}
        for _ in range(rng.choice([0, 1, 1, 2])):
            f = c10.gen_fault(rng)
            if f['a'] in ('kill', 'torn'):
                f['a'] = 'err'
            if o['op'] == 'load':
                f['kind'] = rng.choice(['read', 'read', 'open', 'close'])
            o['faults'].append(f)
        if o['op'] == 'save' and rng.random() < .2:
            o['bomb'] = {'exc': rng.choice(['TypeError', 'MemoryError', 'KeyboardInterrupt', 'lock', 'generator']),
                         'where': rng.choice(['attr', 'om'])}
        if o['op'] == 'load' and rng.random() < .25:
            o['cut'] = round(rng.random(), 3)
        ops.append(o)
    return {'mode': 'file', 's': stored.gen_study(rng), 'path': rng.choice(['abs', 'rel', 'link', 'sub', 'bytes']),
            'ops': ops}


def run(p):
    globals()['run_' + p['mode']](p)


# ----------------------------------------------------------------------------------------------------------------

def run_pool(p):
    cfg = p['cfg']
    pool.reset(p['sched'], p['worker'])
    w = pool.world
    w.spare_cleanup = True
    b = reference(lambda: gen.build(cfg))
    for o in p['ops']:
        arm = None
        fs = []
        for f in o['faults']:
            f = dict(f)
            if f['k'] in ('task', 'unpicklable', 'interrupt'):
                f['m'] = w.maps + 1
            elif f['k'] == 'spawn':
                f['n'] = w.spawns + 1
            elif f['k'] == 'spawn2':
                f.update(k='spawn', n=w.spawns + 2)
            elif f['k'] == 'joininterrupt':
                f['n'] = w.joins + 1
            elif f['k'] == 'stdout':
                arm = faults.Arm(['stdout'], 1 + f.get('n', 0), 'BrokenPipeError')
                continue
            fs.append(f)
        w.faults = fs
        before = dict(w.hits)
        over = {'nothing': 1} if o['bad'] else {}
        e = attempt(lambda: gen.do_fit(b.S, o['fit'], nJobs=o['nJobs'], **over), arm)
        w.faults = []
        hit = sorted(k for k in w.hits if w.hits[k] > before.get(k, 0))
        core.ctx.op('fit', o['nJobs'], tuple(hit), e)
        core.ctx.sig('fit', tuple(hit), e, o['nJobs'], p['worker'])
        what = 'fit with %d workers that %s%s' % (o['nJobs'], 'succeeds' if e is None else 'raises ' + e,
                                                 ' (%s)' % ', '.join(hit) if hit else '')
        core.ctx.checks += 1
        for x in w.pools:
            if x._state == pool.RUN:
                raise Violation('workers', 'after a %s, %d workers keep waiting for work' % (what, x._processes))
            if x.workers:
                raise Violation('workers', 'after a %s, %d worker processes are not stopped' % (what, len(x.workers)))
        n = len(pool.state())
        if n:
            raise Violation('pools', 'after a %s, %d process pools are kept' % (what, n))
        core.ctx.probe('parallel fit, ' + ('raises' if e else 'succeeds') if o['nJobs'] > 1 else 'serial fit')
    for k, n in w.hits.items():
        core.ctx.fault(k, n)


def listing(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def open_files(root):
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if t.startswith(root):
            out.append(os.path.relpath(t, root))
    return sorted(out)


def run_file(p):
    import bayesloop as bl
    S = reference(lambda: stored.build(p['s']))
    box = c10.Box(p['path'])
    try:
        must(lambda: bl.save(box.name, S), 'save', 'first save')
        files = listing(box.root)
        with open(box.real, 'rb') as h:
            good = h.read()
        for o in p['ops']:
            if 'cut' in o:
                with open(box.real, 'wb') as h:
                    h.write(good[:int(o['cut'] * len(good))])

            def work(proc):
                if 'bomb' in o:
                    c10.bomb(S, o['bomb'])
                e = kept = None
                try:
                    try:
                        if o['op'] == 'save':
                            bl.save(box.name, S)
                        else:
                            bl.load(box.name)
                    except BaseException as x:
                        e = type(x).__name__
                        kept = x      # an exception that is kept for inspection keeps the local variables
                except KeyboardInterrupt:
                    e = 'KeyboardInterrupt'
                proc.mark('end')
                fds = open_files(box.root)
                del kept
                return e, fds
            pr = disk.Proc(box.root, work)
            seen = []
            dirty = [False]
            todo = [dict(f) for f in o['faults']]
            cnt = {}
            over = [False]

            def verdict(i, op, step):
                k = op.kind
                cnt[k] = cnt.get(k, 0) + 1
                for f in todo:
                    if f['kind'] in (k, None) and k != 'stat' and cnt[k] >= 1 + int(f['f'] * (4 if k in ('read', 'write') else 1)):
                        fa = c10.Faulty([], [])
                        fa.todo = {0: f}
                        v = fa(op)
                        if v is None:
                            continue
                        todo.remove(f)
                        seen.extend(fa.used)
                        if v[0] == disk.INT:    # no further faults: an interrupt may reach the cleanup of a failure
                            del todo[:]
                        if k == 'unlink' or (v[0] == disk.INT and (k == 'close' or len(seen) > 1 or 'bomb' in o or
                                                                   'cut' in o)):
                            dirty[0] = True     # nothing can be cleaned up without working calls
                        return v
            h = disk.drive([pr], None, verdict=verdict)
            if pr.result[0] != 'ok':
                raise RuntimeError('harness: %s' % (pr.result,))
            e, fds = pr.result[1]
            for k, v in seen:
                core.ctx.fault('%s: %s' % (k, v))
                core.ctx.sig(o['op'], k, v, e)
            if 'bomb' in o:
                core.ctx.fault('study that cannot be stored')
            if 'cut' in o:
                core.ctx.fault('truncated file')
            core.ctx.op(o['op'], [x.kind for _, x, _, _ in h], e, seen)
            core.ctx.probe('%s %s' % (o['op'], 'raises' if e else 'succeeds'))
            what = '%s that %s (%s)' % (o['op'], 'succeeds' if e is None else 'raises ' + e,
                                       ', '.join('%s %s' % u for u in seen) or 'no fault')
            core.ctx.checks += 1
            if fds and not dirty[0]:
                raise Violation('open', 'after a %s, files are left open: %s' % (what, fds))
            now = listing(box.root)
            if now != files and not dirty[0]:
                raise Violation('files', 'after a %s, the directory holds %s' % (what, sorted(set(now) - set(files))))
            if dirty[0]:
                for x in set(now) - set(files):
                    os.remove(os.path.join(box.root, x))
            if 'cut' in o:
                with open(box.real, 'wb') as h2:
                    h2.write(good)
    finally:
        box.done()
