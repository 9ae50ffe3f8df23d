"""Simulated process pool.  Replaces the lowest layer (multiprocess.pool.Pool) below pathos: the real pathos
ProcessPool with its cached pools runs on top of it.  Work is transferred by pickling with dill exactly as in the real
pool; which worker takes which chunk, the order of completion, and all faults follow from the seed of the run.

Two modes:
  inproc - chunks are executed one after the other in this process on unpickled copies (abort points work)
  fork   - workers are real forked processes, created when the pool is created, that are released one at a time"""
import math
import os
import pickle
import random
import signal
import struct
import sys

import dill

from . import faults

RUN, CLOSE, TERMINATE = 'RUN', 'CLOSE', 'TERMINATE'
live = []   # all forked workers of this process


class SimHang(BaseException):
    """the simulated program waits forever"""


class World(object):
    def __init__(self):
        self.reset()

    def reset(self, seed=0, mode='inproc', plan=None):
        self.rng = random.Random(seed)
        self.mode = mode
        self.faults = list(plan or [])  # dicts with key 'k'
        self.spawns = 0
        self.maps = 0
        self.completed = 0
        self.joins = 0
        self.trace = []
        self.hits = {}
        self.pools = []
        self.spare_cleanup = False    # no interrupts inside cleanup code

    def hit(self, k):
        self.hits[k] = self.hits.get(k, 0) + 1

    def take(self, kind, **match):
        """consumes the first planned fault of this kind that matches"""
        for f in self.faults:
            if f['k'] == kind and all(f.get(m) == v for m, v in match.items()):
                self.faults.remove(f)
                self.hit(kind)
                return f
        return None


world = World()


class _Worker(object):
    """real forked worker process, used one at a time"""

    def __init__(self, initializer, initargs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in live:
                    w.detach()
                world.pools = []
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    head = _read(r1, 8)
                    if head is None:
                        break
                    payload = _read(r1, struct.unpack('<q', head)[0])
                    out = _execute(payload)
                    _write(w2, struct.pack('<q', len(out)) + out)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        live.append(self)

    def detach(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            self.pid = 0

    def call(self, payload):
        _write(self.w, struct.pack('<q', len(payload)) + payload)
        head = _read(self.r, 8)
        if head is None:
            raise SimHang('worker process died')
        return _read(self.r, struct.unpack('<q', head)[0])

    def stop(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = 0
            if self in live:
                live.remove(self)


def _read(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _write(fd, b):
    while b:
        b = b[os.write(fd, b):]


class MaybeEncodingError(Exception):
    pass


def _execute(payload, unpicklable=False):
    """what a worker does with a chunk: returns the pickled (ok, results)"""
    func, batch = dill.loads(payload)
    try:
        res = (True, [func(*a, **k) for a, k in batch])
        if unpicklable:
            raise MaybeEncodingError('Error sending result: injected')
    except Exception as e:  # a worker passes exceptions (not interrupts) on to the parent
        res = (False, e)
    try:
        return dill.dumps(res)
    except Exception as e:
        return dill.dumps((False, MaybeEncodingError(repr(e))))


class SimPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._processes = int(processes or 4)
        if self._processes < 1:
            raise ValueError('Number of processes must be at least 1')
        world.spawns += 1
        if world.take('spawn', n=world.spawns):
            raise OSError(11, 'Resource temporarily unavailable')
        self._state = RUN
        self.lost = 0
        self.workers = []
        self.init = (initializer, initargs)
        if world.mode == 'fork':
            sys.stdout.flush()
            self.workers = [_Worker(initializer, initargs) for _ in range(self._processes)]
        elif initializer is not None:
            initializer(*initargs)
        world.pools.append(self)
        # a stable name for each worker process (a worker that is killed while idle is replaced)
        self.ids = list(range(self._processes))

    # -- scheduling --------------------------------------------------------------------------------------------------
    def _run(self, func, items, chunksize, on_done=None):
        from . import threads
        with threads.Atomic():
            return self._run_all(func, items, chunksize, on_done)

    def _run_all(self, func, items, chunksize, on_done=None):
        """executes all chunks; returns list of per-chunk (ok, value) with None for lost ones"""
        if self._state != RUN:
            raise ValueError('Pool not running')
        world.maps += 1
        m = world.maps
        n = len(items)
        if not chunksize:
            chunksize, extra = divmod(n, self._processes * 4)
            if extra:
                chunksize += 1
        chunks = [items[i:i + chunksize] for i in range(0, n, chunksize)] if n else []
        payloads = [dill.dumps((func, c)) for c in chunks]  # errors of the transfer surface in the caller
        f = world.take('killidle')
        if f and world.mode == 'fork' and self.workers:
            k = f.get('w', 0) % len(self.workers)
            self.workers[k].stop()
            self.workers[k] = _Worker(*self.init)
        order = []
        busy = {}
        queue = list(range(len(chunks)))
        out = [None] * len(chunks)
        done = []
        while queue or busy:
            free = [w for w in range(self._processes) if w not in busy]
            acts = []
            if queue and free:
                acts.append('start')
            if busy:
                acts.append('finish')
            if queue and free and world.rng.random() < 0.5:
                acts = ['start']
            a = world.rng.choice(acts)
            if a == 'start':
                busy[world.rng.choice(free)] = queue.pop(0)
                continue
            w = world.rng.choice(sorted(busy))
            c = busy.pop(w)
            order.append((w, c))
            f = world.take('interrupt', m=m, c=len(done))
            if f:
                world.trace.append((m, tuple(order), 'interrupt'))
                raise KeyboardInterrupt
            if world.take('killbusy', m=m, c=c):
                self.lost += 1
                continue
            bad = world.take('unpicklable', m=m, c=c)
            f = world.take('task', m=m, c=c)
            if f:
                with faults.Arm(f.get('kinds', faults.MODEL), f['n'], f['exc']):
                    res = self._exec(w, payloads[c], bad)
            else:
                res = self._exec(w, payloads[c], bad)
            out[c] = dill.loads(res)
            done.append(c)
            world.completed += 1
            if on_done:
                on_done(c, out[c])
        world.trace.append((m, tuple(order)))
        self.done = done
        return out, done, chunksize

    def _exec(self, w, payload, bad):
        if world.mode == 'fork' and self.workers and not faults.armed and not bad:
            return self.workers[w].call(payload)
        try:
            return _execute(payload, bad)
        except KeyboardInterrupt:  # Ctrl-C reaches workers, too: the worker dies
            raise
        except SystemExit as e:
            return dill.dumps((False, RuntimeError('worker exited')))

    def _gather(self, func, items, chunksize):
        out, done, cs = self._run(func, items, chunksize)
        if any(o is None for o in out):
            raise SimHang('a worker process was killed; its result never arrives')
        for c in done:
            if not out[c][0]:
                raise out[c][1]
        return [x for o in out for x in o[1]]

    # -- interface ---------------------------------------------------------------------------------------------------
    def map(self, func, iterable, chunksize=None):
        return self._gather(func, [((x,), {}) for x in iterable], chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._gather(func, [(tuple(x), {}) for x in iterable], chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        items = [((x,), {}) for x in iterable]
        out, done, cs = self._run(func, items, chunksize)

        def gen():
            for c in done:
                if not out[c][0]:
                    raise out[c][1]
                for x in out[c][1]:
                    yield x
            if any(o is None for o in out):
                raise SimHang('a worker process was killed; its result never arrives')
        return gen()

    def apply(self, func, args=(), kwds={}):
        return self._gather(func, [(tuple(args), dict(kwds))], 1)[0]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(self, func, [((x,), {}) for x in iterable], chunksize, callback, error_callback, False)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(self, func, [(tuple(x), {}) for x in iterable], chunksize, callback, error_callback, False)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(self, func, [(tuple(args), dict(kwds))], 1, callback, error_callback, True)

    def close(self):
        if self._state == RUN:
            self._state = CLOSE

    def terminate(self):
        self._state = TERMINATE
        self._stop()

    def join(self):
        if self._state == RUN:
            raise ValueError('Pool is still running')
        world.joins += 1
        if world.spare_cleanup and faults.in_cleanup(sys._getframe(1)):
            return self._stop()
        if world.take('joininterrupt', n=world.joins):
            raise KeyboardInterrupt
        self._stop()

    def _stop(self):
        for w in self.workers:
            w.stop()
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')


class _Async(object):
    """the work is done when the result is asked for (or waited for)"""

    def __init__(self, pool, func, items, chunksize, cb, ecb, single):
        if pool._state != RUN:
            raise ValueError('Pool not running')
        self.a = (pool, func, items, chunksize)
        self.cb, self.ecb, self.single = cb, ecb, single
        self.res = None

    def wait(self, timeout=None):
        if self.res is not None:
            return
        pool, func, items, cs = self.a
        try:
            v = pool._gather(func, items, cs)
            self.res = (True, v[0] if self.single else v)
            if self.cb:
                self.cb(self.res[1])
        except SimHang:
            if timeout is None:
                raise
            return
        except Exception as e:
            self.res = (False, e)
            if self.ecb:
                self.ecb(e)

    def ready(self):
        return self.res is not None

    def successful(self):
        return self.res is not None and self.res[0]

    def get(self, timeout=None):
        self.wait(timeout)
        if self.res is None:
            import multiprocess
            raise multiprocess.TimeoutError
        if not self.res[0]:
            raise self.res[1]
        return self.res[1]


def install():
    import multiprocess
    import multiprocess.pool
    import multiprocessing
    import multiprocessing.pool
    import pathos.helpers
    import pathos.multiprocessing as pm
    pm.Pool = SimPool
    pm._ProcessPool = SimPool
    pathos.helpers.ProcessPool = SimPool
    for mod in (multiprocess, multiprocessing):
        mod.Pool = SimPool
        mod.pool.Pool = SimPool


def state():
    import pathos.multiprocessing as pm
    return pm.__dict__['_ProcessPool__STATE']


def reset(seed=0, mode='inproc', plan=None):
    for p in list(world.pools):
        try:
            p._stop()
        except Exception:
            pass
    state().clear()
    world.reset(seed, mode, plan)
