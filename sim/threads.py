"""Simulated threads.  Real threads are used as coroutines: exactly one of them holds the baton, and it passes it on
only at lines (or byte-code instructions) of the code under test that the plan of the run selects."""
import os
import sys
import threading

from . import boot, pool

BLOCKED = 20.     # seconds without progress: the running thread waits for another one, which then goes on


class Sched(object):
    def __init__(self, fns, switches, opcodes=False, on_switch=None):
        self.fns = fns
        self.switches = list(switches)
        self.opcodes = opcodes
        self.on_switch = on_switch
        self.idents = set()
        n = len(fns)
        self.batons = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.result = [None] * n
        self.error = None
        self.finished = threading.Event()
        self.steps = 0
        self.waits = 0
        self.current = 0
        self.atomic = 0
        self.gap = -1
        self.pick = 0
        self.switched = 0
        self._next()

    # -- schedule ----------------------------------------------------------------------------------------------------
    def _next(self):
        if self.switches:
            self.gap, self.pick = self.switches.pop(0)
            self.gap = max(1, self.gap)
        else:
            self.gap = -1

    def tick(self, code, where):
        self.steps += 1
        if self.gap < 0 or self.atomic:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        me = self.current
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != me]
        pick = self.pick
        self._next()
        if not others:
            return
        to = others[pick % len(others)]
        self.switched += 1
        if self.on_switch:
            self.on_switch(me, to, code.co_name, where, self.steps)
        self.current = to
        self.batons[to].release()
        self.batons[me].acquire()

    def yield_to_other(self):
        """the running thread has to wait for another one"""
        me = self.current
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != me]
        if not others:
            return False
        self.waits += 1
        if self.waits > 100000:
            return False
        self.current = others[self.waits % len(others)]
        self.batons[self.current].release()
        self.batons[me].acquire()
        return True

    # -- tracing -----------------------------------------------------------------------------------------------------
    def _start(self):
        mon = sys.monitoring
        self.tool = mon.DEBUGGER_ID
        mon.use_tool_id(self.tool, 'simulator')
        ev = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
        mon.register_callback(self.tool, ev, self._event)
        for c in codes():
            mon.set_local_events(self.tool, c, ev)

    def _stop(self):
        mon = sys.monitoring
        for c in codes():
            mon.set_local_events(self.tool, c, 0)
        mon.register_callback(self.tool, mon.events.INSTRUCTION if self.opcodes else mon.events.LINE, None)
        mon.free_tool_id(self.tool)

    def _event(self, code, where):
        if threading.get_ident() in self.idents:
            self.tick(code, where)

    # -- execution ---------------------------------------------------------------------------------------------------
    def _body(self, i):
        self.batons[i].acquire()
        try:
            self.idents.add(threading.get_ident())
            try:
                self.result[i] = self.fns[i]()
            finally:
                self.idents.discard(threading.get_ident())
        except BaseException as e:
            if self.error is None:
                self.error = e
        self.done[i] = True
        left = [k for k in range(len(self.fns)) if not self.done[k]]
        if left:
            self.current = left[0]
            self.batons[left[0]].release()
        else:
            self.finished.set()

    def run(self):
        global active
        active = self
        self._start()
        try:
            ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
            for t in ts:
                t.start()
            self.batons[0].release()
            last = -1
            stalls = 0
            while not self.finished.wait(BLOCKED):
                if self.steps == last:
                    others = [i for i in range(len(self.fns)) if not self.done[i] and i != self.current]
                    stalls += 1
                    if not others or stalls > 3 * len(self.fns):
                        raise pool.SimHang('no thread makes progress')
                    self.current = others[stalls % len(others)]
                    self.batons[self.current].release()
                last = self.steps
        finally:
            active = None
            self._stop()
        if self.error is not None:
            raise self.error
        return self.result


active = None
_codes = []


def codes():
    """all code objects of the code under test"""
    if not _codes:
        import gc
        import types
        prefix = boot.REPO + os.sep + 'bayesloop' + os.sep
        seen = {}

        def add(c):
            if c in seen or not c.co_filename.startswith(prefix):
                return
            seen[c] = 1
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)
        gc.unfreeze()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                add(o.__code__)
        gc.freeze()
        _codes.extend(sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)))
    return _codes


class Atomic(object):
    """no switches inside the block (work that happens in other processes)"""

    def __enter__(self):
        self.s = active
        if self.s:
            self.s.atomic += 1

    def __exit__(self, *a):
        if self.s:
            self.s.atomic -= 1
        return False


class CoopLock(object):
    """lock (reentrant or not) whose waiting threads pass the baton on"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if active is None or not active.yield_to_other():
                raise pool.SimHang('deadlock')
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return CoopLock(self.reentrant)


def install_locks():
    """module and class level locks that the threads of a run can meet are replaced by cooperative ones"""
    import scipy.optimize._cobyla_py as c
    kinds = {type(threading.Lock()): False, type(threading.RLock()): True}
    spaces = [c]
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] == 'bayesloop' and mod is not None:
            spaces.append(mod)
            spaces += [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name]
    for s in spaces:
        for k, v in list(vars(s).items()):
            if type(v) in kinds:
                setattr(s, k, CoopLock(kinds[type(v)]))
