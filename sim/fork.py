"""Evaluation of a function in a forked copy of the simulated process (the state of this process is not touched)."""
import os
import pickle
import signal
import sys
import traceback


class ChildError(Exception):
    pass


def in_child(f):
    """result of f() computed in a forked child; exceptions of the harness vocabulary are passed on"""
    from . import core, pool
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (0, f(), _stats())
            except core.Violation as v:
                out = (1, (v.cls, v.msg), _stats())
            except core.Skip as e:
                out = (2, str(e), _stats())
            except pool.SimHang as e:
                out = (4, str(e), _stats())
            except BaseException:
                out = (3, traceback.format_exc(), _stats())
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf.append(c)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise ChildError('child ended without result')
    code, v, st = pickle.loads(b''.join(buf))
    _merge(st)
    if code == 0:
        return v
    if code == 1:
        raise core.Violation(*v)
    if code == 2:
        raise core.Skip(v)
    if code == 4:
        raise pool.SimHang(v)
    raise ChildError(v)


def _stats():
    from . import core
    return core.ctx.checks


def _merge(st):
    from . import core
    core.ctx.checks = max(core.ctx.checks, st)


class Zygote(object):
    """a forked copy of this process that stays as it was when it was created; every call is evaluated in a further
    fork of it (reference results that cannot depend on anything that happened in the simulated process since)"""

    def __init__(self):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(qw)
                os.close(ar)
                while True:
                    m = _recv(qr)
                    if m is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _send(aw, pickle.dumps(_answer(m)))
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(qr)
        os.close(aw)
        self.q, self.a = qw, ar

    def __call__(self, f, *args):
        """f is a function of a module of the harness, all arguments are plain data"""
        _send(self.q, pickle.dumps((f.__module__, f.__name__, args)))
        b = _recv(self.a)
        if b is None:
            raise ChildError('zygote ended')
        ok, v = pickle.loads(b)
        if not ok:
            raise ChildError(v)
        return v

    def close(self):
        os.close(self.q)
        os.close(self.a)
        os.waitpid(self.pid, 0)


def _answer(m):
    try:
        mod, name, args = pickle.loads(m)
        return True, getattr(sys.modules[mod], name)(*args)
    except BaseException:
        return False, traceback.format_exc()


def _send(fd, b):
    b = len(b).to_bytes(8, 'little') + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def get(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = get(8)
    return None if h is None else get(int.from_bytes(h, 'little'))
