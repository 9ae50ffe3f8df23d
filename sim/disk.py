"""Simulated disk and scheduler of processes: every file system call below a scratch directory is announced by the
interposed layer (sim/native/shim.c) and waits for the verdict of the simulator."""
import ctypes
import errno
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
KIND = {1: 'open', 2: 'close', 3: 'read', 4: 'write', 5: 'fsync', 6: 'truncate', 7: 'rename', 8: 'unlink', 9: 'link',
        10: 'symlink', 11: 'chmod', 12: 'stat', 13: 'mkdir', 14: 'lock', 15: 'wait', 16: 'dir', 17: 'sync', 100: 'mark'}
GO, FAIL, SHORT, KILL, SHORTKILL, INT, FAILAFTER = range(7)
REQ = struct.Struct('<iiqqiiii')
VER = struct.Struct('<ii')
RES = struct.Struct('<qii')
LIMIT = 60.
TMP = ['.tmp', '.tmpdev']     # temporary files on the same or on another device


def present():
    try:
        return ctypes.CDLL(None).shim_present() == 1
    except AttributeError:
        return False


def prepare():
    """compiles the interposed layer and starts this process again on top of it"""
    if present():
        return
    if os.environ.get('VERIF_SHIM_SECOND'):
        raise RuntimeError('interposed layer is not active')
    d = os.path.join(os.path.dirname(HERE), 'evidence')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'shim-%d.so' % os.getpid())
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'native', 'shim.c'), '-ldl'],
                   check=True)
    env = dict(os.environ, LD_PRELOAD=so, VERIF_SHIM_SECOND='1')
    code = subprocess.call([sys.executable, '-m', 'sim.run'] + sys.argv[1:], env=env)
    os.remove(so)
    sys.stdout.flush()
    os._exit(code)


class Op(object):
    def __init__(self, kind, fd, off, n, flags, p1, p2, data):
        self.kind, self.fd, self.off, self.n, self.flags, self.p1, self.p2, self.data = kind, fd, off, n, flags, p1, p2, data

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(str(x) for x in (os.path.basename(self.p1), os.path.basename(self.p2),
                                                                self.fd, self.off, self.n) if x not in ('', -1)))


class Proc(object):
    """simulated process: a forked copy of this one, stopped at each file system call"""

    def __init__(self, root, f):
        a, b = socket.socketpair()
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                os.close(r)
                for p in Proc.live:
                    p.sock.close()
                    os.close(p.r)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                self.child = b
                for t in TMP:    # the directory for temporary files is simulated, too
                    if os.path.isdir(os.path.join(root, t)):
                        tempfile.tempdir = os.environ['TMPDIR'] = os.path.join(root, t)
                lib = ctypes.CDLL(None)
                lib.shim_on(os.fsencode(root), b.fileno())
                try:
                    out = ('ok', f(self))
                except BaseException as e:
                    out = ('exc', type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
                lib.shim_off()
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                d = pickle.dumps(out)
                while d:
                    d = d[os.write(w, d):]
            finally:
                os._exit(0)
        b.close()
        os.close(w)
        self.sock, self.r = a, r
        self.out = b''
        self.op = None
        self.result = None
        self.over = False
        self.fds = {}
        Proc.live.append(self)

    live = []

    # -- in the child ------------------------------------------------------------------------------------------------
    def mark(self, text):
        """an event of the history (begin or end of an operation)"""
        t = text.encode()
        self.child.sendall(REQ.pack(100, -1, 0, 0, 0, len(t), 0, 0) + t)
        self._recv(self.child, VER.size)
        self.child.sendall(RES.pack(0, 0, 0))

    # -- in the simulator --------------------------------------------------------------------------------------------
    @staticmethod
    def _recv(s, n):
        b = b''
        while len(b) < n:
            c = s.recv(min(n - len(b), 1 << 20))
            if not c:
                return None
            b += c
        return b

    def advance(self):
        """waits until the process stands at its next call or has ended"""
        end = time.monotonic() + LIMIT
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise RuntimeError('simulated process does not reach its next call')
            rd = select.select([self.sock, self.r], [], [], left)[0]
            if self.r in rd:
                c = os.read(self.r, 1 << 20)
                if c:
                    self.out += c
                    continue
                self.end()
                return
            if self.sock in rd:
                try:
                    h = self._recv(self.sock, REQ.size)
                except OSError:
                    h = None
                if h is None:
                    # result (if any) follows on the pipe
                    while True:
                        c = os.read(self.r, 1 << 20)
                        if not c:
                            break
                        self.out += c
                    self.end()
                    return
                k, fd, off, n, fl, a, b, d = REQ.unpack(h)
                p1 = self._recv(self.sock, a).decode() if a else ''
                p2 = self._recv(self.sock, b).decode() if b else ''
                data = self._recv(self.sock, d) if d else b''
                self.op = Op(KIND[k], fd, off, n, fl, p1, p2, data)
                return

    def grant(self, action=GO, arg=0):
        """lets the process execute its call; returns (ret, errno) or None if it died"""
        try:
            self.sock.sendall(VER.pack(action, arg))
            r = self._recv(self.sock, RES.size)
        except OSError:
            r = None
        self.op = None
        if r is None:
            return None
        return RES.unpack(r)[:2]

    def end(self):
        if self.over:
            return
        self.over = True
        self.op = None
        self.sock.close()
        os.close(self.r)
        os.waitpid(self.pid, 0)
        Proc.live.remove(self)
        self.result = pickle.loads(self.out) if self.out else ('dead',)

    def kill(self):
        if not self.over:
            os.kill(self.pid, signal.SIGKILL)
            while True:
                c = os.read(self.r, 1 << 20)
                if not c:
                    break
            self.out = b''
            self.end()


def cleanup():
    for p in list(Proc.live):
        p.kill()


class Inode(object):
    def __init__(self, content=b''):
        self.stable = bytes(content)   # survives power loss
        self.now = bytearray(content)
        self.pending = []              # changes since the last fsync


def change(buf, c):
    if c[0] == 't':
        n = c[1]
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b'\0' * (n - len(buf)))
    else:
        off, d = c[1], c[2]
        if off > len(buf):
            buf.extend(b'\0' * (off - len(buf)))
        buf[off:off + len(d)] = d


class Disk(object):
    """what the disk guarantees: fsync makes the content of a file durable; the order of names is kept (a prefix of
    the changes survives); everything else may be lost or torn"""

    def __init__(self, root):
        self.root = root
        self.names = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                with open(p, 'rb') as h:
                    self.names[p] = Inode(h.read())
        self.base = dict(self.names)
        self.meta = []

    def apply(self, proc, op, ret, err):
        """records the effect of a call"""
        k = op.kind
        if ret is None or ret < 0:
            if k == 'close':
                proc.fds.pop(op.fd, None)
            return
        if k == 'open':
            path = os.path.realpath(op.p1)
            ino = self.names.get(path)
            if ino is None:
                if not (op.flags & os.O_CREAT):
                    proc.fds[ret] = None
                    return
                ino = Inode()
                self.names[path] = ino
                self.meta.append(('create', path, ino))
            if op.flags & os.O_TRUNC and (ino.now or ino.pending):
                self._change(ino, ('t', 0))
            proc.fds[ret] = ino
        elif k == 'close':
            proc.fds.pop(op.fd, None)
        elif k == 'write':
            ino = proc.fds.get(op.fd)
            if ino is not None:
                self._change(ino, ('w', op.off, op.data[:ret]))
        elif k == 'truncate':
            ino = proc.fds.get(op.fd) if op.fd >= 0 else self.names.get(op.p1)
            if ino is not None:
                self._change(ino, ('t', op.n))
        elif k == 'fsync':
            ino = proc.fds.get(op.fd)
            if ino is not None:
                self._sync(ino)
        elif k == 'sync':
            for ino in self.names.values():
                self._sync(ino)
            self.base = dict(self.names)
            self.meta = []
        elif k == 'rename':
            if op.p1 in self.names:
                self.names[op.p2] = self.names.pop(op.p1)
                self.meta.append(('rename', op.p1, op.p2))
        elif k == 'unlink':
            if op.p1 in self.names:
                self.names.pop(op.p1)
                self.meta.append(('unlink', op.p1, None))
        elif k == 'link':
            if op.p1 in self.names:
                self.names[op.p2] = self.names[op.p1]
                self.meta.append(('create', op.p2, self.names[op.p1]))

    def _change(self, ino, c):
        change(ino.now, c)
        ino.pending.append(c)

    def _sync(self, ino):
        ino.stable = bytes(ino.now)
        ino.pending = []

    def after_power_loss(self, rng, style):
        """one possible content of the disk after a power failure at this instant: dict path -> bytes"""
        m = len(self.meta) if style != 'names' else rng.randint(0, len(self.meta))
        names = dict(self.base)
        for k, a, b in self.meta[:m]:
            if k == 'create':
                names[a] = b
            elif k == 'rename':
                names[b] = names.pop(a)
            else:
                names.pop(a, None)
        out = {}
        for p, ino in sorted(names.items()):
            buf = bytearray(ino.stable)
            if style == 'all':
                todo = ino.pending
            elif style == 'none':
                todo = []
            elif style == 'prefix':
                todo = ino.pending[:rng.randint(0, len(ino.pending))]
            else:
                todo = [c for c in ino.pending if rng.random() < .5]
            for i, c in enumerate(todo):
                if style == 'torn' and c[0] == 'w' and i == len(todo) - 1 and len(c[2]) > 1:
                    c = ('w', c[1], c[2][:rng.randrange(1, len(c[2]))])
                change(buf, c)
            out[p] = bytes(buf)
        return out


def materialise(files, root, dest):
    for p, c in files.items():
        q = os.path.join(dest, os.path.relpath(p, root))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(c)


def drive(procs, disk, choose=None, verdict=None, on_step=None, limit=200000):
    """runs the processes to their end, one call at a time; returns the history of calls and marks"""
    hist = []
    waiting = set()
    step = 0
    for p in procs:
        p.advance()
    while True:
        ready = [i for i, p in enumerate(procs) if not p.over]
        if not ready:
            break
        free = [i for i in ready if i not in waiting]
        if not free:
            waiting.clear()
            free = ready
            if step > limit // 2:
                from .pool import SimHang
                raise SimHang('processes wait for each other')
        i = choose(free, procs) if choose and len(free) > 1 else free[0]
        p = procs[i]
        op = p.op
        if op.kind == 'wait':
            waiting.add(i)
        else:
            waiting.clear()
        v = (GO, 0)
        if op.kind not in ('mark', 'wait') and verdict:
            v = verdict(i, op, step) or v
        if v[0] == GO and op.kind in ('rename', 'link') and ('/.tmpdev/' in op.p1) != ('/.tmpdev/' in op.p2):
            v = FAIL, errno.EXDEV
        r = p.grant(*v)
        if disk is not None:
            if r is None and v[0] == SHORTKILL:
                disk.apply(p, op, min(v[1], op.n), 0)
            elif r is not None:
                disk.apply(p, op, r[0], r[1])
        hist.append((i, op, v, r))
        step += 1
        if step > limit:
            from .pool import SimHang
            raise SimHang('no end after %d calls' % step)
        if on_step:
            on_step(i, op, v, r, step)
        p.advance()
    return hist
