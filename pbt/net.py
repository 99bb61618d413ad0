"""Network harness: listeners under test, a raw Bolt peer, scripted fake servers. All on 127.0.0.1.

No verdict depends on a short time limit: WAIT bounds how long an expected event may take before it counts as never
happening (the events take milliseconds).
"""
import random
import select
import socket
import socketserver
import threading
import time

from . import wire
from .core import HarnessError, Violation, check

WAIT = 15.0
# tracebacks of services that fail on purpose are of no interest
socketserver.BaseServer.handle_error = lambda self, request, address: None


def _below_ephemeral():
    try:
        with open("/proc/sys/net/ipv4/ip_local_port_range") as fh:
            low = int(fh.read().split()[0])
    except (OSError, ValueError):
        low = 32768
    return low if low > 14000 else 32768


_LOW = _below_ephemeral()


def free_port():
    """a port that no outgoing connection is given (a client could even be connected to itself on such a port)"""
    while True:
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", random.SystemRandom().randrange(10240, _LOW)))
            except OSError:
                continue
            return s.getsockname()[1]


def wait_until(cond, timeout=WAIT, step=0.001):
    end = time.monotonic() + timeout
    while True:
        if cond():
            return True
        if time.monotonic() > end:
            return False
        time.sleep(step)


def many_files(run, n=1100):
    """run a case in a process that has more than 1024 files open (which select() does not support)"""
    def _run(c):
        import os
        import resource
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        if soft != resource.RLIM_INFINITY and soft < 4096:
            try:
                resource.setrlimit(resource.RLIMIT_NOFILE, (4096 if hard == resource.RLIM_INFINITY else min(4096, hard), hard))
            except (ValueError, OSError):
                pass
        fds = []
        try:
            try:
                while len(fds) < n:
                    fds.append(os.open(os.devnull, os.O_RDONLY))
            except OSError:
                # not allowed here; leave some for the case
                for fd in fds[-400:]:
                    os.close(fd)
                del fds[-400:]
            return run(c)
        finally:
            for fd in fds:
                os.close(fd)
    return _run


def readable_now(sock, timeout=0.0):
    p = select.poll()
    p.register(sock, select.POLLIN | select.POLLHUP | select.POLLERR)
    return bool(p.poll(timeout * 1000))


def call(fn, *a, timeout=WAIT, **kw):
    """run a blocking call of the code under test in a thread.
    :return: ("ok", value) or ("raise", exception) or ("hang", None)"""
    box = []

    def _t():
        try:
            box.append(("ok", fn(*a, **kw)))
        except BaseException as e:
            box.append(("raise", e))

    t = threading.Thread(target=_t, daemon=True)
    t.start()
    t.join(timeout)
    return box[0] if box else ("hang", None)


def calls(fns, timeout=WAIT):
    """run several blocking calls concurrently"""
    boxes = [[] for _ in fns]

    def _t(i):
        try:
            boxes[i].append(("ok", fns[i]()))
        except BaseException as e:
            boxes[i].append(("raise", e))

    ts = [threading.Thread(target=_t, args=(i,), daemon=True) for i in range(len(fns))]
    for t in ts:
        t.start()
    end = time.monotonic() + timeout
    for t in ts:
        t.join(max(0.0, end - time.monotonic()))
    return [b[0] if b else ("hang", None) for b in boxes]


class Service:
    """What the services under a listener do, and what they saw. A request is described by a token at the start of its
    body: b"<token>|..."; plans[token] says what the method does."""

    def __init__(self):
        self.lock = threading.Lock()
        self.plans = {}
        self.log = []       # (token, method, body, ctx, extra)

    def plan(self, token, **kw):
        self.plans[token] = kw

    def seen(self, token):
        with self.lock:
            return [e for e in self.log if e[0] == token]

    def forget(self):
        with self.lock:
            self.plans = {}
            self.log = []

    def handle(self, method, body, ctx, extra=None):
        token = bytes(body).split(b"|", 1)[0] if isinstance(body, (bytes, bytearray, memoryview)) else None
        p = self.plans.get(token, {})
        gate = p.get("gate")
        with self.lock:
            self.log.append((token, method, body, ctx, extra))
        if gate is not None:
            gate.wait(WAIT * 2)
        if "raise" in p:
            raise p["raise"]
        r = p.get("result", b"")
        done = p.get("done")
        if done is not None:
            done.set()
        return r


def service_class(svc, methods=("run",), extra_from=None):
    """a service class in the documented style: constructed with the span context, methods take the request bytes"""

    class Svc:
        def __init__(self, ctx, *a, **kw):
            self.ctx = ctx
            self.extra = (a, kw)

    for m in methods:
        def method(self, body, _m=m):
            return svc.handle(_m, body, self.ctx, self.extra)
        setattr(Svc, m, method)
    return Svc


class _NoneIdle:
    """Stands in for ThreadPoolExecutor's count of idle threads, which CPython gets wrong: a worker that finds the queue
    empty counts itself as idle and may take a work item that had another thread started, so that later items wait for
    busy threads although fewer than max_workers exist. With this the executor starts threads up to max_workers."""

    def acquire(self, *a, **kw):
        return False

    def release(self, *a, **kw):
        pass


def start_listener(cls, app="verif", eager=True):
    """an AioListener or SockListener on a free port of 127.0.0.1 that serves (not only listens: while it still starts,
    a shutdown() would be lost)
    :param eager: rely on the number of threads of the executor"""
    for _ in range(5):
        addr = ("127.0.0.1", free_port())
        try:
            lsn = cls(addr, app)
        except OSError:
            continue
        executor = getattr(getattr(lsn, "handler", None), "executor", None)
        if eager and hasattr(executor, "_idle_semaphore"):
            executor._idle_semaphore = _NoneIdle()
        lsn.run_threading()
        deadline = time.monotonic() + 5
        while time.monotonic() < deadline:
            try:
                with socket.create_connection(addr, 1) as s:
                    s.sendall(wire.heartbeat(1))
                    s.recv(1)       # whatever happens to it, the listener has run
                return lsn, addr
            except socket.timeout:
                return lsn, addr
            except OSError:
                time.sleep(0.005)
    raise Violation("the listener does not accept connections")


class RawConn:
    """a client that speaks Bolt through the reference codec"""

    def __init__(self, addr, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(WAIT)
        self.s.connect(addr)
        self.buf = b""
        self.eof = False

    def send(self, b):
        self.s.sendall(b)

    def frame(self, timeout=WAIT):
        """:return: next response frame; None at EOF; "timeout" when nothing complete arrives in time"""
        end = time.monotonic() + timeout
        while True:
            r = wire.parse(self.buf, "response")
            if r:
                self.buf = r[1]
                return r[0]
            if self.eof:
                return None
            left = end - time.monotonic()
            if left <= 0 or not readable_now(self.s, left):
                return "timeout"
            try:
                d = self.s.recv(1 << 16)
            except OSError:
                d = b""
            if not d:
                self.eof = True
            self.buf += d

    def ping(self, rid, timeout=WAIT):
        """frames that arrive before the answer to a heartbeat with this (unused) id"""
        try:
            self.send(wire.heartbeat(rid))
        except OSError as e:
            raise Violation("connection lost: {!r}".format(e))
        out = []
        while True:
            f = self.frame(timeout)
            check(f != "timeout", "heartbeat not answered")
            check(f is not None, "connection closed by the server (before answering a heartbeat); got {}", out)
            if f.cmdcode == wire.CMD_HEARTBEAT and f.request_id == rid:
                return out
            out.append(f)

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def reset(self):
        """close with RST"""
        import struct
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()


class FakeServer:
    """Accepts connections and runs script(conn) in a thread for each one."""

    def __init__(self, script, rcvbuf=None, addr=("127.0.0.1", 0)):
        self.l = socket.socket()
        if rcvbuf:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(addr)
        self.l.listen(64)
        self.addr = self.l.getsockname()
        self.script = script
        self.conns = []
        self.errors = []
        self.closed = False
        self.t = threading.Thread(target=self._accept, daemon=True)
        self.t.start()

    def _accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            if self.closed:
                s.close()
                return
            c = PeerConn(s, len(self.conns))
            self.conns.append(c)
            threading.Thread(target=self._run, args=(c,), daemon=True).start()

    def _run(self, c):
        try:
            self.script(c)
        except (OSError, PeerGone):
            pass
        except BaseException as e:
            self.errors.append(e)
        finally:
            c.stopped.set()

    def raise_errors(self):
        """a malformed request reached the server (Violation), or a bug of the script"""
        for e in self.errors:
            if isinstance(e, Violation):
                raise e
            raise HarnessError("fake server: %r" % e)

    def close(self):
        self.closed = True
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()
        for c in list(self.conns):
            c.close()


class PeerGone(Exception):
    pass


class PeerConn:
    """server side of one connection of a fake server"""

    def __init__(self, s, no):
        self.s, self.no = s, no
        self.stopping, self.stopped = False, threading.Event()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.frames = []

    def request(self, timeout=WAIT):
        """next request frame (strictly well-formed, else Violation); None at EOF"""
        end = time.monotonic() + timeout
        while True:
            r = wire.parse(self.buf, "request")
            if r:
                f, self.buf = r
                try:
                    wire.parse_exact(_raw(f), "request")
                except wire.Bad as e:
                    raise Violation("the client sent a malformed request ({}): {}".format(e, f))
                self.frames.append(f)
                return f
            try:
                while not readable_now(self.s, 0.02):
                    if self.stopping or time.monotonic() > end:
                        self.stopped.set()
                        raise PeerGone("timeout")
                d = self.s.recv(1 << 18)
            except (OSError, ValueError):
                return None
            if not d:
                return None
            self.buf += d

    def send(self, b):
        self.s.settimeout(WAIT)
        self.s.sendall(b)

    def send_pieces(self, b, cuts, pause=0.0):
        pos = 0
        for c in sorted(set(x % (len(b) + 1) for x in cuts)) + [len(b)]:
            if c > pos:
                self.send(b[pos:c])
                pos = c
                if pause:
                    time.sleep(pause)

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()

    def reset(self, reading=True):
        """close with RST.
        :param reading: a thread reads requests from this connection (it would keep the socket alive)"""
        import struct
        self.stopping = True
        if reading:
            self.stopped.wait(1)
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.s.close()


def _raw(f):
    return wire.request(f.request_id, f.header_bytes, f.content, f.ptype, f.cmdcode, f.timeout, f.class_name,
                        f.proto, f.ver2, f.codec)
