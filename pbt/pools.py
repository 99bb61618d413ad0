"""Instrumented connections for the pool checks: real loopback sockets, every creation and closing recorded."""
import socket
import threading
import time

from mysockpool.connection import SocketConnection
from mysockpool.connection_pool import ConnectionPool
from mysockpool.pool_manager import PoolManager

from .core import HarnessError, Violation
from .net import readable_now, wait_until


class Peer:
    """accepts connections and keeps them"""

    def __init__(self, host="127.0.0.1"):
        self.l = socket.socket()
        self.l.bind((host, 0))
        self.l.listen(512)
        self.addr = self.l.getsockname()
        self.by_port = {}
        self.cv = threading.Condition()
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def _run(self):
        while True:
            try:
                s, a = self.l.accept()
            except OSError:
                return
            with self.cv:
                self.by_port[a[1]] = s
                self.cv.notify_all()

    def side(self, conn, timeout=15):
        """the peer's socket of a client connection"""
        if getattr(conn, "peer_side", None) is None:
            try:
                port = conn.sock.getsockname()[1]
            except (OSError, AttributeError) as e:
                raise Violation("the connection {} was closed while it was handed out: {!r}".format(conn, e))
            with self.cv:
                if not self.cv.wait_for(lambda: port in self.by_port, timeout):
                    raise HarnessError("connection from port %d never accepted" % port)
                conn.peer_side = self.by_port.pop(port)
        return conn.peer_side

    def forget(self):
        """between cases: ports are used again later"""
        with self.cv:
            for s in self.by_port.values():
                s.close()
            self.by_port.clear()

    def close(self):
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()
        with self.cv:
            for s in self.by_port.values():
                s.close()


class World:
    """classes whose connections are recorded; creation can be made to fail"""

    def __init__(self):
        w = self
        self.conns = []
        self.fail, self.slow = 0, False
        self.lock = threading.Lock()

        class Conn(SocketConnection):
            def __init__(self, pool_key, *a, **kw):
                with w.lock:
                    if w.fail:
                        w.fail -= 1
                        raise OSError("injected failure of socket creation")
                super(Conn, self).__init__(pool_key, *a, **kw)
                if w.slow:
                    time.sleep(0.0002)      # let other threads run while a connection is being made
                with w.lock:
                    self.no = len(w.conns)
                    w.conns.append(self)

            def __del__(self):
                pass    # closing by the garbage collector does not count as closing

            def __repr__(self):
                return "conn%d" % self.no

        class Pool(ConnectionPool):
            ConnectionCls = Conn

        class Manager(PoolManager):
            PoolCls = Pool

        self.Conn, self.Pool, self.Manager = Conn, Pool, Manager

    def open(self):
        return [c for c in self.conns if is_open(c)]

    def close(self, *peers):
        for c in self.conns:
            c.close()
            if getattr(c, "peer_side", None) is not None:
                c.peer_side.close()
        for p in peers:
            p.forget()


def is_open(conn):
    try:
        return conn.sock is not None and conn.sock.fileno() != -1
    except Exception:
        return False


def settle(conn, readable):
    """wait until the kernel shows the effect of what the peer did"""
    wait_until(lambda: readable_now(conn.sock) == readable, 5)
