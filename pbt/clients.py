"""Shared parts of the client checks: a server whose connections are driven by the case, calls, expected headers."""
import itertools
import math
import queue
import threading
import time

from anthunder import SERVICE_MAP
from hypothesis import strategies as st
from mytracer import tracer
from opentracing import Format

from . import gen, net, wire
from .core import HarnessError, Violation, check
from .net import WAIT, FakeServer, PeerGone

_n = itertools.count()
_tok = itertools.count()
P = "rpc_trace_context."

TRACE = gen.mix(st.none(), st.fixed_dictionaries(dict(
    trace=st.text("0123456789abcdef", min_size=1, max_size=30),
    rpc=gen.RPC,
    bag=gen.bag())))
METHOD = gen.mix(st.just("run"), gen.NAME, gen.TEXT.filter(bool))
EXTRANAME = gen.NAME.filter(lambda k: k not in ("self", "cls", "spanctx", "interface", "method_name", "target_app", "uid",
                                                "service", "method", "content", "timeout_ms", "callback", "kw", "headers")
                            and not k.startswith(("sofa_head", "rpc_trace_context")))
EXTRA = st.lists(st.tuples(EXTRANAME, gen.TEXT).map(list), max_size=2, unique_by=lambda t: t[0])


def make_client(cls):
    """a client without a mesh"""
    from .mesh import Mesh
    with Mesh(lambda p, b: ["refused"]):
        return cls("verif")


def context(t):
    if t is None:
        return tracer.start_span("call").context
    carrier = {P + k: v for k, v in t["bag"]}
    carrier.update({P + "sofaTraceId": t["trace"], P + "sofaRpcId": t["rpc"]})
    return tracer.extract(Format.TEXT_MAP, carrier)


def expected_header(ctx, interface, method, app="", uid="", extra=()):
    h = dict(extra)
    for k, v in ctx.baggage.items():
        h[P + k] = str(v)
    h.update(service=interface, sofa_head_target_service=interface, sofa_head_method_name=method,
             sofa_head_target_app=app, uid=uid)
    return h


def new_token():
    return b"k%d" % next(_tok)


def token_of(content):
    return bytes(content).split(b"|", 1)[0]


class Hub:
    """A fake server under an interface name of its own. Frames of all its connections arrive in `inbox` as
    (connection, frame), the end of a connection as (connection, None)."""

    def __init__(self, rcvbuf=None, addr=("127.0.0.1", 0), interface=None):
        self.inbox = queue.Queue()
        self.hold = threading.Event()
        self.hold.set()
        self.server = FakeServer(self._script, rcvbuf=rcvbuf, addr=addr)
        self.own = interface is None
        self.interface = interface or "com.verif.hub%d" % next(_n)
        if self.own:
            SERVICE_MAP[self.interface] = tuple(self.server.addr)

    def _script(self, conn):
        try:
            while True:
                f = conn.request(timeout=3600)
                self.inbox.put((conn, f))
                if f is None:
                    return
        except PeerGone:
            self.inbox.put((conn, None))
        except Violation as v:
            self.inbox.put((conn, v))
            raise
        except OSError:
            self.inbox.put((conn, None))

    def take(self, what="", timeout=WAIT, eof_ok=False):
        """next (connection, frame)"""
        end = time.monotonic() + timeout
        while True:
            try:
                conn, f = self.inbox.get(timeout=max(0.0, end - time.monotonic()))
            except queue.Empty:
                raise Violation("a request did not reach the server: {}".format(what))
            if isinstance(f, Violation):
                raise f
            if f is None and not eof_ok:
                continue
            return conn, f

    def take_eof(self, conn, timeout=WAIT):
        """wait for the end of one connection; other frames are kept"""
        keep = []
        end = time.monotonic() + timeout
        try:
            while True:
                try:
                    c, f = self.inbox.get(timeout=max(0.0, end - time.monotonic()))
                except queue.Empty:
                    return False
                if c is conn and f is None:
                    return True
                keep.append((c, f))
        finally:
            for x in keep:
                self.inbox.put(x)

    def nothing(self, what):
        """no frame is waiting"""
        while True:
            try:
                conn, f = self.inbox.get_nowait()
            except queue.Empty:
                return
            if isinstance(f, Violation):
                raise f
            check(f is None, "{}: unexpected request {}", what, f)

    def close(self):
        self.server.close()
        if self.own:
            SERVICE_MAP.pop(self.interface, None)


class Call:
    """one call in a thread (or through a future); .result() -> ("ok", value) / ("raise", e) / ("hang", None)"""

    def __init__(self, fn):
        self.box = []
        self.t0 = time.monotonic()
        self.dt = None
        self.done = threading.Event()
        self.t = threading.Thread(target=self._run, args=(fn,), daemon=True)
        self.t.start()

    def _run(self, fn):
        try:
            r = ("ok", fn())
        except BaseException as e:
            r = ("raise", e)
        self.dt = time.monotonic() - self.t0
        self.box.append(r)
        self.done.set()

    def result(self, timeout=WAIT):
        self.done.wait(timeout)
        return self.box[0] if self.box else ("hang", None)


def check_frame(f, ctx, interface, c, content, ptype=wire.REQUEST, timeout=None):
    """a request on the wire is exactly the call that was made"""
    check(f.proto == 1 and f.ver2 == 1 and f.codec == wire.PROTOBUF and f.class_name == wire.REQ_CLASS,
          "malformed request {}", f)
    check(f.ptype == ptype and f.cmdcode == wire.CMD_REQUEST, "a {} call was sent as {}",
          "oneway" if ptype == wire.ONEWAY else "two-way", f)
    check(f.content == content, "the request carries {} bytes {!r}..., the call {} bytes {!r}...", len(f.content),
          f.content[:30], len(content), content[:30])
    want = expected_header(ctx, interface, c.get("method", "run"), c.get("app", ""), c.get("uid", ""), c.get("extra", ()))
    check(f.header == want, "the request carries the headers {!r}, want {!r}", f.header, want)
    if timeout == "any":
        return
    want_t = -1 if not timeout else math.ceil(timeout)
    check(f.timeout == want_t, "the request carries the time limit {}, the call {}", f.timeout, timeout)
