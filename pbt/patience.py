"""Time that passes: peers that pause within a message or between messages, services and servers that take long. Nothing
in the documentation limits how long that may be (unless the request has a limit), so nothing may come of it."""
import itertools
import threading
import time

from anthunder import SERVICE_MAP
from hypothesis import strategies as st

from . import net, wire
from .clients import Call, context, make_client, new_token
from .core import Facet, check
from .net import WAIT, FakeServer, RawConn

INF = "com.verif.patience:1.0"
HEADER = dict(service=INF, sofa_head_target_service=INF, sofa_head_method_name="run")
CUTS = [0, 1, 21, 22, 23, 60, 66, 67, 90]
_n = itertools.count(1)


class Slow(object):
    gate = None

    def __init__(self, ctx):
        pass

    def run(self, body):
        if body.startswith(b"slow"):
            Slow.gate.wait(600)
        return b"<" + body + b">"


def case(pause):
    return st.fixed_dictionaries(dict(
        pause=st.just(pause), cuts=st.lists(st.integers(0, 200), min_size=2, max_size=4), size=st.sampled_from([0, 30, 70000]),
        limit=st.sampled_from([-1, 0, 600000])))


def listener(cls, many):
    """:param many: whether a connection may carry several requests"""
    def run(c):
        Slow.gate = threading.Event()
        lsn, addr = net.start_listener(cls)
        conns = []
        try:
            lsn.handler.register_interface(INF, Slow)
            body = b"b" * c["size"]
            frame = wire.request(7, HEADER, body, timeout=c["limit"])
            todo = []
            for cut in CUTS + [x % len(frame) for x in c["cuts"]] + [len(frame) - 1]:
                conn = RawConn(addr)
                conns.append(conn)
                conn.send(frame[:cut])
                todo.append((conn, frame[cut:], b"<" + body + b">", "a request that pauses after %d of %d bytes" % (cut, len(frame))))
            for k in range(3):
                conn = RawConn(addr)
                conns.append(conn)
                conn.send(wire.request(7, HEADER, b"slow%d" % k, timeout=c["limit"]))
                todo.append((conn, b"", b"<slow%d>" % k, "a request with limit %d whose service takes long" % c["limit"]))
            if many:
                for first in (wire.heartbeat(3), wire.request(3, HEADER, b"x")):
                    conn = RawConn(addr)
                    conns.append(conn)
                    conn.send(first)
                    f = conn.frame()
                    check(f not in (None, "timeout") and f.status == 0, "answered with {}", f)
                    todo.append((conn, frame, b"<" + body + b">", "a request on a connection that has been idle"))
            for conn, _, _, what in todo:
                f = conn.frame(0.01)
                check(f == "timeout", "{}: {} too early", what, f)
            time.sleep(c["pause"])
            Slow.gate.set()
            for conn, rest, want, what in todo:
                what += " (%s s)" % c["pause"]
                try:
                    conn.send(rest)
                except OSError as e:
                    check(False, "{}: the connection is gone: {!r}", what, e)
                f = conn.frame()
                check(f not in (None, "timeout"), "{}: {}", what, "connection closed" if f is None else "no answer")
                check(f.request_id == 7 and f.status == 0 and f.content == want, "{}: answered with {}", what, f)
        finally:
            Slow.gate.set()
            for conn in conns:
                conn.close()
            lsn.shutdown()
        return True, ["limit=%d" % c["limit"]]
    return run


def client(cls):
    def run(c):
        cl = make_client(cls)
        want = b"r" * c["size"]
        servers, calls, infs = [], [], []

        def start(script, what, body=b"x"):
            server = FakeServer(script)
            servers.append(server)
            inf = "com.verif.patience.%d" % next(_n)
            infs.append(inf)
            SERVICE_MAP[inf] = tuple(server.addr)
            calls.append([what, inf, ask(inf)])

        def ask(inf):
            return Call(lambda: cl.invoke_sync(inf, "run", new_token(), spanctx=context(None), timeout_ms=600000))

        def pausing(cut):
            def script(conn):
                while True:
                    f = conn.request(3600)
                    if f is None:
                        return
                    b = wire.response(f.request_id, content=want)
                    conn.send(b[:cut % len(b)])
                    time.sleep(c["pause"])
                    conn.send(b[cut % len(b):])
            return script

        def prompt(conn):
            while True:
                f = conn.request(3600)
                if f is None:
                    return
                conn.send(wire.response(f.request_id, content=want))

        def verify(what, call):
            r, v = call.result(c["pause"] + WAIT)
            check(r != "hang", "{}: no result", what)
            check(r == "ok" and v == want, "{}: {} {!r}", what, r, v if r == "raise" else v[:30])
        try:
            for cut in [0, 1, 19, 20, 21, 60, 65] + c["cuts"]:
                start(pausing(cut), "a call whose response pauses for %s s after %d bytes" % (c["pause"], cut))
            start(prompt, "a call")
            verify(calls[-1][0], calls[-1][2])
            for what, inf, call in calls[:-1]:
                verify(what, call)
            verify("a call on a connection that was idle for %s s" % c["pause"], ask(calls[-1][1]))
            for server in servers:
                server.raise_errors()
        finally:
            for server in servers:
                server.close()
            for inf in infs:
                SERVICE_MAP.pop(inf, None)
        return True, []
    return run


def facets(run, what):
    return [
        Facet("patience", case(11), run, quick=1, thorough=2, retries=1, shrink_s=1, rule=what + " that pause for 11 s at generated "
              "places; every case counts"),
        Facet("long patience", case(65), run, quick=0, thorough=1, retries=1, shrink_s=1, hang_s=300, rule="the same for 65 s")]
