"""C26: nothing is left behind by calls, requests and connections that are over.

The oracle is metamorphic: after a warm-up, the same round of work is done again and again; what exists afterwards
(objects of the library's own classes, unfinished asyncio tasks and futures, sockets, file descriptors, threads, and the
traced memory when the messages are large) must not grow with the number of rounds.
"""
import asyncio
import collections
import concurrent.futures
import gc
import os
import socket
import sys
import threading
import time
import tracemalloc
import types

from anthunder import AioClient, Client, SERVICE_MAP
from anthunder.listener import AioListener, SockListener
from hypothesis import strategies as st

from .. import REPO, gen, net, wire
from ..clients import context, make_client
from ..core import Facet, HarnessError, Violation, check
from ..net import WAIT, RawConn, Service, readable_now, service_class
from .c06_resilience import BADHEADER

OWN = ("anthunder", "mysockpool", "mytracer")
LIMIT = 25      # ms, of calls that are not answered
BIG = 200000    # a size of content that shows in the traced memory
ASYNC = (asyncio.Event, asyncio.Lock, asyncio.StreamWriter, asyncio.StreamReader)


BUILTIN = (dict, list, set, frozenset, tuple, collections.deque)


def own(t):
    return str(getattr(t, "__module__", None)).split(".", 1)[0] in OWN


def kept():
    """how many entries the containers have that the library's modules, classes and (older) objects refer to"""
    todo = [vars(m) for name, m in list(sys.modules.items()) if name.split(".", 1)[0] in OWN] + [x for x in (CLIENT, LSN) if x is not None]
    seen, n = set(), 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, BUILTIN):
            n += len(o) if type(o).__len__ in LENGTHS else 0
            try:
                todo.extend(o.values() if isinstance(o, dict) else o)
            except (RuntimeError, TypeError, NotImplementedError):
                pass    # changed meanwhile: the census is repeated
        if own(type(o)) or isinstance(o, (type, types.FunctionType)) and own(o):
            d = getattr(o, "__dict__", None)
            todo.extend(d.values() if d else ())
        if isinstance(o, types.FunctionType) and own(o):
            for c in o.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
            todo.extend(o.__defaults__ or ())
        elif isinstance(o, (classmethod, staticmethod)):
            todo.append(o.__func__)
        elif hasattr(o, "cache_info") and callable(getattr(o, "cache_info")) and not isinstance(o, type):
            info = o.cache_info()
            n += info.currsize if info.maxsize is None else 0
    return n


LENGTHS = [t.__len__ for t in BUILTIN] + [collections.OrderedDict.__len__]


# (gc.freeze in setup: what exists then is not looked at again, which makes a census fast)
def census():
    """what exists: Counter of kinds"""
    gc.collect()
    n = collections.Counter()
    for o in gc.get_objects():
        try:
            t = type(o)
            if str(t.__module__).split(".", 1)[0] in OWN:
                n["%s.%s objects" % (t.__module__, t.__qualname__)] += 1
            elif isinstance(o, asyncio.Future):      # (tasks too)
                if not o.done():
                    n["unfinished asyncio " + ("task" if isinstance(o, asyncio.Task) else "future")] += 1
            elif isinstance(o, ASYNC):
                n["asyncio.%s objects" % t.__name__] += 1
            elif isinstance(o, socket.socket):
                if o.fileno() != -1:
                    n["open sockets"] += 1
            elif isinstance(o, concurrent.futures.Future):
                n["concurrent futures"] += 1
            elif isinstance(o, concurrent.futures.Executor):
                n["executors"] += 1
        except ReferenceError:
            pass
    n["entries in the library's containers"] = kept()
    n["file descriptors"] = len(os.listdir("/proc/self/fd"))
    n["threads"] = threading.active_count()
    if tracemalloc.is_tracing():
        n["traced memory / %d bytes" % BIG] = tracemalloc.get_traced_memory()[0] // BIG
    return n


def grown(a, b, rounds):
    """kinds of things of which there is (nearly) one more per round"""
    return {k: b[k] - a[k] for k in b if b[k] - a[k] >= rounds * 0.75}


def settled(base, rounds, round_, timeout=6.0):
    """:return: growth since `base`, once the work in progress is over (or never ends)

    Some things are only let go of when the next work begins (socketserver forgets a thread that has ended when it starts
    another one, say): so a single round is done between looks.
    """
    end = time.monotonic() + timeout
    wait = 0.0
    while True:
        time.sleep(wait)
        now = census()
        g = grown(base, now, rounds)
        if not g or time.monotonic() > end:
            return g, now
        if wait > 0.05:
            round_()
            time.sleep(wait)
        wait = min(0.5, wait * 2 or 0.01)


def measure(round_, labels, warm=3, n=6, m=40, each=1):
    """nothing grows with the number of rounds
    :param each: a round repeats the same work so many times"""
    for _ in range(warm):
        round_()
    time.sleep(0.005)
    base = census()
    for _ in range(n):
        round_()
    g, now = settled(base, n * each, round_)
    if not g:
        return
    # once more: what grew in the first rounds may have been a cache or a pool that is filled up
    labels.add("measured again")
    for _ in range(m):
        round_()
    g, _ = settled(now, m * each, round_)
    check(not g, "after {} more rounds of the same work, all of it over, there are more: {}", m * each, g)


# ------------------------------------------------------------------------------------------------ clients
class Peer:
    """A server that answers by itself: the content says how ("kind|..."), it keeps nothing."""

    def __init__(self):
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(128)
        self.addr = self.l.getsockname()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            t = threading.Thread(target=self.serve, args=(s,), daemon=True)
            del s
            t.start()
            del t

    def close(self):
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()

    def serve(self, s):
        buf, late = b"", []
        try:
            s.settimeout(60)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            while True:
                while True:
                    r = wire.parse(buf, "request")
                    if r:
                        break
                    d = s.recv(1 << 18)
                    if not d:
                        return
                    buf += d
                f, buf = r
                for rid in late:
                    s.sendall(wire.response(rid, content=b"late"))
                late = []
                kind, _, rest = bytes(f.content).partition(b"|")
                kind = kind.decode()
                rid = f.request_id
                if f.cmdcode == wire.CMD_HEARTBEAT:
                    s.sendall(wire.response(rid, cmdcode=wire.CMD_HEARTBEAT))
                elif kind == "ok":
                    s.sendall(wire.response(rid, content=rest[:1] + bytes(len(rest))))
                elif kind == "error":
                    s.sendall(wire.response(rid, content=rest, status=1 + len(rest) % 4))
                elif kind == "dup":
                    s.sendall(wire.response(rid, content=b"x") * 3)
                elif kind == "stray":
                    s.sendall(b"".join(wire.response((rid + k) & 0x7fffffff, content=b"s") for k in (1000, 1001, -5)) +
                              wire.response(rid, content=b"x"))
                elif kind == "bad":
                    s.sendall(wire.response(rid, header=b"\0\0\0\7a", content=b"x"))
                elif kind == "badstatus":
                    s.sendall(wire.response(rid, status=77, content=b"x"))
                elif kind == "late":
                    late.append(rid)
                elif kind == "lost":
                    s.sendall(wire.response(rid, content=b"lost")[:len(rest) % 30])
                    return
                elif kind == "oneway" and len(rest) % 2:
                    s.sendall(wire.response(rid, content=b"not asked for"))
        except OSError:
            pass
        finally:
            s.close()
            del s


SIZE = st.sampled_from([0, 1, 2, 3, 50, 5000])
AIOKIND = gen.mix(
    st.tuples(st.sampled_from(["ok", "error", "dup", "stray", "bad", "badstatus", "lost"]),
              st.sampled_from(["sync", "future", "callback"])),
    st.tuples(st.sampled_from(["silent", "late"]), st.sampled_from(["sync", "cancel"])),
    st.tuples(st.just("refused"), st.sampled_from(["sync", "future", "callback", "oneway"])),
    st.tuples(st.just("unencodable"), st.sampled_from(["sync", "future", "callback", "oneway"])),
    st.tuples(st.just("oneway"), st.just("oneway")),
    st.tuples(st.just("ok"), st.just("raising callback")))
AIO = st.fixed_dictionaries(dict(
    calls=st.lists(st.tuples(AIOKIND, SIZE).map(lambda t: [t[0][0], t[0][1], t[1]]), min_size=1, max_size=4),
    big=st.sampled_from([False, False, True]), parallel=st.booleans()))
PEER = ADDRS = CLIENT = SYNC = None
INF, REFUSED = "com.verif.c26.peer:1.0", "com.verif.c26.refused:1.0"


def setup_client(cls):
    def setup():
        global PEER, CLIENT
        PEER = Peer()
        SERVICE_MAP[INF] = PEER.addr
        SERVICE_MAP[REFUSED] = ("127.0.0.1", net.free_port())
        CLIENT = make_client(cls)
        gc.freeze()
    return setup


def teardown_client():
    global CLIENT
    PEER.close()
    SERVICE_MAP.pop(INF), SERVICE_MAP.pop(REFUSED)
    CLIENT = None


def aio_call(kind, how, body):
    """one call, over when this returns; its outcome is the business of other properties"""
    kw = dict(spanctx=context(None))
    inf = INF
    if kind == "refused":
        inf = REFUSED
    if kind == "unencodable":
        kw["extra"] = "x" * 70000
    try:
        if how == "oneway":
            CLIENT.invoke_oneway(inf, "run", body, **kw)
        elif how == "sync":
            CLIENT.invoke_sync(inf, "run", body, timeout_ms=LIMIT if kind in ("silent", "late") else 10000, **kw)
        elif how in ("callback", "raising callback"):
            ev = threading.Event()

            def cb(_):
                if how == "raising callback":
                    raise ValueError("from a callback")
            f = CLIENT.invoke_async(inf, "run", body, callback=cb, timeout_ms=10000, **kw)
            f.add_done_callback(lambda _: ev.set())
            if not ev.wait(WAIT):
                raise Violation("a call ({}) with a callback does not end".format(kind))
        else:
            f = CLIENT.invoke_async(inf, "run", body, **kw)
            try:
                f.result(LIMIT / 1000.0 if how == "cancel" else 10)
            finally:
                if how == "cancel":
                    f.cancel()
    except Violation:
        raise
    except Exception:
        pass


def sync_call(kind, how, body):
    inf = REFUSED if kind == "refused" else INF
    try:
        if how == "oneway":
            CLIENT.invoke_oneway(inf, "run", body, spanctx=context(None))
        else:
            CLIENT.invoke_sync(inf, "m" * 70000 if kind == "unencodable" else "run", body, spanctx=context(None),
                               timeout_ms=LIMIT if kind in ("silent", "late") else 10000)
    except Exception:
        pass


def run_client(call):
    def run(c):
        labels = {"%s/%s" % (k, h) for k, h, _ in c["calls"]}
        if c["big"]:
            labels.add("large messages")
            tracemalloc.start(1)

        def one(k, h, size):
            return lambda: call(k, h, k.encode() + b"|" + bytes(BIG * 2 if c["big"] else size))

        def round_():
            fs = [one(*x) for x in c["calls"]]
            if c["parallel"]:
                ts = [threading.Thread(target=f) for f in fs]
                [t.start() for t in ts]
                [t.join() for t in ts]
            else:
                for f in fs:
                    f()
        try:
            measure(round_, labels)
        finally:
            if c["big"]:
                tracemalloc.stop()
        return labels - {"ok/sync"} != set(), labels
    return run


SYNCKIND = gen.mix(
    st.tuples(st.sampled_from(["ok", "error", "bad", "badstatus", "lost", "refused", "dup"]), st.just("sync")),
    st.tuples(st.sampled_from(["ok", "refused", "oneway"]), st.just("oneway")),
    st.tuples(st.just("unencodable"), st.just("sync")))
SYNCCASE = st.fixed_dictionaries(dict(
    calls=st.lists(st.tuples(SYNCKIND, SIZE).map(lambda t: [t[0][0], t[0][1], t[1]]), min_size=1, max_size=3),
    big=st.sampled_from([False, False, True]), parallel=st.booleans()))


def run_sync_silent(c):
    """unanswered calls of the synchronous client (each takes its time limit and a second of grace, so many at once)"""
    def round_():
        ts = [threading.Thread(target=sync_call, args=(c["kind"], "sync", c["kind"].encode() + b"|" + bytes(c["size"])))
              for _ in range(20)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    labels = {c["kind"]}
    measure(round_, labels, warm=1, n=1, m=2, each=20)
    return True, labels


SYNCSILENT = st.fixed_dictionaries(dict(kind=st.sampled_from(["silent", "late"]), size=SIZE))


# ------------------------------------------------------------------------------------------------ listeners
svc = Service()
LSN = ADDR = None
SERVED = "com.verif.c26.svc:1.0"


class Quick:
    """b"how|..." -> what the service does"""

    def __init__(self, ctx):
        self.ctx = ctx

    def run(self, body):
        how = bytes(body).split(b"|", 1)[0]
        if how == b"raise":
            raise ValueError("from a service")
        if how == b"exit":
            raise SystemExit(1)
        if how == b"slow":
            time.sleep(0.02)
        if how == b"wrong":
            return object()
        return body


def setup_listener(cls):
    def setup():
        global LSN, ADDR
        LSN, ADDR = net.start_listener(cls, eager=False)
        LSN.handler.register_interface(SERVED, Quick)
        gc.freeze()
    return setup


def teardown_listener():
    LSN.shutdown()


def header(service=SERVED, method="run"):
    return dict(service=service, sofa_head_target_service=service, sofa_head_method_name=method)


REQ = gen.mix(
    st.tuples(st.just("req"), st.sampled_from(["ok", "raise", "exit", "slow", "wrong"]), SIZE),
    st.tuples(st.just("limit"), st.just("slow"), SIZE),
    st.tuples(st.just("oneway"), st.sampled_from(["ok", "raise", "slow", "wrong"]), SIZE),
    st.tuples(st.sampled_from(["noservice", "nomethod", "noname", "hb", "wrongclass", "response", "badheader"]),
              st.just("ok"), SIZE),
    st.tuples(st.just("garbage"), st.just("ok"), st.integers(1, 60)),
    st.tuples(st.just("partial"), st.just("ok"), st.integers(0, 200))).map(list)
PEERCASE = st.fixed_dictionaries(dict(
    reqs=st.lists(REQ, max_size=4), read=st.sampled_from([True, True, False]),
    end=st.sampled_from(["close", "close", "reset", "half"]), big=st.sampled_from([False] * 4 + [True])))
LISTENER = st.fixed_dictionaries(dict(peers=st.lists(PEERCASE, min_size=1, max_size=3)))


def message(n, kind, how, size, big):
    rid = 10 + n
    body = how.encode() + b"|" + bytes(BIG * 2 if big else size)
    if kind == "hb":
        return wire.heartbeat(rid), True
    if kind == "garbage":
        return b"\x7f" * size, False
    b = wire.request(
        rid, {"noservice": header("com.verif.nobody"), "nomethod": header(method="nothing"),
              "noname": {"a": "b"}, "badheader": b"\0\0\0\x09a"}.get(kind, header()), body,
        ptype=wire.ONEWAY if kind == "oneway" else wire.REQUEST, timeout=2 if kind == "limit" else -1,
        cmdcode=wire.CMD_RESPONSE if kind == "response" else wire.CMD_REQUEST,
        class_name=b"com.example.Other" if kind == "wrongclass" else wire.REQ_CLASS)
    if kind == "partial":
        return b[:size], False
    return b, kind != "oneway"


def visit(peer, one_per_conn):
    """a peer comes, sends, maybe reads, and goes"""
    s = socket.socket()
    try:
        s.settimeout(WAIT)
        s.connect(ADDR)
        want = 0
        try:
            for n, (kind, how, size) in enumerate(peer["reqs"][:1] if one_per_conn else peer["reqs"]):
                b, answered = message(n, kind, how, size, peer["big"])
                want += answered
                s.sendall(b)
                if kind in ("partial", "garbage"):
                    break
            if peer["end"] == "half":
                s.shutdown(socket.SHUT_WR)
            buf = b""
            # reading stops early when fewer come: that is the business of other properties
            while peer["read"] and want and readable_now(s, 0.05 if one_per_conn else 0.3):
                d = s.recv(1 << 18)
                if not d:
                    break
                buf += d
                while True:
                    r = wire.parse(buf, "response")
                    if not r:
                        break
                    want -= 1
                    buf = r[1]
        except OSError:
            pass
        if peer["end"] == "reset":
            import struct
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    finally:
        s.close()


def run_listener(one_per_conn):
    def run(c):
        labels = {r[0] for p in c["peers"] for r in p["reqs"]} | {p["end"] for p in c["peers"]}
        big = any(p["big"] for p in c["peers"])
        if big:
            labels.add("large messages")
            tracemalloc.start(1)

        def round_():
            for p in c["peers"]:
                visit(p, one_per_conn)
        try:
            measure(round_, labels)
            # (and the listener still works)
            conn = RawConn(ADDR)
            conn.ping(77)
            conn.close()
        finally:
            if big:
                tracemalloc.stop()
        return any(p["reqs"] for p in c["peers"]), labels
    return run


LASTING = st.fixed_dictionaries(dict(big=st.sampled_from([False] * 4 + [True]), conns=st.integers(1, 2), reqs=st.lists(
    REQ.filter(lambda q: q[0] not in ("garbage", "partial", "wrongclass", "response", "badheader")), min_size=1, max_size=4)))


def run_lasting(c):
    """connections that stay, used in every round"""
    labels = {q[0] for q in c["reqs"]}
    if c["big"]:
        tracemalloc.start(1)
    conns = [RawConn(ADDR) for _ in range(c["conns"])]

    def round_():
        for conn in conns:
            want = 0
            for n, (kind, how, size) in enumerate(c["reqs"]):
                b, answered = message(n, kind, how, size, c["big"])
                want += answered
                conn.send(b)
            while want and conn.frame(0.3) not in (None, "timeout"):
                want -= 1
    try:
        measure(round_, labels)
        for conn in conns:
            conn.ping(77)
    finally:
        for conn in conns:
            conn.close()
        if c["big"]:
            tracemalloc.stop()
    return True, labels


ASSUMPTIONS = ["what is left behind shows as objects of the library's classes, asyncio objects, futures, sockets, file "
               "descriptors, threads or (messages of 400 kB) as memory; a growth below three things in four rounds is "
               "not seen",
               "the ids already used, which the request id sequence remembers, are not counted (some bytes per call)"]
FACETS = [
    Facet("aio_client", AIO, run_client(aio_call), quick=90, thorough=1500, setup=setup_client(AioClient),
          teardown=teardown_client, retries=3, hang_s=180,
          rule="rounds of up to 4 calls (sync, future, cancelled future, callback, oneway) that succeed, fail in every "
               "way, are never or late answered, or lose the connection; non-trivial = not only successful sync calls"),
    Facet("sync_client", SYNCCASE, run_client(sync_call), quick=80, thorough=1500, setup=setup_client(Client),
          teardown=teardown_client, retries=3, hang_s=180, rule="the same for the synchronous client"),
    Facet("sync_silence", SYNCSILENT, run_sync_silent, quick=2, thorough=12, setup=setup_client(Client),
          teardown=teardown_client, retries=2, hang_s=180, rule="20 unanswered calls at once, several times"),
    Facet("aio_listener", LISTENER, run_listener(False), quick=80, thorough=1200, setup=setup_listener(AioListener),
          teardown=teardown_listener, retries=3, hang_s=180,
          rule="rounds of up to 3 peers with up to 4 requests (good, failing, timed out, oneway, malformed, incomplete), "
               "which read the answers or not and close, reset or half-close; non-trivial = at least one request"),
    Facet("aio_connection", LASTING, run_lasting, quick=40, thorough=600, setup=setup_listener(AioListener),
          teardown=teardown_listener, retries=3, hang_s=180,
          rule="rounds of up to 4 requests on one or two connections that stay"),
    Facet("sock_listener", LISTENER, run_listener(True), quick=80, thorough=1200, setup=setup_listener(SockListener),
          teardown=teardown_listener, retries=3, hang_s=180, rule="the same for the threaded listener"),
]
