"""C24: oneway calls: one oneway frame, executed once, never waited for."""
import socket
import threading
import time

from anthunder import AioClient, Client, SERVICE_MAP
from anthunder.listener import AioListener, SockListener
from hypothesis import strategies as st

from .. import gen, net, wire
from ..clients import EXTRA, METHOD, TRACE, Call, Hub, check_frame, context, make_client, new_token
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import RawConn
from . import c05_dispatch as d
from . import c07_sock as c07
from .c06_resilience import BADHEADER

CLIENTS = {}
LISTENERS = {}


def setup_clients():
    if not CLIENTS:
        CLIENTS.update(aio=make_client(AioClient), sync=make_client(Client))


def teardown():
    pass


# ------------------------------------------------------------------------------------------------ what is sent
SIZES = [0, 1, 255, 256, 65535, 65536, 300000]
SEND = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["one", "one", "two"]), trace=TRACE, method=METHOD, app=gen.TEXT, uid=gen.TEXT, extra=EXTRA,
    body=gen.payload(SIZES, 20), answer=st.sampled_from(["now", "later", "later"]), stray=st.sampled_from([0, 0, 0, 1, 2])))
LOSS = st.fixed_dictionaries(dict(kind=st.just("loss")))
SENT = st.fixed_dictionaries(dict(
    client=st.sampled_from(["aio", "aio", "sync"]), ops=st.lists(gen.mix(*[SEND] * 7, LOSS), min_size=1, max_size=8),
    together=st.booleans(), perm=st.lists(st.integers(0, 50), max_size=8)))


class Sent:
    def __init__(self, client, hub, o):
        self.o, self.hub = o, hub
        self.ctx = context(o["trace"])
        self.uid = new_token().decode() + o["uid"]
        self.body = gen.expand(o["body"])
        self.extra = o["extra"] if client == "aio" else []
        self.frame = self.conn = None
        self.want = b"w" + self.uid.encode()
        cl = CLIENTS[client]
        kw = dict(self.extra, spanctx=self.ctx, target_app=o["app"], uid=self.uid)
        if o["kind"] == "one":
            self.call = Call(lambda: cl.invoke_oneway(hub.interface, o["method"], self.body, **kw))
        else:
            self.call = Call(lambda: cl.invoke_sync(hub.interface, o["method"], self.body, timeout_ms=60000, **kw))

    def returned(self):
        r, v = self.call.result()
        check(r != "hang", "a {} call does not return", "oneway" if self.o["kind"] == "one" else "two-way")
        check(r == "ok", "a {} call raised {!r}", "oneway" if self.o["kind"] == "one" else "two-way", v)
        if self.o["kind"] == "two":
            check(v == self.want, "a two-way call next to oneway calls got {!r}, want {!r}", v, self.want)


def run_sent(c):
    hub = Hub()
    jobs, open_, labels, ids = {}, [], {c["client"]}, set()

    def take():
        conn, f = hub.take("{}".format([o["kind"] for o in c["ops"]]))
        j = jobs.get(f.header.get("uid"))
        check(j is not None, "a request that nobody made: {}", f)
        check(j.frame is None, "a {} request was sent twice: {}", j.o["kind"], f)
        j.frame, j.conn = f, conn
        one = j.o["kind"] == "one"
        check_frame(f, j.ctx, hub.interface, dict(j.o, uid=j.uid, extra=j.extra), j.body,
                    ptype=wire.ONEWAY if one else wire.REQUEST, timeout=None if one else 60000)
        check(f.request_id not in ids, "the id {} is used twice", f.request_id)
        ids.add(f.request_id)
        if one:
            # the server has not done anything yet
            j.returned()
            labels.add("oneway")
            for _ in range(j.o["stray"]):
                # a server that answers although it should not
                labels.add("answered all the same")
                try:
                    conn.send(wire.response(f.request_id, content=b"stray"))
                except OSError:
                    pass
        elif j.o["answer"] == "now":
            answer(j)
        else:
            open_.append(j)
        return j

    def answer(j):
        j.conn.send(wire.response(j.frame.request_id, content=j.want))
        j.returned()

    def answer_all():
        for p in c["perm"]:
            if open_:
                answer(open_.pop(p % len(open_)))
                labels.add("paired")
        while open_:
            answer(open_.pop())

    try:
        waiting = 0
        for o in c["ops"]:
            if o["kind"] == "loss":
                # the connection is closed by the server, and the client has noticed
                for _ in range(waiting):
                    take()
                waiting = 0
                answer_all()
                conns = {id(j.conn): j.conn for j in jobs.values() if not getattr(j.conn, "gone", False)}
                for conn in conns.values():
                    conn.gone = True
                    try:
                        conn.s.shutdown(socket.SHUT_WR)
                    except OSError:
                        continue
                    if c["client"] == "aio":
                        check(hub.take_eof(conn), "the client keeps a connection that the server closed")
                        labels.add("connection lost before")
                continue
            j = Sent(c["client"], hub, o)
            jobs[j.uid] = j
            waiting += 1
            if not c["together"]:
                take()
                waiting = 0
        for _ in range(waiting):
            take()
        answer_all()
        last = Sent(c["client"], hub, dict(kind="two", trace=None, method="last", app="", uid="", extra=[], body=b"",
                                           answer="now", stray=0))
        jobs[last.uid] = last
        take()
        time.sleep(0.002)
        hub.nothing("after all calls")
        hub.server.raise_errors()
    finally:
        hub.close()
    return "oneway" in labels, labels


# ------------------------------------------------------------------------------------------------ the listener
def setup_aio():
    d.setup()


def teardown_aio():
    d.teardown()


ONE = gen.mix(*[d.CALL] * 3, d.ANY).map(lambda r: dict(r, kind="one", limit=20 + r["limit"] % 40))
TWO = d.CALL.map(lambda r: dict(r, kind="two", when="now"))
BAD = st.fixed_dictionaries(dict(kind=st.just("bad"), id=gen.REQID, header=BADHEADER, body=st.binary(max_size=9)))
LISTEN = st.fixed_dictionaries(dict(conns=st.lists(st.fixed_dictionaries(dict(
    reqs=st.lists(gen.mix(*[ONE] * 5, *[TWO] * 3, BAD), min_size=1, max_size=7),
    cuts=st.lists(st.integers(0, 3000), max_size=5))), min_size=1, max_size=3)))


def run_listener(c):
    d.forget()
    conns, gates, labels = [], [], set()
    jobs = []
    gated = 0
    try:
        for x in c["conns"]:
            conn = RawConn(d.ADDR)
            conns.append(conn)
            conn.jobs = {}
            stream = b""
            for r in x["reqs"]:
                rid = r["id"]
                while rid in conn.jobs or rid >= 2 ** 31 - 10 ** 6:
                    rid = (rid + 1) % (2 ** 31 - 10 ** 6)
                tok = b"t%d" % next(d._tok)
                j = dict(r=r, tok=tok, t0=time.monotonic(), late=False)
                conn.jobs[rid] = j
                jobs.append(j)
                if r["kind"] == "bad":
                    j.update(model=(None, None, None, False, False))
                    d.PLANS[tok] = dict(out="bytes", bytes=b"executed", gate=None)
                    stream += wire.request(rid, r["header"], tok + b"|" + r["body"], ptype=wire.ONEWAY)
                    labels.add("undecodable")
                    continue
                gate = None
                if r["kind"] == "one" and r["when"] != "now" and gated < 20:
                    gate = threading.Event()
                    gates.append(gate)
                    gated += 1
                    labels.add("held back")
                d.PLANS[tok] = dict(r["out"], gate=gate, bytes=gen.expand(r["out"].get("bytes", b"")))
                j["body"] = gen.tagged(tok + b"|", r["body"])
                j["model"] = d.model(r, r["out"], False)
                j["gated"] = gate is not None
                one = r["kind"] == "one"
                timeout = r["limit"] if one and r["when"] == "late" else r["timeout"]
                stream += wire.request(rid, d.header(r), j["body"], cmdcode=r["cmd"], timeout=timeout,
                                       ptype=wire.ONEWAY if one else wire.REQUEST,
                                       class_name=wire.REQ_CLASS if r["cls"] == "ok" else r["cls"].encode())
                labels.add(r["kind"] + " " + (r["out"]["out"] if j["model"][4] else "not executed"))
            conn.stream = stream
            conn.cuts = sorted({y % (len(stream) + 1) for y in x["cuts"]})
        for conn in conns:
            pos = 0
            for y in conn.cuts + [len(conn.stream)]:
                conn.send(conn.stream[pos:y])
                pos = y
        for conn in conns:
            rids = {rid for rid, j in conn.jobs.items() if j["r"]["kind"] == "two"}
            while rids:
                f = conn.frame()
                check(f not in (None, "timeout"), "{} for requests next to oneway ones: {}", "connection closed" if f is None else
                      "no response", [conn.jobs[x]["r"] for x in rids][:3])
                one = conn.jobs.get(f.request_id)
                check(one is None or one["r"]["kind"] == "two", "a oneway request was answered: {} with {}", one and one["r"], f)
                check(f.request_id in rids, "unexpected response {}", f)
                rids.discard(f.request_id)
                d.verify(f, conn.jobs[f.request_id], set())
        count = lambda log, j: sum(1 for e in list(log) if (e if log is d.DONE else e[0]) == j["tok"])
        for j in jobs:
            if j["model"][4]:
                check(net.wait_until(lambda: count(d.LOG, j)), "a request was never executed: {}", j["r"])
        if any(j["r"].get("when") == "late" and j["r"]["kind"] == "one" for j in jobs):
            time.sleep(0.07)        # past the time limit of oneway requests that are held back
        silent(conns)
        for g in gates:
            g.set()
        for j in jobs:
            if j["model"][4]:
                check(net.wait_until(lambda: count(d.DONE, j)), "an execution does not end: {}", j["r"])
        time.sleep(0.001)
        silent(conns)
        for j in jobs:
            got = [e for e in list(d.LOG) if e[0] == j["tok"]]
            check(len(got) <= (1 if j["model"][3] else 0), "a request was executed {} times: {}", len(got), j["r"])
            for e in got:
                d.executed(e, j)
    finally:
        for g in gates:
            g.set()
        for conn in conns:
            conn.close()
    return any(j["r"]["kind"] != "two" for j in jobs), labels


def silent(conns):
    """nothing is answered before something that comes later"""
    for conn in conns:
        tok = b"t%d" % next(d._tok)
        d.PLANS[tok] = dict(out="bytes", bytes=b"p" + tok, gate=None)
        rid = next(d.SENTINEL)
        conn.send(wire.request(rid, c07.HEADER, tok + b"|"))
        f = conn.frame()
        check(f not in (None, "timeout"), "{}: a request after oneway ones", "connection closed" if f is None else "no response")
        check(f.request_id == rid, "a oneway request was answered: {} with {}", conn.jobs.get(f.request_id, {}).get("r"), f)
        check(f.status == 0 and f.content == b"p" + tok, "a request after oneway ones was answered with {}", f)
        extra = conn.ping(next(d.SENTINEL))
        check(not extra, "a oneway request was answered: {}", extra)


def run_busy(c):
    """oneway requests that have to wait until other requests are over, maybe for longer than their time limit"""
    d.forget()
    gate = threading.Event()
    conns = []
    toks, two = [], {}
    rid = 0
    try:
        conns = [RawConn(d.ADDR) for _ in range(c["conns"])]
        for conn in conns:
            conn.jobs = {}

        def request(k, ptype, timeout, plan):
            nonlocal rid
            rid += 1
            tok = b"t%d" % next(d._tok)
            d.PLANS[tok] = plan
            body = gen.tagged(tok + b"|", c["body"])
            toks.append((tok, body))
            conn = conns[k % len(conns)]
            conn.send(wire.request(rid, c07.HEADER, body, ptype=ptype, timeout=timeout))
            return conn, rid, tok

        for k in range(c["held"]):
            request(k, wire.ONEWAY, 60000, dict(out="bytes", bytes=b"", gate=gate))
        for k, (kind, limit) in enumerate(c["then"]):
            one = kind == "one"
            conn, i, tok = request(k, wire.ONEWAY if one else wire.REQUEST, limit if one else 60000, dict(out="bytes", bytes=b"r", gate=None))
            if not one:
                two[i] = conn
        time.sleep(0.01 + max([x[1] for x in c["then"]]) / 1000.0)
        gate.set()
        for i, conn in two.items():
            f = conn.frame()
            check(f not in (None, "timeout"), "{}: a request behind {} that were held back", "connection closed" if f is None else "no response", c["held"])
            check(two.get(f.request_id) is conn and f.status == 0 and f.content == b"r", "a request behind {} that were held back: {}", c["held"], f)
        for tok, body in toks:
            check(net.wait_until(lambda: any(e[0] == tok for e in list(d.LOG))), "one of {} requests was never executed, {} of them were "
                  "held back", len(toks), c["held"])
        silent(conns)
        log = list(d.LOG)
        for tok, body in toks:
            got = [e for e in log if e[0] == tok]
            check(len(got) == 1, "a request was executed {} times", len(got))
            check(got[0][3] == body, "a request with {!r}... was executed with {!r}...", body[:20], got[0][3][:20])
    finally:
        gate.set()
        for conn in conns:
            conn.close()
    return c["held"] > 20, ["held=%d" % min(c["held"] // 20 * 20, 100)]


BUSY = st.fixed_dictionaries(dict(
    held=gen.mix(st.sampled_from([0, 29, 30, 31, 60]), st.integers(0, 70), st.integers(0, 70), st.sampled_from([300, 700])), conns=st.integers(1, 3), body=gen.payload([0, 1, 255, 65536], 20),
    then=st.lists(st.tuples(gen.mix(st.just("one"), st.just("one"), st.just("two")), st.sampled_from([1, 5, 10, 0, -1])).map(list),
                  min_size=1, max_size=8)))


# ------------------------------------------------------------------------------------------------ threaded listener
SOCK = st.fixed_dictionaries(dict(
    conns=st.lists(st.fixed_dictionaries(dict(
        req=gen.mix(*[gen.mix(d.CALL, d.CALL, d.ANY).map(lambda r: dict(r, kind="oneway"))] * 4, d.CALL.map(lambda r: dict(r, kind="req"))),
        cuts=st.lists(st.integers(0, 120000), max_size=3), small=st.lists(st.integers(0, 250), max_size=4))), min_size=1, max_size=5),
    turns=st.lists(st.integers(0, 3), max_size=20), release=st.lists(st.integers(0, 10), max_size=4), gated=st.booleans()))


# ------------------------------------------------------------------------------------------------ end to end
PAIRS = {"sync-sock": ("sync", SockListener), "sync-aio": ("sync", AioListener), "aio-aio": ("aio", AioListener)}
SVC = ["A:1.0", "服务"]


def setup_e2e():
    setup_clients()
    for cls in (SockListener, AioListener):
        lsn, addr = net.start_listener(cls)
        LISTENERS[cls] = lsn
        for s in SVC:
            name = "c24." + cls.__name__ + s
            lsn.handler.register_interface(name, d.make(name))
            SERVICE_MAP[name] = tuple(addr)


def teardown_e2e():
    for cls, lsn in LISTENERS.items():
        lsn.shutdown()
        for s in SVC:
            SERVICE_MAP.pop("c24." + cls.__name__ + s, None)
    LISTENERS.clear()


EOP = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["one", "one", "two"]), svc=st.sampled_from(SVC), method=st.sampled_from(d.METHODS), trace=TRACE,
    app=gen.TEXT, uid=gen.TEXT, body=gen.payload(SIZES, 20), out=d.OUT, held=st.booleans()))
E2E = st.fixed_dictionaries(dict(pair=st.sampled_from(sorted(PAIRS)), ops=st.lists(EOP, min_size=1, max_size=10)))


def run_e2e(c):
    d.forget()
    cl, cls = PAIRS[c["pair"]]
    client = CLIENTS[cl]
    gate = threading.Event()
    jobs, labels = [], {c["pair"]}
    try:
        for o in c["ops"]:
            tok = b"t%d" % next(d._tok)
            ctx = context(o["trace"])
            body = gen.tagged(tok + b"|", o["body"])
            name = "c24." + cls.__name__ + o["svc"]
            kw = dict(spanctx=ctx, target_app=o["app"], uid=o["uid"])
            one = o["kind"] == "one"
            d.PLANS[tok] = dict(o["out"], gate=gate if one and o["held"] else None, bytes=gen.expand(o["out"].get("bytes", b"")))
            if not one:
                d.PLANS[tok].update(out="bytes", bytes=b"r" + tok)
            jobs.append((o, tok, body, ctx, name))
            if one:
                r, v = net.call(client.invoke_oneway, name, o["method"], body, **kw)
                check(r != "hang", "a oneway call waits for the service ({})", c["pair"])
                check(r == "ok" and v is None, "a oneway call ({}): {} {!r}", c["pair"], r, v)
                labels.add("held back" if o["held"] else o["out"]["out"])
            else:
                r, v = net.call(client.invoke_sync, name, o["method"], body, timeout_ms=60000, **kw)
                check(r == "ok" and v == b"r" + tok, "a two-way call next to oneway calls ({}): {} {!r}, want {!r}", c["pair"], r,
                      v, b"r" + tok)
        for o, tok, body, ctx, name in jobs:
            check(net.wait_until(lambda: any(e[0] == tok for e in list(d.LOG))), "a {} call ({}) was never executed",
                  o["kind"], c["pair"])
        gate.set()
        for o, tok, body, ctx, name in jobs:
            check(net.wait_until(lambda: tok in list(d.DONE)), "an execution does not end")
        r, v = net.call(client.invoke_sync, name, "run", b"no plan", timeout_ms=60000, spanctx=context(None))
        check(r == "ok" and v == b"no plan", "a call after oneway calls ({}): {} {!r}", c["pair"], r, v)
        for o, tok, body, ctx, name in jobs:
            got = [e for e in list(d.LOG) if e[0] == tok]
            check(len(got) == 1, "a {} call ({}) was executed {} times", o["kind"], c["pair"], len(got))
            _, svc, method, b, sctx = got[0][:5]
            check(svc == name and method == o["method"], "a call of {}.{} was executed by {}.{}", name, o["method"], svc, method)
            check(b == body, "the service got {} bytes {!r}..., sent {} bytes {!r}...", len(b), b[:30], len(body), body[:30])
            a, b = ({k: str(v) for k, v in x.baggage.items()} for x in (ctx, sctx))
            check(a == b, "the service got the trace context {!r}, sent {!r}", b, a)
    finally:
        gate.set()
    return any(o["kind"] == "one" for o in c["ops"]), labels


ASSUMPTIONS = ["what is never answered is shown by later requests on the same connection being answered first"]
FACETS = [
    Facet("sent", SENT, run_sent, quick=250, thorough=6000, setup=setup_clients, teardown=teardown, retries=3,
          rule="1-8 oneway and two-way calls of either client to a fake server, one after the other or together, answered in a "
               "generated order, oneway ones maybe answered all the same, connections closed in between; non-trivial = a "
               "oneway call"),
    Facet("listener", LISTEN, run_listener, quick=250, thorough=6000, setup=setup_aio, teardown=teardown_aio, retries=3,
          rule="up to 3 connections with up to 7 pipelined requests each, oneway ones (any outcome as in C05, undecodable, held "
               "back past their time limit) among two-way ones; non-trivial = a oneway request"),
    Facet("busy", BUSY, run_busy, quick=25, thorough=600, setup=setup_aio, teardown=teardown_aio, retries=3,
          rule="0-70 requests that are held back, then oneway requests (with time limits that pass) and two-way ones; non-trivial = more "
               "than 20 held back"),
    Facet("threaded", SOCK, c07.run, quick=100, thorough=3000, setup=c07.setup, teardown=c07.teardown, retries=3,
          rule="oneway requests (any outcome) to the threaded listener, fragmented, next to others"),
    Facet("endtoend", E2E, run_e2e, quick=150, thorough=3000, setup=setup_e2e, teardown=teardown_e2e, retries=3,
          rule="1-10 oneway and two-way calls through a client and a listener, services held back; non-trivial = a oneway call"),
    Facet("schedules", SENT, run_sent, quick=50, thorough=1200, retries=5, rule="as sent, while threads of the library pause at random lines",
          **schedules(setup_clients, teardown)),
    Facet("schedules, listener", LISTEN, run_listener, quick=50, thorough=1200, retries=5, rule="as listener, while threads of the library pause at random lines",
          **schedules(setup_aio, teardown_aio)),
    Facet("schedules, endtoend", E2E, run_e2e, quick=30, thorough=600, retries=5, rule="as endtoend, while threads of the library pause at random lines",
          **schedules(setup_e2e, teardown_e2e)),
]
