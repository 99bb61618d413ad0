"""C04: pipelined requests on the asyncio listener: one response each, with its own id and result."""
import itertools
import socket
import threading
import time

from anthunder.listener import AioListener
from hypothesis import strategies as st

from .. import gen, net, patience, wire
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import WAIT, RawConn, Service, service_class

svc = Service()
LSN = ADDR = None
SENTINEL = itertools.cycle(range(2 ** 31 - 10 ** 6, 2 ** 31 - 2 * 10 ** 5))
INF = "com.verif.c04:1.0"
_tok = itertools.count()


def setup():
    global LSN, ADDR
    LSN, ADDR = net.start_listener(AioListener)
    LSN.handler.register_interface(INF, service_class(svc, ("run", "other")))


def teardown():
    LSN.shutdown()


def header(method="run"):
    return dict(service=INF, sofa_head_target_service=INF, sofa_head_method_name=method, sofa_head_target_app="",
                uid="")


def expect(c, conn, f, what):
    """f answers exactly one outstanding message of this connection, correctly"""
    check(f is not None and f != "timeout", "{}: {}", what,
          "connection closed" if f is None else "no response to ids {}".format(sorted(conn.want)))
    check(f.proto == 1 and f.ver2 == 1 and f.ptype == wire.RESPONSE, "{}: malformed response {}", what, f)
    check(f.request_id in conn.want, "{}: a response with id {} that nobody waits for on this connection (again?): {}",
          what, f.request_id, f)
    kind, content, key = conn.want.pop(f.request_id)
    check(f.status == 0, "{}: status {}", what, f)
    if kind == "hb":
        check(f.cmdcode == wire.CMD_HEARTBEAT and f.content == b"", "{}: heartbeat answered with {}", what, f)
    else:
        check(f.cmdcode == wire.CMD_RESPONSE and f.class_name == wire.RESP_CLASS, "{}: malformed response {}", what, f)
        check(f.content == content, "{}: response to id {} has the content {!r}... ({} bytes), want {!r}... ({} bytes)",
              what, f.request_id, f.content[:20], len(f.content), content[:20], len(content))
    return key


def quiet(conn, what):
    """nothing more arrives: two later heartbeats are answered next"""
    for k in range(2):
        extra = conn.ping(next(SENTINEL))
        check(not extra, "{}: unexpected response {}", what, extra)
        if k == 0:
            time.sleep(0.002)


MSG = gen.mix(
    *[st.fixed_dictionaries(dict(kind=st.just("req"), id=gen.REQID, pad=st.sampled_from([0, 0, 1, 50, 5000, 70000]),
                                 result=gen.payload([0, 1, 255, 256, 65535, 65536, 200000], 10),
                                 gated=st.booleans()))] * 5,
    st.fixed_dictionaries(dict(kind=st.just("hb"), id=gen.REQID)),
    st.fixed_dictionaries(dict(kind=st.just("oneway"), id=gen.REQID, pad=st.sampled_from([0, 1, 5000]),
                               result=st.binary(max_size=5), gated=st.booleans())))
CASE = st.fixed_dictionaries(dict(
    conns=st.integers(1, 3).flatmap(lambda k: st.lists(st.lists(MSG, min_size=1, max_size=8), min_size=k, max_size=k)),
    cuts=st.lists(st.integers(0, 300000), max_size=10),
    small=st.lists(st.integers(0, 200), max_size=10),   # cuts inside the first frames
    turns=st.lists(st.integers(0, 2), max_size=30),
    release=st.lists(st.integers(0, 1000), max_size=24),
    step=st.booleans(), early=st.booleans()))


def build(c, plans):
    """register the plans, return per connection (stream, [(kind, id, want, gate key)])"""
    out, ngated = [], 0
    for no, msgs in enumerate(c["conns"]):
        stream, infos, used = b"", [], set()
        for m in msgs:
            rid = m["id"]
            while rid in used or rid >= 2 ** 31 - 10 ** 6:
                rid = (rid + 1) % (2 ** 31 - 10 ** 6)
            used.add(rid)
            if m["kind"] == "hb":
                stream += wire.heartbeat(rid)
                infos.append(("hb", rid, b"", None))
                continue
            tok = b"t%d" % next(_tok)
            result = gen.expand(m["result"])
            gate = None
            if m["gated"] and ngated < 24:
                gate = threading.Event()
                ngated += 1
            svc.plan(tok, result=result, gate=gate)
            plans.append((tok, gate))
            body = gen.tagged(tok + b"|", ["pat", m["pad"], len(infos)])
            stream += wire.request(rid, header(), body, ptype=wire.ONEWAY if m["kind"] == "oneway" else wire.REQUEST,
                                   timeout=-1)
            infos.append((m["kind"], rid, result, (tok, gate) if gate else None))
        out.append((stream, infos))
    return out


def run(c):
    svc.forget()
    plans = []
    conns = []
    labels = set()
    try:
        built = build(c, plans)
        for stream, infos in built:
            conn = RawConn(ADDR)
            conns.append(conn)
            conn.want = {}
            conn.pieces = []
            cuts = sorted({x % (len(stream) + 1) for x in c["cuts"] + c["small"]})
            pos = 0
            for x in cuts + [len(stream)]:
                if x > pos:
                    conn.pieces.append(stream[pos:x])
                    pos = x
            for kind, rid, result, key in infos:
                if kind != "oneway":
                    conn.want[rid] = (kind, result, key[0] if key else None)
        # interleave the pieces of the connections
        turns = list(c["turns"])
        while any(x.pieces for x in conns):
            k = turns.pop(0) if turns else 0
            live = [x for x in conns if x.pieces]
            x = live[k % len(live)]
            x.send(x.pieces.pop(0))
            if len(conns) == 1 or k == 2:
                time.sleep(0.0005)
        gated = [(tok, g) for tok, g in plans if g is not None]
        tok_conn = {key[0]: (conn, rid, kind) for conn, (_, infos) in zip(conns, built) for kind, rid, _, key in infos
                    if key}
        # everything that is not gated is answered while the gated handlers still run
        if c["early"]:
            for no, conn in enumerate(conns):
                while any(v[2] is None for v in conn.want.values()):
                    key = expect(c, conn, conn.frame(), "connection %d, gates closed" % no)
                    check(key is None, "a response was sent before its handler returned")
            labels.add("answers overtake")
        order = []
        rest = list(gated)
        for r in c["release"]:
            if rest:
                order.append(rest.pop(r % len(rest)))
        order += rest
        if len(order) > 1 and order != gated:
            labels.add("out of order")
        for tok, gate in order:
            gate.set()
            conn, rid, kind = tok_conn[tok]
            if c["step"] and kind == "req":
                while rid in conn.want:
                    key = expect(c, conn, conn.frame(), "after releasing id %d" % rid)
                    g = dict(gated).get(key)
                    check(g is None or g.is_set(), "a response was sent before its handler returned")
        for no, conn in enumerate(conns):
            while conn.want:
                expect(c, conn, conn.frame(), "connection %d" % no)
            quiet(conn, "connection %d" % no)
        # every request ran exactly once
        for tok, _ in plans:
            check(net.wait_until(lambda: len(svc.seen(tok)) >= 1), "a request was never executed")
        for tok, _ in plans:
            check(len(svc.seen(tok)) == 1, "a request was executed {} times", len(svc.seen(tok)))
    finally:
        for _, g in plans:
            if g is not None:
                g.set()
        for conn in conns:
            conn.close()
    n = sum(len(x) for x in c["conns"])
    labels.add("conns=%d" % len(conns))
    if len({i[1] for _, infos in built for i in infos}) < sum(len(infos) for _, infos in built):
        labels.add("same id on two connections")
    if any(m["kind"] == "oneway" for x in c["conns"] for m in x):
        labels.add("oneway")
    if any(m["kind"] == "hb" for x in c["conns"] for m in x):
        labels.add("heartbeat")
    if len(c["cuts"]) + len(c["small"]):
        labels.add("fragmented")
    return n > 1, labels


def run_slow(c):
    """a connection that does not read while large responses pile up, next to one that works"""
    svc.forget()
    conn = RawConn(ADDR, rcvbuf=4096)
    other = RawConn(ADDR)
    conn.want, other.want = {}, {}
    plans = []
    try:
        for k, n in enumerate(c["sizes"]):
            tok = b"t%d" % next(_tok)
            result = gen.expand(["pat", n, k])
            svc.plan(tok, result=result)
            plans.append(tok)
            conn.want[k + 1] = ("req", result, None)
            conn.send(wire.request(k + 1, header(), tok + b"|x"))
            if k in c["hb"]:
                conn.want[1000 + k] = ("hb", b"", None)
                conn.send(wire.heartbeat(1000 + k))
        net.wait_until(lambda: all(svc.seen(t) for t in plans))
        time.sleep(0.005)
        for k in range(c["others"]):
            tok = b"t%d" % next(_tok)
            svc.plan(tok, result=b"r%d" % k)
            other.want[k + 1] = ("req", b"r%d" % k, None)
            other.send(wire.request(k + 1, header(), tok + b"|y"))
        while other.want:
            expect(c, other, other.frame(), "the other connection")
        quiet(other, "the other connection")
        total = 0
        while conn.want:
            if total < 40:
                time.sleep(c["pause"] / 1000.0)
            total += 1
            expect(c, conn, conn.frame(), "the slow connection")
        quiet(conn, "the slow connection")
        for tok in plans:
            check(len(svc.seen(tok)) == 1, "a request was executed {} times", len(svc.seen(tok)))
    finally:
        conn.close()
        other.close()
    return sum(c["sizes"]) > 300000, ["bytes=%dM" % (sum(c["sizes"]) // 1000000)]


# the last ones exceed what the socket buffers of both sides take, the server has to wait for the reader
SLOW = st.fixed_dictionaries(dict(
    sizes=gen.mix(st.lists(st.sampled_from([10, 1000, 60000, 200000, 1000000]), min_size=2, max_size=12),
                  st.lists(st.sampled_from([100000, 1000000, 3000000]), min_size=5, max_size=10),
                  st.lists(st.sampled_from([100, 1000000, 3000000]), min_size=5, max_size=10)),
    hb=st.lists(st.integers(0, 11), max_size=3), others=st.integers(1, 4), pause=st.sampled_from([0, 1])))


def run_eof(c):
    """the client stops sending (half-close), maybe within a frame: what was answered stays right, nothing is repeated"""
    svc.forget()
    conn = RawConn(ADDR)
    conn.want = {}
    plans = []
    try:
        stream = b""
        for k, n in enumerate(c["results"]):
            tok = b"t%d" % next(_tok)
            result = gen.expand(["pat", n, k])
            svc.plan(tok, result=result)
            plans.append(tok)
            conn.want[k + 1] = ("req", result, None)
            stream += wire.request(k + 1, header(), tok + b"|x")
        tail = wire.request(777, header(), b"none|" + b"z" * 50)
        stream += tail[:c["tail"] % len(tail)]
        conn.send(stream)
        if c["wait"]:
            while conn.want:
                expect(c, conn, conn.frame(), "before the half-close")
        conn.s.shutdown(socket.SHUT_WR)
        got = 0
        while True:
            f = conn.frame()
            if f is None:
                break
            check(f != "timeout", "the server neither answers nor closes after the client's end of stream")
            if f.request_id == 777 or (f.status == wire.STATUSES["CONNECTION_CLOSED"] and f.request_id not in conn.want
                                       and f.request_id > len(c["results"])):
                check(f.status != 0, "an incomplete request was answered with success")
                continue
            expect(c, conn, f, "after the half-close")
            got += 1
        check(not conn.buf, "the last response is incomplete")
        time.sleep(0.001)
        for tok in plans:
            check(len(svc.seen(tok)) <= 1, "a request was executed {} times", len(svc.seen(tok)))
        check(not svc.seen(b"none"), "an incomplete request was executed")
    finally:
        conn.close()
    return True, ["tail" if c["tail"] else "clean end", "waited" if c["wait"] else "did not wait"]


EOF = st.fixed_dictionaries(dict(results=st.lists(st.sampled_from([0, 1, 300, 70000]), min_size=1, max_size=5),
                                 tail=st.one_of(st.just(0), st.integers(1, 250)), wait=st.booleans()))

def run_deep(c):
    """many outstanding requests on few connections: more than there are threads to execute them, for some time"""
    svc.forget()
    conns = [RawConn(ADDR) for _ in range(c["conns"])]
    gate = threading.Event()
    plans, streams = [], [b""] * len(conns)
    try:
        for conn in conns:
            conn.want, conn.hb = {}, 0
        held = {k * c["n"] // max(1, c["held"]) for k in range(c["held"])}
        if c.get("front"):
            # the first ones of the connection that comes first
            held = {min(k * len(conns), c["n"] - 1) for k in range(c["held"])}
        for k in range(c["n"]):
            no = k % len(conns)
            conn, rid = conns[no], (c["base"] + (k // len(conns)) * c["stride"]) % (2 ** 31 - 10 ** 6)
            tok = b"t%d" % next(_tok)
            result = tok + b":" + gen.expand(["pat", c["sizes"][k % len(c["sizes"])], k % 200])
            svc.plan(tok, result=result, gate=gate if k in held else None)
            plans.append(tok)
            conn.want[rid] = ("req", result, tok)
            conn.order = getattr(conn, "order", []) + [tok]
            streams[no] += wire.request(rid, header(), tok + b"|x", timeout=c["timeout"])
        for conn, stream in zip(conns, streams):
            if c["piece"]:
                for pos in range(0, len(stream), c["piece"]):
                    conn.send(stream[pos:pos + c["piece"]])
            else:
                conn.send(stream)
        held = {plans[k] for k in held}
        if c["held"] < 25:
            # those that nothing holds back are answered while the others wait
            for conn in conns:
                while any(v[2] not in held for v in conn.want.values()):
                    key = expect(c, conn, conn.frame(), "%d outstanding requests" % c["n"])
                    check(key not in held, "a response was sent before its handler returned")
        else:
            check(net.wait_until(lambda: sum(len(svc.seen(t)) for t in plans[:40]) > 0), "no request was executed")
        if c["hb"]:
            # the heartbeat is answered although no thread is free
            for conn in conns:
                rid = next(SENTINEL)
                conn.want[rid] = ("hb", b"", "hb")
                conn.send(wire.heartbeat(rid))
                while rid in conn.want:
                    key = expect(c, conn, conn.frame(), "a heartbeat while %d handlers run" % c["held"])
                    check(key not in held, "a response was sent before its handler returned")
        gate.set()
        for conn in conns:
            while conn.want:
                expect(c, conn, conn.frame(), "%d requests" % c["n"])
            quiet(conn, "%d requests" % c["n"])
        for tok in plans:
            check(len(svc.seen(tok)) == 1, "a request was executed {} times", len(svc.seen(tok)))
    finally:
        gate.set()
        for conn in conns:
            conn.close()
    return c["n"] > 8, ["n>%d" % (c["n"] // 64 * 64), "held back" if c["held"] else "", "more than the threads" if
                        c["held"] > 30 else "", "n=%d, front=%s" % (c["n"] // 350, c.get("front") and c["held"] >= 30)]


DEEP = st.fixed_dictionaries(dict(
    n=gen.mix(st.sampled_from([16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]), st.integers(9, 400), st.integers(9, 400), st.sampled_from([700, 1100])),
    conns=st.integers(1, 3), held=st.sampled_from([0, 1, 20, 24, 30, 31, 40, 64, 100, 600]), base=gen.REQID,
    stride=st.sampled_from([1, 1, 2, 128, 256, 65536, 65537, 2 ** 24 + 1]), timeout=st.sampled_from([-1, -1, 0, 60000, 2 ** 31 - 1]),
    sizes=st.lists(st.sampled_from([0, 0, 1, 100, 5000]), min_size=1, max_size=4),
    piece=st.sampled_from([0, 0, 0, 1000, 4096, 77]), hb=st.booleans(), front=st.booleans())).map(
        lambda c: dict(c, held=min(c["held"], c["n"])))


def run_long(c):
    """a connection that lives long: ids are used again once they are answered, thousands of messages go through it"""
    svc.forget()
    conn = RawConn(ADDR)
    conn.want = {}
    try:
        total = 0
        for rnd in range(c["rounds"]):
            ids = c["ids"] if not c["shift"] else [(x + rnd * c["shift"]) % (2 ** 31 - 10 ** 6) for x in c["ids"]]
            ids = list(dict.fromkeys(x % (2 ** 31 - 10 ** 6) for x in ids))
            if rnd % 2 and c["turn"]:
                ids.reverse()
            svc.forget()
            stream, toks = b"", []
            for k, rid in enumerate(ids):
                if c["hb"] and (k + rnd) % c["hb"] == 0:
                    stream += wire.heartbeat(rid)
                    conn.want[rid] = ("hb", b"", None)
                    continue
                tok = b"t%d" % next(_tok)
                svc.plan(tok, result=b"R" + tok)
                toks.append(tok)
                if c["oneway"] and (k + rnd) % c["oneway"] == 0:
                    stream += wire.request(rid, header(), tok + b"|", ptype=wire.ONEWAY, timeout=-1)
                    continue
                conn.want[rid] = ("req", b"R" + tok, None)
                stream += wire.request(rid, header(), tok + b"|" + b"x" * c["pad"], timeout=c["timeout"])
            conn.send(stream)
            total += len(ids)
            what = "message %d to %d of a connection" % (total - len(ids), total)
            while conn.want:
                expect(c, conn, conn.frame(), what)
            for tok in toks:
                check(net.wait_until(lambda: svc.seen(tok)), "{}: one was never executed", what)
                check(len(svc.seen(tok)) == 1, "{}: one was executed {} times", what, len(svc.seen(tok)))
        quiet(conn, "after %d messages" % total)
    finally:
        conn.close()
    return True, ["n>%d" % (total // 500 * 500)]


LONG = st.fixed_dictionaries(dict(
    rounds=gen.mix(st.integers(2, 12), st.sampled_from([60, 110, 210])),
    ids=gen.mix(st.lists(gen.REQID, min_size=1, max_size=20, unique=True),
                st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True),
                st.integers(1, 20).map(lambda n: list(range(n)))),
    shift=st.sampled_from([0, 0, 1, 20, 256]), turn=st.booleans(), hb=st.sampled_from([0, 0, 2, 7]),
    oneway=st.sampled_from([0, 0, 3, 5]), pad=st.sampled_from([0, 0, 3000]),
    timeout=st.sampled_from([-1, 60000, 2 ** 31 - 1])))

ASSUMPTIONS = ["request ids of outstanding requests on one connection are distinct",
               "scheduling inside the event loop and the thread pool is sampled, completion order is controlled"]
FACETS = [
    Facet("pipeline", CASE, run, quick=250, thorough=5000, setup=setup, teardown=teardown, retries=5,
          rule="1-3 connections, up to 8 pipelined requests, heartbeats and oneways each, streams cut and interleaved as "
               "generated, handlers finished in a generated order; non-trivial = at least two messages"),
    Facet("deep", DEEP, run_deep, quick=50, thorough=1500, setup=setup, teardown=teardown, retries=5,
          rule="9-400 outstanding requests on 1-3 connections, up to 100 of them held back while others and heartbeats are "
               "answered; non-trivial = more than 8"),
    Facet("long", LONG, run_long, quick=40, thorough=1500, setup=setup, teardown=teardown, retries=5,
          rule="2-150 rounds of 1-20 messages on one connection, ids reused after their answer; every case counts"),
    Facet("slow", SLOW, run_slow, quick=25, thorough=400, setup=setup, teardown=teardown, retries=5,
          rule="a reader that lets responses pile up next to an active connection; non-trivial = more than 300 kB"),
    Facet("halfclose", EOF, run_eof, quick=80, thorough=1000, setup=setup, teardown=teardown, retries=5,
          rule="end of stream after a generated number of requests and a generated part of another one"),
    Facet("schedules", CASE, run, quick=60, thorough=1500, retries=5, rule="as pipeline, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("schedules, deep", DEEP, run_deep, quick=10, thorough=300, retries=5, rule="as deep, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
] + patience.facets(patience.listener(AioListener, True), "peers and services")
