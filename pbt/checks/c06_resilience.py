"""C06: malformed requests and lost connections harm nobody else (asyncio listener)."""
import itertools
import os
import socket
import threading
import time

from anthunder.listener import AioListener
from hypothesis import strategies as st

from .. import gen, net, wire
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import RawConn, Service, service_class

svc = Service()
LSN = ADDR = None
INF = "com.verif.c06:1.0"
_tok = itertools.count()
_rid = itertools.cycle(range(1, 2 ** 30))
HEADER = wire.enc_map(dict(service=INF, sofa_head_target_service=INF, sofa_head_method_name="run"))


def setup():
    global LSN, ADDR
    LSN, ADDR = net.start_listener(AioListener)
    LSN.handler.register_interface(INF, service_class(svc))
    conn = RawConn(ADDR)
    conn.ping(1)
    conn.close()


def teardown():
    LSN.shutdown()


def malformed(b):
    try:
        wire.dec_map(b)
    except wire.Bad:
        return True
    return False


# header maps that cannot be decoded
def _mangle(t):
    kind, k, junk = t
    b = HEADER
    if kind == "cut":
        return b[:1 + k % (len(b) - 1)]
    if kind == "utf8":
        n = 4 + k % 7
        return b[:n] + b"\xff" + b[n + 1:]
    if kind == "odd":
        return b + wire.enc_str("x" * (k % 5))
    if kind == "neg":
        return b + wire.i(4, -2 - k) + junk
    if kind == "long":
        return b + wire.i(4, len(junk) + 1 + k % 1000) + junk
    if kind == "huge":
        return wire.i(4, 2 ** 31 - 1 - k) + junk
    return junk


BADHEADER = st.tuples(st.sampled_from(["cut", "utf8", "odd", "neg", "long", "huge", "junk"]), st.integers(0, 2000),
                      st.binary(max_size=12)).map(_mangle).filter(malformed)
MSG = gen.mix(
    *[st.fixed_dictionaries(dict(kind=st.just("req"), size=st.sampled_from([0, 1, 300, 70000]),
                                 result=st.sampled_from([0, 1, 300, 70000])))] * 3,
    *[st.fixed_dictionaries(dict(kind=st.just("bad"), header=BADHEADER, size=st.sampled_from([0, 0, 1, 22, 5000]),
                                 cmd=st.sampled_from([1, 1, 1, 0, 2]), cls=st.sampled_from(["ok", "ok", "ok", "", "z"]),
                                 ptype=st.sampled_from([1, 1, 1, 1, 2])))] * 3,
    st.fixed_dictionaries(dict(kind=st.just("hb"))))
MAL = st.fixed_dictionaries(dict(msgs=st.lists(MSG, min_size=1, max_size=8), cuts=st.lists(st.integers(0, 90000), max_size=6),
                                 ends=st.lists(st.integers(-2, 2), max_size=4), follow=st.booleans()))


SMALL = gen.mix(st.fixed_dictionaries(dict(kind=st.just("req"), size=st.sampled_from([0, 1, 300]), result=st.sampled_from([0, 1, 300]))),
                st.fixed_dictionaries(dict(kind=st.just("bad"), header=BADHEADER, size=st.sampled_from([0, 1, 22]), cmd=st.just(1),
                                           cls=st.just("ok"), ptype=st.just(1))),
                st.fixed_dictionaries(dict(kind=st.just("hb"))))
MANYMAL = st.fixed_dictionaries(dict(msgs=st.lists(SMALL, min_size=1, max_size=3), bad=BADHEADER, times=st.sampled_from([12, 35, 120, 300]),
                                     cuts=st.lists(st.integers(0, 90000), max_size=6), ends=st.lists(st.integers(-2, 2), max_size=4),
                                     follow=st.booleans()))


def run_many(c):
    bad = dict(kind="bad", header=c["bad"], size=0, cmd=1, cls="ok", ptype=1)
    _, labels = run_malformed(dict(c, msgs=(c["msgs"] + [bad]) * c["times"]))
    return True, set(labels) | {"times=%d" % c["times"]}


def request(rid, size, result):
    tok = b"t%d" % next(_tok)
    svc.plan(tok, result=result)
    return tok, wire.request(rid, HEADER, gen.tagged(tok + b"|", ["pat", size, rid % 200]))


def run_malformed(c):
    svc.forget()
    conn = RawConn(ADDR)
    stream, ends = b"", []
    want, toks = {}, []
    labels = set()
    try:
        for m in c["msgs"]:
            rid = next(_rid)
            if m["kind"] == "hb":
                stream += wire.heartbeat(rid)
                want[rid] = ("hb", b"")
            elif m["kind"] == "req":
                result = gen.expand(["pat", m["result"], rid % 200])
                tok, b = request(rid, m["size"], result)
                stream += b
                toks.append((tok, 1))
                want[rid] = ("ok", result)
            else:
                tok = b"t%d" % next(_tok)
                svc.plan(tok, result=b"executed")
                stream += wire.request(rid, m["header"], gen.tagged(tok + b"|", ["pat", m["size"], 0]), cmdcode=m["cmd"],
                                       class_name=wire.REQ_CLASS if m["cls"] == "ok" else m["cls"].encode(),
                                       ptype=m["ptype"])
                toks.append((tok, 0))
                if m["ptype"] == wire.REQUEST:
                    want[rid] = ("codec" if (m["cmd"], m["cls"]) == (1, "ok") else "fail", b"")
                labels.add("bad")
            ends.append(len(stream))
        cuts = sorted({x % (len(stream) + 1) for x in c["cuts"]} |
                      {max(0, ends[k % len(ends)] + d) for k, d in enumerate(c["ends"])})
        pos = 0
        for x in cuts + [len(stream)]:
            if x > pos:
                conn.send(stream[pos:x])
                pos = x
                time.sleep(0.0003)

        def take():
            while want:
                f = conn.frame()
                check(f is not None, "the connection was closed; without answer: {}", want)
                check(f != "timeout", "requests without answer: {}", want)
                check(f.request_id in want, "unexpected response {}", f)
                kind, content = want.pop(f.request_id)
                name = wire.STATUS_NAME.get(f.status, f.status)
                if kind in ("ok", "hb"):
                    check(f.status == 0 and f.content == content, "a good request was answered with {} {!r}... ({} bytes)",
                          name, f.content[:20], len(f.content))
                    check(f.cmdcode == (0 if kind == "hb" else 2), "wrong kind of answer {}", f)
                elif kind == "codec":
                    check(name == "CODEC_EXCEPTION", "a request with an undecodable header was answered with {}", name)
                else:
                    check(f.status != 0 or f.cmdcode == 0, "a malformed request was answered with success: {}", f)
        take()
        if c["follow"]:
            # one more after everything was answered
            rid = next(_rid)
            tok, b = request(rid, 5, b"later")
            want[rid] = ("ok", b"later")
            conn.send(b)
            take()
            toks.append((tok, 1))
        extra = conn.ping(next(_rid))
        check(not extra, "unexpected response {}", extra)
        for tok, n in toks:
            check(len(svc.seen(tok)) == n, "a request was executed {} times, want {}", len(svc.seen(tok)), n)
    finally:
        conn.close()
    return "bad" in labels, labels


# --------------------------------------------------------------------------------------------- saboteurs
ITEM = gen.mix(
    *[st.fixed_dictionaries(dict(kind=st.just("req"), size=st.sampled_from([0, 1, 300, 70000]),
                                 result=st.sampled_from([0, 1, 70000, 300000]), gated=st.booleans()))] * 3,
    st.fixed_dictionaries(dict(kind=st.just("bad"), header=BADHEADER)),
    st.fixed_dictionaries(dict(kind=st.just("junk"), b=gen.mix(
        st.binary(min_size=1, max_size=60), st.sampled_from([b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"\x00" * 22,
                                                             b"\xff" * 40, b"\x16\x03\x01" + b"a" * 30])))),
    st.fixed_dictionaries(dict(kind=st.just("field"), at=st.sampled_from([0, 1, 2, 3, 4, 9, 14, 15, 16, 17, 18, 19]),
                               v=st.sampled_from([0, 2, 3, 12, 127, 128, 255]))),
    st.just(dict(kind="hb")))
SAB = st.fixed_dictionaries(dict(
    op=st.just("sab"), items=st.lists(ITEM, max_size=4), cut=gen.mix(st.just(None), st.integers(0, 500), st.integers(0, 80000)),
    back=st.sampled_from([0, 0, 1, 2, 22]), end=st.sampled_from(["close", "reset", "half", "stall", "read close"]),
    pause=st.booleans()))
OPS = st.lists(gen.mix(SAB, SAB, st.fixed_dictionaries(dict(op=st.just("wit"), i=st.integers(0, 2), n=st.integers(1, 3),
                                                            size=st.sampled_from([0, 100, 70000])))),
               min_size=1, max_size=6)
DIS = st.fixed_dictionaries(dict(witnesses=st.integers(1, 2), ops=OPS))


def fds():
    return len(os.listdir("/proc/self/fd"))



def good(conn, n, size, what):
    """n pipelined calls on a well-behaved connection"""
    want = {}
    for _ in range(n):
        rid = next(_rid)
        result = gen.expand(["pat", size, rid % 200])
        tok, b = request(rid, size, result)
        want[rid] = (tok, result)
        try:
            conn.send(b)
        except OSError as e:
            raise Violation("{}: connection lost: {!r}".format(what, e))
    toks = [t for t, _ in want.values()]
    while want:
        f = conn.frame()
        check(f is not None and f != "timeout", "{}: {}", what, "connection closed" if f is None else "no response")
        check(f.request_id in want, "{}: unexpected response {}", what, f)
        _, result = want.pop(f.request_id)
        check(f.status == 0 and f.content == result, "{}: answered with status {} and {} bytes, want {} bytes", what,
              f.status, len(f.content), len(result))
    for t in toks:
        check(len(svc.seen(t)) == 1, "{}: executed {} times", what, len(svc.seen(t)))


def run_disconnect(c):
    svc.forget()
    base = fds()
    gates, conns, stalled, never, once = [], [], [], [], []
    labels = set()
    try:
        wits = [RawConn(ADDR) for _ in range(c["witnesses"])]
        conns += wits
        for k, w in enumerate(wits):
            good(w, 1, 3, "witness %d" % k)
        for o in c["ops"]:
            if o["op"] == "wit":
                good(wits[o["i"] % len(wits)], o["n"], o["size"], "witness")
                continue
            sab = RawConn(ADDR, rcvbuf=4096)
            conns.append(sab)
            stream, marks = b"", []
            clean = True
            for it in o["items"]:
                rid = next(_rid)
                if it["kind"] == "req" or it["kind"] == "field":
                    tok = b"t%d" % next(_tok)
                    gate = None
                    if it.get("gated") and len(gates) < 12:
                        gate = threading.Event()
                        gates.append(gate)
                    svc.plan(tok, result=gen.expand(["pat", it.get("result", 1), 0]), gate=gate)
                    b = wire.request(rid, HEADER, gen.tagged(tok + b"|", ["pat", it.get("size", 1), 0]))
                    if it["kind"] == "field":
                        b = b[:it["at"]] + bytes([it["v"]]) + b[it["at"] + 1:]
                        clean = False
                    stream += b
                    marks.append((tok, len(stream), clean))
                elif it["kind"] == "bad":
                    stream += wire.request(rid, it["header"], b"x")
                elif it["kind"] == "hb":
                    stream += wire.heartbeat(rid)
                else:
                    stream += it["b"]
                    clean = False
            cut = len(stream)
            if o["cut"] is not None and stream:
                cut = o["cut"] % (len(stream) + 1)
            cut = max(0, cut - o["back"]) if o["cut"] is None else cut
            sab.s.settimeout(0.5)
            try:
                if o["pause"] and cut > 1:
                    sab.send(stream[:cut // 2])
                    time.sleep(0.001)
                    sab.send(stream[cut // 2:cut])
                else:
                    sab.send(stream[:cut])
            except OSError:
                pass
            for tok, end, ok in marks:
                (never if ok and end > cut else once).append(tok)
            if cut < len(stream):
                labels.add("mid-frame")
            labels.add(o["end"])
            if not clean:
                labels.add("garbage")
            if o["end"] == "close":
                sab.close()
            elif o["end"] == "reset":
                sab.reset()
            elif o["end"] == "half":
                try:
                    sab.s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                stalled.append(sab)
            elif o["end"] == "read close":
                if net.readable_now(sab.s, 0.005):
                    try:
                        sab.s.recv(100)
                    except OSError:
                        pass
                sab.close()
            else:
                stalled.append(sab)
            good(wits[0], 1, 20, "a connection open since before (%s)" % o["end"])
            new = RawConn(ADDR)
            conns.append(new)
            good(new, 1, 20, "a new connection (%s)" % o["end"])
            new.close()
        for g in gates:
            g.set()
        for w in wits:
            good(w, 2, 100, "a witness at the end")
        for s in stalled:
            s.close()
        for w in wits:
            good(w, 1, 100, "a witness at the end")
        for x in conns:
            x.close()
        check(net.wait_until(lambda: fds() <= base), "the server keeps {} connections of departed peers open",
              fds() - base)
        for tok in never:
            check(not svc.seen(tok), "a request that did not arrive completely was executed")
        for tok in once:
            check(len(svc.seen(tok)) <= 1, "a request was executed {} times", len(svc.seen(tok)))
    finally:
        for g in gates:
            g.set()
        for x in conns:
            x.close()
        net.wait_until(lambda: fds() <= base, 2)
    return bool(labels), labels


def run_every(c):
    """disconnection at one offset after another of one stream"""
    svc.forget()
    wit = RawConn(ADDR)
    try:
        stream, marks = b"", []
        for k in range(c["n"]):
            tok, b = request(next(_rid), c["size"], b"r" * c["size"])
            stream += b
            marks.append((tok, len(stream)))
        off = c["start"] % len(stream)
        hits = 0
        while off <= len(stream):
            conn = RawConn(ADDR)
            conn.send(stream[:off])
            if c["reset"]:
                conn.reset()
            else:
                conn.close()
            hits += 1
            if hits % 4 == 0:
                good(wit, 1, 5, "witness")
            off += c["step"]
        good(wit, 2, 5, "witness")
        new = RawConn(ADDR)
        good(new, 1, 5, "a new connection")
        new.close()
        for tok, end in marks:
            check(len(svc.seen(tok)) <= hits, "executed {} times", len(svc.seen(tok)))
    finally:
        wit.close()
    return True, ["reset" if c["reset"] else "close", "%d offsets" % (hits // 10 * 10)]


EVERY = st.fixed_dictionaries(dict(n=st.integers(1, 3), size=st.sampled_from([0, 1, 30]), start=st.integers(0, 60),
                                   step=st.sampled_from([1, 2, 3, 7, 22]), reset=st.booleans()))
def run_crowd(c):
    """many peers at once that stall within a frame, idle, or sent something malformed, next to well-behaved ones"""
    svc.forget()
    base = fds()
    crowd, labels = [], ["n>=%d" % (c["n"] // 50 * 50)]
    wit = RawConn(ADDR)
    try:
        good(wit, 1, 5, "a connection before the others")
        for k in range(c["n"]):
            kind = c["kinds"][k % len(c["kinds"])]
            conn = RawConn(ADDR)
            crowd.append((conn, kind, None))
            if kind == "bad":
                rid = next(_rid)
                conn.send(wire.request(rid, c["bad"], b"x"))
                if k % 3 == 0:
                    f = conn.frame()
                    check(f not in (None, "timeout") and f.request_id == rid and
                          wire.STATUS_NAME.get(f.status) == "CODEC_EXCEPTION",
                          "a request with an undecodable header (peer {}) was answered with {}", k, f)
            elif kind == "hb":
                conn.send(wire.heartbeat(k))
            elif kind == "stall":
                rid = next(_rid)
                tok, b = request(rid, c["size"], b"r%d" % rid)
                cut = c["cuts"][k % len(c["cuts"])] % len(b)
                conn.send(b[:cut])
                crowd[-1] = (conn, kind, (rid, tok, b[cut:]))
            if k % c["every"] == 0:
                good(wit, 1, 5, "next to %d peers" % k)
        good(wit, 2, 3000, "next to %d peers" % c["n"])
        new = RawConn(ADDR)
        good(new, 2, 10, "a new connection next to %d peers" % c["n"])
        new.close()
        # those that stalled go on, or leave
        for k, (conn, kind, rest) in enumerate(crowd):
            if kind == "stall" and (k % 3 or not c["leave"]):
                rid, tok, b = rest
                conn.send(b)
                f = conn.frame()
                check(f not in (None, "timeout") and f.request_id == rid and f.status == 0 and f.content == b"r%d" % rid,
                      "one of {} peers went on after a pause and got {}", c["n"], f)
                check(len(svc.seen(tok)) == 1, "executed {} times", len(svc.seen(tok)))
            elif kind != "stall" and k % 2:
                f = conn.ping(next(_rid))
            else:
                conn.close() if k % 2 else conn.reset()
                if rest:
                    check(not svc.seen(rest[1]), "a request that did not arrive completely was executed")
        good(wit, 1, 5, "after the others left")
    finally:
        for conn, _, _ in crowd:
            conn.close()
        wit.close()
    check(net.wait_until(lambda: fds() <= base), "{} connections of departed peers stay open", fds() - base)
    return True, labels


CROWD = st.fixed_dictionaries(dict(
    n=st.sampled_from([20, 33, 70, 110, 200]), bad=BADHEADER, leave=st.booleans(),
    kinds=st.lists(st.sampled_from(["stall", "stall", "idle", "hb", "bad", "bad"]), min_size=1, max_size=4),
    size=st.sampled_from([0, 30, 5000]), cuts=st.lists(st.integers(0, 6000), min_size=1, max_size=5),
    every=st.sampled_from([1, 7, 1000])))
# more than the socket buffers of both sides take: the listener has to wait for the peer
LOTS = gen.mix(st.lists(st.sampled_from([1000000, 3000000]), min_size=5, max_size=8),
               st.lists(st.sampled_from([10, 3000000]), min_size=5, max_size=10),
               st.lists(st.sampled_from([0, 100000, 1000000]), min_size=1, max_size=12))
UNREAD = st.fixed_dictionaries(dict(
    peers=st.lists(st.fixed_dictionaries(dict(sizes=LOTS, hb=st.integers(0, 3), bad=st.integers(0, 2),
                                              end=st.sampled_from(["close", "reset", "half", "read"]))),
                   min_size=1, max_size=3),
    calls=st.lists(st.tuples(st.integers(1, 8), st.sampled_from([0, 100, 70000])).map(list), min_size=1, max_size=3)))


def run_unread(c):
    """peers that do not read what they asked for, next to connections that are served"""
    svc.forget()
    base = fds()
    conns, toks = [], []
    try:
        old = RawConn(ADDR)
        conns.append(old)
        good(old, 1, 3, "the first connection")
        peers = []
        for o in c["peers"]:
            conn = RawConn(ADDR, rcvbuf=4096)
            conns.append(conn)
            want = {}
            for k, n in enumerate(o["sizes"]):
                tok = b"t%d" % next(_tok)
                want[k + 1] = result = gen.expand(["pat", n, k])
                svc.plan(tok, result=result)
                toks.append(tok)
                conn.send(wire.request(k + 1, HEADER, tok + b"|u"))
            for k in range(o["hb"]):
                want[1000 + k] = b""
                conn.send(wire.heartbeat(1000 + k))
            for k in range(o["bad"]):
                want[2000 + k] = None
                conn.send(wire.request(2000 + k, b"\x00\x00\x00\x05x", b"b"))
            peers.append((conn, want, o["end"]))
            net.wait_until(lambda: all(svc.seen(t) for t in toks))
            time.sleep(0.005)
            for n, size in c["calls"]:
                good(old, n, size, "a connection open since before, next to a peer that does not read")
            new = RawConn(ADDR)
            conns.append(new)
            good(new, 1, 70000, "a new connection, next to a peer that does not read")
            new.close()
        for conn, want, end in peers:
            if end == "read":
                while want:
                    f = conn.frame()
                    check(f not in (None, "timeout") and f.request_id in want, "the peer that reads late got {}", f)
                    w = want.pop(f.request_id)
                    check((f.status != 0) if w is None else (f.status == 0 and f.content == w),
                          "the peer that reads late got {}, want {} bytes", f, w if w is None else len(w))
                conn.close()
            elif end == "reset":
                conn.reset()
            elif end == "half":
                conn.s.shutdown(socket.SHUT_WR)
            else:
                conn.close()
            good(old, 2, 100, "after a peer that did not read (%s)" % end)
        for x in conns:
            x.close()
        check(net.wait_until(lambda: fds() <= base), "the server keeps {} connections of departed peers open", fds() - base)
        for t in toks:
            check(len(svc.seen(t)) <= 1, "executed {} times", len(svc.seen(t)))
    finally:
        for x in conns:
            x.close()
        net.wait_until(lambda: fds() <= base, 2)
    most = max(sum(o["sizes"]) for o in c["peers"])
    return most > 8000000, [o["end"] for o in c["peers"]] + ["%dM" % (most // 4000000 * 4)]


ASSUMPTIONS = ["sockets of departed peers are counted through /proc/self/fd"]
FACETS = [
    Facet("malformed", MAL, run_malformed, quick=400, thorough=8000, setup=setup, teardown=teardown, retries=3,
          rule="up to 8 pipelined messages, undecodable header maps among good requests and heartbeats, any segmentation; "
               "non-trivial = at least one undecodable header"),
    Facet("many malformed", MANYMAL, run_many, quick=15, thorough=200, setup=setup, teardown=teardown, retries=3,
          rule="as malformed, with 12-300 undecodable header maps on one connection; every case counts"),
    Facet("disconnect", DIS, run_disconnect, quick=200, thorough=4000, setup=setup, teardown=teardown, retries=3,
          rule="peers that send cut streams, garbage, mangled fields, large requests, then close, reset, half-close or "
               "stall, between calls of well-behaved connections; non-trivial = at least one such peer"),
    Facet("crowd", CROWD, run_crowd, quick=15, thorough=300, setup=setup, teardown=teardown, retries=3,
          rule="20-200 peers at once that stall within a frame, idle or sent undecodable headers; every case counts"),
    Facet("offsets", EVERY, run_every, quick=25, thorough=300, setup=setup, teardown=teardown, retries=3,
          rule="disconnection at every step-th offset of a stream of requests"),
    Facet("schedules", MAL, run_malformed, quick=60, thorough=1500, retries=5, rule="as malformed, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("schedules, disconnect", DIS, run_disconnect, quick=40, thorough=800, retries=5, rule="as disconnect, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("unread", UNREAD, run_unread, quick=25, thorough=400, setup=setup, teardown=teardown, retries=3,
          rule="1-3 peers that ask for megabytes and do not read them, next to others that are served; non-trivial = more than 8 MB"),
]
