"""C07: the threaded listener executes each request once and answers truthfully."""
import itertools
import os
import socket
import threading
import time

from anthunder.listener import SockListener
from hypothesis import strategies as st

from .. import gen, net, patience, wire
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import RawConn
from . import c05_dispatch as d
from .c06_resilience import BADHEADER, fds

S = wire.STATUSES
LSN = ADDR = None


def setup():
    global LSN, ADDR
    LSN, ADDR = net.start_listener(SockListener)
    for name, (a, k, fail) in d.SERVICES.items():
        LSN.handler.register_interface(name, d.make(name, fail), *a, **k)
    LSN.handler.register_interface("verbatim", d.Verbatim)
    conn = RawConn(ADDR)
    conn.send(wire.heartbeat(1))
    conn.frame()
    conn.close()
    time.sleep(0.05)


def teardown():
    LSN.shutdown()


REQ = gen.mix(*[d.REQ.map(lambda r: dict(r, kind="req"))] * 5, *[d.CALL.map(lambda r: dict(r, kind="oneway"))] * 2,
              d.ANY.map(lambda r: dict(r, kind="oneway")),
              st.fixed_dictionaries(dict(kind=st.just("hb"), id=gen.REQID)),
              st.fixed_dictionaries(dict(kind=st.just("badheader"), id=gen.REQID, header=BADHEADER, size=st.integers(0, 50))))
CONN = st.fixed_dictionaries(dict(req=REQ, cuts=st.lists(st.integers(0, 120000), max_size=4),
                                  small=st.lists(st.integers(0, 250), max_size=6)))
CASE = st.fixed_dictionaries(dict(conns=st.lists(CONN, min_size=1, max_size=4), turns=st.lists(st.integers(0, 3), max_size=20),
                                  release=st.lists(st.integers(0, 10), max_size=4), gated=st.booleans()))


def prepare(r, gated):
    """:return: dict(frame, model, ...) of one connection"""
    tok = b"t%d" % next(d._tok)
    j = dict(r=r, tok=tok, rid=r["id"], gate=None, body=None)
    if r["kind"] == "hb":
        return dict(j, frame=wire.heartbeat(r["id"]), want="hb", model=None)
    if r["kind"] == "badheader":
        d.PLANS[tok] = dict(out="bytes", bytes=b"executed", gate=None)
        return dict(j, frame=wire.request(r["id"], r["header"], tok + b"|" + b"z" * r["size"]), want="failure",
                    model=(None, None, None, False, False))
    m = d.model(r, r["out"], False)
    if gated and m[4] and r["when"] != "now":
        j["gate"] = threading.Event()
    d.PLANS[tok] = dict(r["out"], gate=j["gate"], bytes=gen.expand(r["out"].get("bytes", b"")))
    body = gen.tagged(tok + b"|", r["body"])
    cls = wire.REQ_CLASS if r["cls"] == "ok" else r["cls"].encode()
    oneway = r["kind"] == "oneway"
    frame = wire.request(r["id"], d.header(r), body, ptype=wire.ONEWAY if oneway else wire.REQUEST, cmdcode=r["cmd"],
                         timeout=r["timeout"], class_name=cls)
    if oneway:
        want = "nothing"
    elif m[0] == {0}:
        want = "success"
    elif 0 in m[0]:
        want = "either"
    elif r["cls"] == "ok" and r["cmd"] == 1 and m[0] == {S["CLIENT_SEND_ERROR"]}:
        want = "client error"
    else:
        want = "failure"
    return dict(j, frame=frame, want=want, model=m, body=body)


def verify(conn, j, labels):
    what = "{} ({})".format(j["r"], j["want"])
    f = conn.frame()
    check(f != "timeout", "neither a response nor the end of the connection: {}", what)
    want = j["want"]
    if f is None:
        check(not conn.buf, "an incomplete response of {} bytes: {}", len(conn.buf), what)
        check(want in ("failure", "either", "nothing"), "connection closed without a response: {}", what)
        labels.add(want + ", no answer")
        return
    check(want != "nothing", "a oneway request was answered with {}: {}", f, what)
    check(f.proto == 1 and f.ver2 == 1 and f.ptype == wire.RESPONSE, "malformed response {}", f)
    check(f.request_id == j["rid"], "response to {} has the id {}", what, f.request_id)
    name = wire.STATUS_NAME.get(f.status, f.status)
    if want == "hb":
        check(f.status == 0 and f.cmdcode == wire.CMD_HEARTBEAT and not f.content, "heartbeat answered with {}", f)
    elif want == "client error":
        check(name == "CLIENT_SEND_ERROR", "{} answered with {}", what, name)
    elif want == "failure":
        check(f.status != 0, "a failure was answered with success: {} -> {}", what, f)
    elif want == "success" or f.status == 0:
        check(f.status == 0, "{} answered with {}", what, name)
        content = j["model"][1]
        check(content is not None, "a failure was answered with success: {} -> {}", what, f)
        check(f.cmdcode == wire.CMD_RESPONSE and f.class_name == wire.RESP_CLASS, "malformed response {}", f)
        check(f.content == content, "{} answered with {!r}... ({} bytes), the service returned {!r}... ({} bytes)",
              what, f.content[:20], len(f.content), content[:20], len(content))
    f = conn.frame(0.03)
    check(f in (None, "timeout") and not conn.buf, "more than one response: {} {}", f, what)
    labels.add(want)


def run(c):
    d.forget()
    jobs, labels = [], set()
    try:
        for k, x in enumerate(c["conns"]):
            j = prepare(x["req"], c["gated"])
            conn = RawConn(ADDR)
            j["conn"] = conn
            n = len(j["frame"])
            cuts = sorted({y % (n + 1) for y in x["cuts"] + x["small"]})
            pos = 0
            j["pieces"] = []
            for y in cuts + [n]:
                if y > pos:
                    j["pieces"].append(j["frame"][pos:y])
                    pos = y
            jobs.append(j)
            if len(j["pieces"]) > 1:
                labels.add("fragmented")
        turns = list(c["turns"])
        while any(j["pieces"] for j in jobs):
            live = [j for j in jobs if j["pieces"]]
            j = live[(turns.pop(0) if turns else 0) % len(live)]
            try:
                j["conn"].send(j["pieces"].pop(0))
            except OSError:
                # a request that is refused need not be read to its end
                check(j["want"] not in ("success", "hb", "client error"), "the connection was closed early: {}", j["r"])
                j["pieces"] = []
            time.sleep(0.0003)
        gated = [j for j in jobs if j["gate"] is not None]
        for j in jobs:
            if j["gate"] is None:
                verify(j["conn"], j, labels)
        for k in c["release"]:
            if gated:
                j = gated.pop(k % len(gated))
                if not j["want"] == "nothing":
                    check(not net.readable_now(j["conn"].s), "answered before the service returned: {}", j["r"])
                j["gate"].set()
                verify(j["conn"], j, labels)
                labels.add("released in order")
        for j in gated:
            j["gate"].set()
        for j in gated:
            verify(j["conn"], j, labels)
        calls = lambda j: [e for e in list(d.LOG) if e[0] == j["tok"]]
        for j in jobs:
            if j["model"] is None:
                continue
            may, must = j["model"][3:]
            if must:
                check(net.wait_until(lambda: calls(j)), "never executed: {}", j["r"])
            got = calls(j)
            check(len(got) <= (1 if may else 0), "{} was executed {} times", j["r"], len(got))
            for e in got:
                d.executed(e, j)
    finally:
        for j in jobs:
            if j["gate"] is not None:
                j["gate"].set()
            j["conn"].close()
    return True, labels


# --------------------------------------------------------------------------------------------- disconnections
SAB = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["req", "req", "req", "oneway", "hb", "junk"]), size=st.sampled_from([0, 1, 300, 70000]),
    result=st.sampled_from([0, 1, 300000, 300000, 6000000]), gated=st.booleans(), junk=st.binary(min_size=1, max_size=60),
    cut=gen.mix(st.just(None), st.integers(0, 260), st.integers(0, 80000)),
    end=st.sampled_from(["close", "reset", "half", "stall"])))
DIS = st.fixed_dictionaries(dict(sabs=st.lists(SAB, min_size=1, max_size=5), wit=st.booleans()))
INF = "com.verif.A:1.0"
HEADER = wire.enc_map(dict(service=INF, sofa_head_method_name="run"))


def good(what, size=20):
    tok = b"t%d" % next(d._tok)
    result = gen.expand(["pat", size, 5])
    d.PLANS[tok] = dict(out="bytes", bytes=result, gate=None)
    conn = RawConn(ADDR)
    try:
        conn.send(wire.request(5, HEADER, tok + b"|"))
        f = conn.frame()
        check(f not in (None, "timeout"), "{}: {}", what, "connection closed" if f is None else "no response")
        check(f.request_id == 5 and f.status == 0 and f.content == result, "{}: answered with {}", what, f)
        n = len([e for e in list(d.LOG) if e[0] == tok])
        check(n == 1, "{}: executed {} times", what, n)
    finally:
        conn.close()


def quiet_threads(base):
    return threading.active_count() <= base


def run_disconnect(c):
    d.forget()
    base_t, base_f = threading.active_count(), fds()
    conns, gates, never, once, labels = [], [], [], [], set()
    try:
        wit = None
        if c["wit"]:
            # a call in progress all the time
            wg = threading.Event()
            gates.append(wg)
            d.PLANS[b"wit"] = dict(out="bytes", bytes=b"w" * 1000, gate=wg)
            wit = RawConn(ADDR)
            conns.append(wit)
            wit.send(wire.request(9, HEADER, b"wit|"))
        for o in c["sabs"]:
            conn = RawConn(ADDR, rcvbuf=4096)
            conns.append(conn)
            tok = b"t%d" % next(d._tok)
            gate = threading.Event() if o["gated"] else None
            if gate:
                gates.append(gate)
            d.PLANS[tok] = dict(out="bytes", bytes=gen.expand(["pat", o["result"], 0]), gate=gate)
            if o["kind"] == "hb":
                b = wire.heartbeat(3)
            elif o["kind"] == "junk":
                b = o["junk"]
            else:
                b = wire.request(3, HEADER, gen.tagged(tok + b"|", ["pat", o["size"], 0]),
                                 ptype=wire.ONEWAY if o["kind"] == "oneway" else wire.REQUEST)
            cut = len(b) if o["cut"] is None else o["cut"] % (len(b) + 1)
            conn.s.settimeout(0.5)
            try:
                conn.send(b[:cut])
            except OSError:
                pass
            (never if cut < len(b) else once).append(tok)
            if cut < len(b):
                labels.add("mid-frame")
            labels.add(o["end"])
            if o["end"] == "close":
                conn.close()
            elif o["end"] == "reset":
                conn.reset()
            elif o["end"] == "half":
                try:
                    conn.s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
            good("a new connection (%s)" % o["end"])
        for g in gates:
            g.set()
        if wit:
            f = wit.frame()
            check(f not in (None, "timeout") and f.request_id == 9 and f.content == b"w" * 1000 and f.status == 0,
                  "a call in progress was disturbed: {}", f)
        for conn in conns:
            conn.close()
        check(net.wait_until(lambda: quiet_threads(base_t)), "{} threads still work for peers that are gone",
              threading.active_count() - base_t)
        check(net.wait_until(lambda: fds() <= base_f), "{} connections of departed peers stay open", fds() - base_f)
        for tok in never:
            check(tok not in [e[0] for e in d.LOG], "a request that did not arrive completely was executed")
        for tok in once:
            check([e[0] for e in d.LOG].count(tok) <= 1, "a request was executed more than once")
    finally:
        for g in gates:
            g.set()
        for conn in conns:
            conn.close()
        net.wait_until(lambda: quiet_threads(base_t), 2)
    return bool(labels - {"stall"}), labels


def run_crowd(c):
    """many peers at once whose request is incomplete or still executed, next to ones that are served"""
    d.forget()
    base_t, base_f = threading.active_count(), fds()
    crowd, gate = [], threading.Event()
    try:
        for k in range(c["n"]):
            conn = RawConn(ADDR)
            tok = b"t%d" % next(d._tok)
            d.PLANS[tok] = dict(out="bytes", bytes=b"R" + tok, gate=gate)
            b = wire.request(k + 1, HEADER, gen.tagged(tok + b"|", ["pat", c["size"], 0]))
            kind = c["kinds"][k % len(c["kinds"])]
            cut = len(b) if kind == "running" else 0 if kind == "idle" else c["cuts"][k % len(c["cuts"])] % len(b)
            crowd.append((conn, tok, b[cut:], kind))
            conn.send(b[:cut])
            if k % c["every"] == 0:
                good("next to %d peers" % (k + 1))
        good("next to %d peers" % c["n"], 70000)
        running = {tok for _, tok, _, kind in crowd if kind == "running"}
        check(net.wait_until(lambda: running <= {e[0] for e in list(d.LOG)}), "of {} requests at once, {} were not executed",
              len(running), len(running - {e[0] for e in list(d.LOG)}))
        gate.set()
        for k, (conn, tok, rest, kind) in enumerate(crowd):
            if kind == "running" or k % 3:
                conn.send(rest)
                f = conn.frame()
                check(f not in (None, "timeout") and f.request_id == k + 1 and f.status == 0 and f.content == b"R" + tok,
                      "one of {} peers at once got {}", c["n"], f)
        for k, (conn, tok, rest, kind) in enumerate(crowd):
            conn.close()
            n = [e[0] for e in list(d.LOG)].count(tok)
            check(n == (1 if kind == "running" or k % 3 else 0), "executed {} times", n)
        good("after the others left")
        check(net.wait_until(lambda: quiet_threads(base_t)), "{} threads still work for peers that are gone",
              threading.active_count() - base_t)
        check(net.wait_until(lambda: fds() <= base_f), "{} connections of departed peers stay open", fds() - base_f)
    finally:
        gate.set()
        for conn, _, _, _ in crowd:
            conn.close()
        net.wait_until(lambda: quiet_threads(base_t), 2)
    return True, ["n>=%d" % (c["n"] // 50 * 50)]


CROWD = st.fixed_dictionaries(dict(
    n=st.sampled_from([20, 33, 70, 110, 150]), kinds=st.lists(st.sampled_from(["running", "stall", "stall", "idle"]), min_size=1,
                                                          max_size=4),
    size=st.sampled_from([0, 30, 5000]), cuts=st.lists(st.integers(0, 6000), min_size=1, max_size=5),
    every=st.sampled_from([1, 7, 1000])))
ASSUMPTIONS = ["threads and sockets of departed peers are counted for the whole process, which runs nothing else"]
FACETS = [
    Facet("requests", CASE, run, quick=400, thorough=8000, setup=setup, teardown=teardown, retries=3,
          rule="1-4 connections with one generated request each (as C05, and oneway, heartbeat, undecodable header), "
               "fragments interleaved, handlers finishing in a generated order; every case counts"),
    Facet("disconnect", DIS, run_disconnect, quick=150, thorough=3000, setup=setup, teardown=teardown, retries=3,
          rule="peers that send part or all of a request and close, reset, half-close or stall, next to calls in progress "
               "and new ones; non-trivial = somebody disconnects"),
    Facet("crowd", CROWD, run_crowd, quick=12, thorough=200, setup=setup, teardown=teardown, retries=3,
          rule="20-150 peers at once with incomplete or running requests, next to ones that are served; every case counts"),
    Facet("verbatim", d.VERBATIM, lambda c: d.verbatim(c, ADDR, True), quick=80, thorough=1500, setup=setup, teardown=teardown, retries=3,
          rule="1-8 requests and oneway requests whose bodies are nothing but generated bytes (empty, few, special ones); "
               "non-trivial = a body of less than ten bytes"),
    Facet("schedules", CASE, run, quick=80, thorough=1500, retries=5, rule="as requests, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("schedules, disconnect", DIS, run_disconnect, quick=40, thorough=800, retries=5, rule="as disconnect, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
] + patience.facets(patience.listener(SockListener, False), "peers and services")
