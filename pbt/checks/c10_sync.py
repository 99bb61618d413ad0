"""C10: synchronous client: a call returns its own complete response or raises."""
import socket
import threading
import time

from anthunder import Client, SERVICE_MAP
from hypothesis import strategies as st

from .. import gen, net, patience, wire
from ..clients import EXTRA, METHOD, TRACE, Call, check_frame, context, make_client, new_token, token_of
from ..core import Facet, Violation, check
from ..net import WAIT, FakeServer, PeerGone
from .c06_resilience import BADHEADER
from .c09_failures import ERRORS

CLIENT = None
MARGIN = 8.0        # seconds a call may take over its limit and the grace of one second


def setup():
    global CLIENT
    CLIENT = make_client(Client)


def teardown():
    pass


SIZES = [0, 1, 2, 255, 256, 65535, 65536, 300000, 2000000]
BODIES = SIZES + [8000000]     # larger than what the buffers of a socket hold
OK = st.fixed_dictionaries(dict(fate=st.just("ok"), cuts=st.lists(st.integers(0, 2000000), max_size=5),
                                small=st.lists(st.integers(0, 120), max_size=8), pause=st.booleans(),
                                dup=st.booleans()))
FAULT = st.one_of(
    st.fixed_dictionaries(dict(fate=st.just("error"), status=st.sampled_from(ERRORS), content=st.binary(max_size=9))),
    st.fixed_dictionaries(dict(fate=st.just("foreign"), delta=st.one_of(st.sampled_from([1, -1]), st.integers(0, 30).map(lambda k: 2 ** k)))),
    st.fixed_dictionaries(dict(fate=st.just("bad header"), header=BADHEADER)),
    st.fixed_dictionaries(dict(fate=st.just("bad field"), field=st.sampled_from(
        ["status", "cmdcode", "codec", "ptype", "ver2", "proto"]), v=st.sampled_from([3, 14, 99, -1, 100]))),
    st.fixed_dictionaries(dict(fate=st.just("eof"), at=st.integers(0, 400), how=st.sampled_from(["fin", "reset"]))),
    st.fixed_dictionaries(dict(fate=st.just("eof"), at=st.integers(0, 22), how=st.sampled_from(["fin", "reset"]))),
    st.fixed_dictionaries(dict(fate=st.just("no read"), how=st.sampled_from(["fin", "reset"]))))
STALL = st.one_of(
    st.fixed_dictionaries(dict(fate=st.just("stall"), at=gen.mix(st.just(0), st.integers(0, 30), st.integers(0, 400)),
                               limit=st.sampled_from([1, 50, 200, 0.5, 99.5, 6000]))),
    st.fixed_dictionaries(dict(fate=st.just("dribble"), limit=st.sampled_from([1, 50, 200]))),
    st.fixed_dictionaries(dict(fate=st.just("deaf"), limit=st.sampled_from([1, 50, 6000]))),
    st.fixed_dictionaries(dict(fate=st.just("slow ear"), limit=st.just(1500))))
BASE = st.fixed_dictionaries(dict(trace=TRACE, method=METHOD, app=gen.TEXT, uid=gen.TEXT, extra=st.just([]),
                                  body=gen.payload(BODIES, 20), result=gen.payload(SIZES, 20),
                                  timeout=st.sampled_from([20000, 30000.5, 600000])))


def call(*fates):
    return st.tuples(BASE, gen.mix(*fates)).map(lambda t: dict(t[0], **t[1]))


CASE = st.fixed_dictionaries(dict(calls=st.lists(call(OK, OK, FAULT), min_size=1, max_size=5), after=st.integers(1, 2)))
SLOW = st.fixed_dictionaries(dict(calls=st.lists(call(STALL, STALL, STALL, FAULT, OK), min_size=4, max_size=12),
                                  after=st.just(1)))


class Job:
    def __init__(self, c):
        self.c = c
        self.tok = new_token()
        self.server = None
        self.frames = []
        self.stop = threading.Event()
        self.body = gen.tagged(self.tok + b"|", c["body"])
        if c["fate"] in ("deaf", "slow ear"):
            self.body = b"d" * 40000000
        self.want = gen.tagged(b"r", c["result"]) if c["result"] != b"" else b""
        self.limit = c.get("limit", c["timeout"])
        rcvbuf = dict(deaf=4096, **{"slow ear": 65536}).get(c["fate"])
        self.server = FakeServer(self.script, rcvbuf=rcvbuf)
        self.inf = "com.verif.c10." + self.tok.decode()
        SERVICE_MAP[self.inf] = tuple(self.server.addr)
        self.ctx = context(c["trace"])
        self.call = None
        self.t0 = None

    def start(self):
        self.t0 = time.monotonic()
        self.call = Call(lambda: CLIENT.invoke_sync(
            self.inf, self.c["method"], self.body, spanctx=self.ctx, target_app=self.c["app"], uid=self.c["uid"],
            timeout_ms=self.limit))

    def script(self, conn):
        c, fate = self.c, self.c["fate"]
        if fate == "no read":
            if c["how"] == "reset":
                conn.reset(False)
            else:
                conn.close()
            return
        if fate == "deaf":
            self.stop.wait(60)
            return
        if fate == "slow ear":
            conn.s.setblocking(True)
            while not self.stop.is_set():
                if not conn.s.recv(16384):     # fast enough for progress within the limit, too slow for the whole
                    return
                time.sleep(0.01)
            return
        f = conn.request(60)
        if f is None:
            return
        self.frames.append(f)
        rid = f.request_id
        b = wire.response(rid, content=self.want)
        if fate == "ok":
            if c["dup"]:
                # more than the response: it is not part of the content
                b += wire.response(rid, content=b"again")[:30]
            conn.send_pieces(b, c["cuts"] + c["small"], 0.0005 if c["pause"] else 0)
        elif fate == "error":
            conn.send(wire.response(rid, content=c["content"], status=wire.STATUSES[c["status"]]))
        elif fate == "foreign":
            conn.send(wire.response((rid + c["delta"] + 2 ** 31) % 2 ** 32 - 2 ** 31, content=self.want))
        elif fate == "bad header":
            conn.send(wire.response(rid, header=c["header"], content=self.want))
        elif fate == "bad field":
            conn.send(wire.response(rid, content=self.want, **{c["field"]: c["v"]}))
        elif fate == "eof":
            conn.send(b[:c["at"] % len(b)])
            if c["how"] == "reset":
                conn.reset(False)
            else:
                conn.close()
            return
        elif fate == "stall":
            conn.send(b[:c["at"] % len(b)])
        elif fate == "dribble":
            b = wire.response(rid, content=b"w" * 100000)
            for k in range(len(b)):
                if self.stop.wait(0.01):
                    return
                conn.send(b[k:k + 1])
        self.stop.wait(60)

    def verify(self):
        c, fate = self.c, self.c["fate"]
        what = "a call ({})".format({k: v for k, v in c.items() if k in ("fate", "status", "field", "v", "at", "how", "delta", "limit")})
        stalls = fate in ("stall", "dribble", "deaf", "slow ear")
        r, v = self.call.result(self.limit / 1000.0 + 1 + MARGIN if stalls else WAIT)
        if r == "hang":
            raise Violation("{} blocks past its time limit".format(what) if stalls else "{} does not end".format(what))
        if fate == "ok":
            check(r == "ok", "{} raised {!r}", what, v)
            check(type(v) is bytes and v == self.want, "{} returned {!r}... ({} bytes), the response carries {!r}... ({} bytes)",
                  what, v[:20], len(v), self.want[:20], len(self.want))
        else:
            check(r == "raise", "{} returned {!r}... although it failed", what, v)
            check(isinstance(v, Exception), "{} raised {!r}", what, v)
            if fate == "error":
                check(c["status"] in str(v), "{} raised {!r}, which does not name the status", what, v)
            if fate == "stall":
                check(isinstance(v, TimeoutError), "{} raised {!r} instead of a time-out", what, v)
                check(self.call.dt > self.limit / 1000.0 * 0.9 - 0.005, "{} timed out after {:.3f} s", what, self.call.dt)
        if self.frames:
            check(len(self.frames) == 1, "a call was sent {} times", len(self.frames))
            check_frame(self.frames[0], self.ctx, self.inf, c, self.body, timeout=self.limit)
        for e in self.server.errors:
            if isinstance(e, Violation):
                raise e

    def close(self):
        self.stop.set()
        self.server.close()
        SERVICE_MAP.pop(self.inf, None)


def run(c):
    jobs, labels = [], set()
    try:
        jobs = [Job(x) for x in c["calls"]]
        for j in jobs:
            j.start()
        for j in jobs:
            j.verify()
            labels.add(j.c["fate"])
        # later calls, to the same servers and to others
        for k in range(c["after"]):
            j = Job(dict(fate="ok", cuts=[], small=[5], pause=False, dup=False, trace=None, method="m", app="", uid="",
                         extra=[], body=b"b", result=b"later", timeout=20000))
            jobs.append(j)
            j.start()
            j.verify()
    finally:
        for j in jobs:
            j.close()
    return True, labels


# ---------------------------------------------------------------------------------- several calls to one address
ONE = st.fixed_dictionaries(dict(calls=st.lists(st.fixed_dictionaries(dict(
    fate=st.sampled_from(["ok", "ok", "ok", "error", "eof", "stale", "foreign", "short"]), n=st.integers(1, 3),
    size=st.sampled_from([0, 10, 70000]))), min_size=2, max_size=6)))


def run_one(c):
    """a history of calls, one after the other and concurrently, to one address"""
    plan = {}

    def script(conn):
        while True:
            f = conn.request(60)
            if f is None:
                return
            fate, want = plan.get(token_of(f.content), ("ok", b"?"))
            b = wire.response(f.request_id, content=want)
            if fate == "ok":
                conn.send(b)
            elif fate == "stale":
                # a second response, which must not become the answer to a later call
                conn.send(b + wire.response(f.request_id, content=b"stale"))
            elif fate == "foreign":
                conn.send(wire.response(f.request_id ^ 1, content=want))
            elif fate == "error":
                conn.send(wire.response(f.request_id, content=want, status=3))
            elif fate == "short":
                conn.send(b[:-1])
                conn.close()
                return
            else:
                conn.close()
                return

    server = FakeServer(script)
    inf = "com.verif.c10one." + new_token().decode()
    SERVICE_MAP[inf] = tuple(server.addr)
    labels = set()
    try:
        for x in c["calls"] + [dict(fate="ok", n=1, size=10)]:
            cs = []
            for k in range(x["n"]):
                tok = new_token()
                want = gen.tagged(tok, ["pat", x["size"], k])
                plan[tok] = (x["fate"], want)
                body = tok + b"|x"
                cs.append((want, Call(lambda body=body: CLIENT.invoke_sync(inf, "m", body, spanctx=context(None), timeout_ms=20000))))
            labels.add(x["fate"])
            for want, call in cs:
                r, v = call.result()
                check(r != "hang", "a call ({}) does not end", x["fate"])
                if x["fate"] in ("ok", "stale"):
                    check(r == "ok", "a call ({}) raised {!r}", x["fate"], v)
                    check(v == want, "a call got {!r}..., its response carries {!r}...", v[:20], want[:20])
                else:
                    check(r == "raise", "a call ({}) returned {!r}...", x["fate"], repr(v)[:60])
        server.raise_errors()
    finally:
        server.close()
        SERVICE_MAP.pop(inf, None)
    return len(c["calls"]) > 1, labels


def run_bad(c):
    """requests that cannot be sent"""
    inf = "com.verif.c10bad." + new_token().decode()
    accepted = []

    def script(conn):
        accepted.append(conn)
        while True:
            f = conn.request(60)
            if f is None:
                return
            conn.send(wire.response(f.request_id, content=b"pong"))
    server = FakeServer(script)
    SERVICE_MAP[inf] = tuple(server.addr)
    try:
        what = c["what"]
        kw = dict(spanctx=context(None), timeout_ms=5000)
        body, method, target = b"x", "run", inf
        if what == "str":
            body = "text"
        elif what == "none":
            body = None
        elif what == "list":
            body = [1, 2]
        elif what == "long method":
            method = "m" * 66000
        elif what == "uid":
            kw["uid"] = 5
        elif what == "surrogate":
            kw["target_app"] = "\ud800"
        elif what == "refused":
            target = inf + ".refused"
            SERVICE_MAP[target] = ("127.0.0.1", net.free_port())
        r, v = net.call(CLIENT.invoke_sync, target, method, body, **kw)
        check(r != "hang", "a call that cannot be sent ({}) does not end", what)
        check(r == "raise", "a call that cannot be sent ({}) returned {!r}", what, v)
        SERVICE_MAP.pop(inf + ".refused", None)
        r, v = net.call(CLIENT.invoke_sync, inf, "run", b"x", spanctx=context(None), timeout_ms=20000)
        check(r == "ok" and v == b"pong", "the call after one that could not be sent ({}): {} {!r}", what, r, v)
        server.raise_errors()
    finally:
        SERVICE_MAP.pop(inf + ".refused", None)
        SERVICE_MAP.pop(inf, None)
        server.close()
    return True, [what]


def run_sharp(c):
    """the grace does not depend on the limit: the quickest of several silent calls ends in time"""
    best = None
    for attempt in range(4):
        jobs = [Job(dict(fate="stall", at=c["at"], limit=limit, trace=None, method="m", app="", uid="", extra=[], body=b"b",
                         result=b"later", timeout=20000)) for limit in [c["limit"]] * 3]
        try:
            for j in jobs:
                j.start()
            for j in jobs:
                j.verify()
            dt = min(j.call.dt for j in jobs)
            best = dt if best is None else min(best, dt)
        finally:
            for j in jobs:
                j.close()
        if best <= c["limit"] / 1000.0 + 1.6:
            break
    check(best <= c["limit"] / 1000.0 + 1.6, "silent calls with a limit of {} ms time out after {:.3f} s at best", c["limit"],
          best)
    return True, ["limit=%s" % c["limit"]]


def run_brisk(c):
    """a limit is not cut short: of several calls with room enough for their messages one succeeds"""
    for attempt in range(8):
        j = Job(dict(fate="ok", cuts=[], small=[], pause=False, dup=False, trace=None, method="m", app="", uid="", extra=[],
                     body=["pat", c["body"], 3], result=["pat", c["result"], 4], timeout=c["limit"]))
        try:
            j.start()
            r, v = j.call.result()
            if r == "ok":
                j.verify()
                return True, ["limit=%s" % c["limit"]]
            check(r != "hang", "a call with a limit of {} ms blocks", c["limit"])
        finally:
            j.close()
    raise Violation("of 8 calls with {} bytes, answered at once with {} bytes, none succeeds within {} ms: {!r}".format(
        c["body"], c["result"], c["limit"], v))


BRISK = st.fixed_dictionaries(dict(body=st.sampled_from([10, 3000000, 8000000]), result=st.sampled_from([10, 2000000]),
                                   limit=st.sampled_from([700, 999, 999.5, 1999, 65536 + 1, 2 ** 24 + 1])))


def run_huge(c):
    """contents whose length does not fit into 24 bits"""
    j = Job(dict(fate="ok", cuts=c["cuts"], small=[5], pause=False, dup=False, trace=None, method="m", app="", uid="", extra=[],
                 body=["pat", 2 ** 24 + c["req"], 3] if c["req"] is not None else b"b",
                 result=["pat", 2 ** 24 + c["resp"], 5] if c["resp"] is not None else b"r", timeout=60000))
    try:
        j.start()
        j.verify()
    finally:
        j.close()
    return True, []


SHARP = st.fixed_dictionaries(dict(limit=st.sampled_from([1, 5, 100, 400, 900, 1200]), at=st.sampled_from([0, 1, 20, 30])))
OVER = st.sampled_from([None, -1, 0, 1, 65541, 2 ** 20])
HUGE = st.fixed_dictionaries(dict(req=OVER, resp=st.sampled_from([-1, 0, 1, 65541, 2 ** 20]), cuts=st.lists(st.integers(0, 2 ** 24), max_size=3)))
BAD = st.fixed_dictionaries(dict(what=st.sampled_from(["str", "none", "list", "long method", "uid", "surrogate", "refused"])))
ASSUMPTIONS = ["the peer is a fake server; a time limit counts as missed when a call takes %d s more than limit and grace" % MARGIN]
FACETS = [
    Facet("outcomes", CASE, run, quick=350, thorough=4000, setup=setup, teardown=teardown, retries=3,
          rule="up to 5 concurrent calls with generated sizes and fates (fragmented success, error statuses, foreign ids, "
               "undecodable responses, connection lost at a generated byte), then another call; every case counts"),
    Facet("stalls", SLOW, run, quick=6, thorough=150, setup=setup, teardown=teardown, retries=2,
          rule="4-12 concurrent calls to servers that fall silent at a generated byte, send one byte at a time, do not read, "
               "or read slowly"),
    Facet("sharp", SHARP, run_sharp, quick=5, thorough=60, setup=setup, teardown=teardown, retries=2,
          rule="limits up to 1.2 s; the quickest of 3-12 silent calls ends at most 1.6 s after its limit (grace: 1 s)"),
    Facet("brisk", BRISK, run_brisk, quick=10, thorough=100, setup=setup, teardown=teardown, retries=2,
          rule="calls with large messages and limits of about a second (or whose low bytes alone are a short one)"),
    Facet("huge", HUGE, run_huge, quick=4, thorough=60, setup=setup, teardown=teardown, retries=2,
          rule="requests and responses of about 16 MiB and more"),
    Facet("history", ONE, run_one, quick=80, thorough=2000, setup=setup, teardown=teardown, retries=3,
          rule="sequences of calls to one address, with failures and surplus responses"),
    Facet("many files", ONE, net.many_files(run_one), quick=12, thorough=200, setup=setup, teardown=teardown, retries=3,
          rule="the same in a process with more than 1024 open files"),
    Facet("unsendable", BAD, run_bad, quick=20, thorough=60, setup=setup, teardown=teardown,
          rule="requests that cannot be encoded or delivered"),
] + patience.facets(patience.client(Client), "servers")
