"""C09: asyncio client: failures reach exactly the calls they concern, and it recovers."""
import concurrent.futures
import socket
import time

from anthunder import AioClient, SERVICE_MAP
from anthunder.exceptions import PyboltError, ServerError
from hypothesis import strategies as st

from .. import gen, net, wire
from ..clients import Call, Hub, context, make_client, new_token, token_of
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import WAIT
from .c06_resilience import BADHEADER

CLIENT = None
ERRORS = sorted(s for s in wire.STATUSES if s != "SUCCESS")


def setup():
    global CLIENT
    CLIENT = make_client(AioClient)


def teardown():
    pass


SHORT = 250     # ms, for calls that are not answered
FATE = gen.mix(
    *[st.fixed_dictionaries(dict(fate=st.just("ok"), size=st.sampled_from([0, 1, 300, 70000])))] * 4,
    *[st.fixed_dictionaries(dict(fate=st.just("error"), status=st.sampled_from(ERRORS), content=st.binary(max_size=6),
                             cmd=st.sampled_from([2, 2, 2, 0])))] * 3,
    st.fixed_dictionaries(dict(fate=st.just("silent"), late=st.booleans())),
    st.fixed_dictionaries(dict(fate=st.just("bad header"), header=BADHEADER)),
    st.fixed_dictionaries(dict(fate=st.just("bad field"), field=st.sampled_from(
        ["status", "cmdcode", "codec", "ptype", "ver2", "proto"]), v=st.sampled_from([3, 14, 99, -1, 100]))),
    st.fixed_dictionaries(dict(fate=st.just("request back"))),
    st.fixed_dictionaries(dict(fate=st.just("unencodable"), what=st.sampled_from(
        ["str", "none", "int", "header value", "header key", "long header", "long method", "surrogate"]))))
CALL = st.tuples(FATE, st.sampled_from(["sync", "sync", "future", "callback"])).map(lambda t: dict(t[0], how=t[1]))
STRAY = st.sampled_from([0, 0, 1, 12, -1, -5])      # responses with ids that no call uses yet (if negative, undecodable ones)
NORMAL = st.fixed_dictionaries(dict(end=st.just("none"), calls=st.lists(CALL, min_size=1, max_size=6),
                                    cuts=st.lists(st.integers(0, 3000), max_size=5), stray=STRAY))
LOST = st.fixed_dictionaries(dict(
    end=st.sampled_from(["fin", "fin", "reset", "half"]),
    calls=st.lists(gen.mix(*[CALL.filter(lambda c: c["fate"] in ("ok", "error", "bad header"))] * 3,
                           st.just(dict(fate="silent", late=False, how="future")),
                           st.just(dict(fate="silent", late=False, how="sync"))), min_size=1, max_size=6),
    keep=st.integers(0, 400), cuts=st.lists(st.integers(0, 3000), max_size=3), stray=STRAY))
IDLE = st.fixed_dictionaries(dict(end=st.just("idle"), partial=st.integers(0, 60)))
REFUSED = st.fixed_dictionaries(dict(end=st.just("refused"), n=st.integers(1, 4)))
CASE = st.fixed_dictionaries(dict(
    rounds=st.lists(gen.mix(NORMAL, NORMAL, LOST, LOST, IDLE), min_size=1, max_size=4), after=st.integers(1, 6)))


class Bad(object):
    pass


class Job:
    """one call; verify() checks its outcome against its fate"""

    def __init__(self, inf, c, lost=False):
        self.c, self.lost = c, lost
        self.tok = new_token()
        self.body = self.tok + b"|" + b"x" * 10
        self.want = b"r:" + self.tok + gen.expand(["pat", c.get("size", 0), 7])
        fate, how = c["fate"], c["how"]
        self.frame = None
        self.got = []
        method = "run"
        # nothing decides between a time-out and another failure in a round that loses the connection
        t = SHORT if fate == "silent" and not lost else 60000
        self.limit = t
        kw = dict(spanctx=context(None), timeout_ms=t)
        body = self.body
        if fate == "unencodable":
            w = c["what"]
            body = dict(str="text", none=None, int=5).get(w, body)
            if w == "header value":
                kw["extra1"] = 5
            elif w == "header key":
                kw["extra1"] = None
            elif w == "long header":
                kw["extra1"] = "x" * 70000
            elif w == "long method":
                method = "m" * 66000
            elif w == "surrogate":
                kw["extra1"] = "\ud800"
        if how == "sync":
            self.call = Call(lambda: CLIENT.invoke_sync(inf, method, body, **kw))
        else:
            if how == "callback":
                kw["callback"] = self.got.append

            def start():
                self.fut = CLIENT.invoke_async(inf, method, body, **kw)
                if fate == "silent" and not lost:
                    try:
                        return self.fut.result(SHORT / 1000.0).content
                    except concurrent.futures.TimeoutError:
                        # (the harness gave up; the future must not have a result)
                        raise TimeoutError()
                return self.fut.result(60).content
            self.call = Call(start)

    @property
    def sends(self):
        return self.c["fate"] != "unencodable"

    def response(self):
        c, rid = self.c, self.frame.request_id
        fate = c["fate"]
        if fate == "ok":
            return wire.response(rid, content=self.want)
        if fate == "error":
            return wire.response(rid, content=c["content"], status=wire.STATUSES[c["status"]], cmdcode=c.get("cmd", 2))
        if fate == "bad header":
            return wire.response(rid, header=c["header"], content=b"bad" + self.want)
        if fate == "bad field":
            b = {"cmdcode": dict(cmdcode=c["v"]), "status": dict(status=c["v"])}.get(c["field"]) or {c["field"]: c["v"]}
            return wire.response(rid, content=self.want, **b)
        if fate == "request back":
            return wire.response(rid, content=self.want, cmdcode=wire.CMD_REQUEST)
        return b""

    def verify(self, arrived=True, may_fail=False):
        """:param arrived: whether its whole response was sent before the connection was lost"""
        fate, how = self.c["fate"], self.c["how"]
        what = "a call ({}, {})".format(how, {k: v for k, v in self.c.items() if k != "how"})
        r, v = self.call.result(WAIT)
        if r == "hang":
            raise Violation("{} neither returns nor raises{}".format(what, "" if arrived else " after its connection was lost"))
        if fate == "ok" and arrived and not (may_fail and r == "raise"):
            check(r == "ok", "{} raised {!r}", what, v)
            check(v == self.want, "{} got {!r}...", what, v[:40])
            if how == "callback":
                check(net.wait_until(lambda: self.got), "the callback of {} was not called", what)
        else:
            check(r == "raise", "{} returned {!r} although it failed", what, v)
            if arrived and not may_fail:
                if fate == "error":
                    check(isinstance(v, (PyboltError,)), "{} raised {!r}", what, v)
                    check(self.c["status"] in str(v), "{} raised {!r}, which does not name the status", what, v)
                if fate == "silent" and not self.lost:
                    check(isinstance(v, (TimeoutError, concurrent.futures.TimeoutError)), "{} raised {!r}", what, v)
                    check(self.call.dt > self.limit / 1000.0 * 0.9 - 0.005, "{} timed out after {:.3f} s", what, self.call.dt)
            check(not self.got, "the callback of {} was called with {!r}", what, self.got)
        check(len(self.got) <= 1, "the callback of {} was called {} times", what, len(self.got))


def collect(hub, jobs, labels):
    """the requests of these jobs have arrived; :return: their connections"""
    bytok = {j.tok: j for j in jobs}
    conns = []
    for _ in [j for j in jobs if j.sends]:
        while True:
            conn, f = hub.take("({} calls)".format(len(jobs)))
            j = bytok.get(token_of(f.content))
            check(j is not None, "a request that nobody made: {}", f)
            break
        check(j.sends, "a request that cannot be encoded was sent: {}", f)
        check(j.frame is None, "a request was sent twice: {}", f)
        j.frame, j.conn = f, conn
        if conn not in conns:
            conns.append(conn)
    return conns


def after(hub, n, labels, what):
    """n concurrent calls succeed"""
    jobs = [Job(hub.interface, dict(fate="ok", how=["sync", "callback", "future"][k % 3], size=10)) for k in range(n)]
    end = [0]
    bytok = {j.tok: j for j in jobs}
    left = n
    while left:
        conn, f = hub.take("{} ({} concurrent calls)".format(what, n))
        j = bytok.get(token_of(f.content))
        check(j is not None, "{}: a request that nobody made: {}", what, f)
        check(j.frame is None, "{}: a request was sent twice", what)
        j.frame = f
        left -= 1
        conn.send(j.response())
    for j in jobs:
        try:
            j.verify()
        except Violation as v:
            raise Violation("{}: {}".format(what, v))


def run(c):
    hub = Hub()
    labels, old = set(), []
    try:
        for rnd in c["rounds"]:
            labels.add(rnd["end"])
            if rnd["end"] == "idle":
                # the server goes away between calls; the client has noticed when it closes its side
                after(hub, 1, labels, "before an idle close")
                for cn in hub.server.conns:
                    try:
                        cn.send(wire.response(1, content=b"z" * 40)[:rnd["partial"]])
                        cn.s.shutdown(socket.SHUT_WR)
                    except OSError:
                        continue
                    hub.take_eof(cn, 3)
                after(hub, c["after"], labels, "after the server closed an idle connection")
                continue
            lost = rnd["end"] != "none"
            jobs = [Job(hub.interface, x, lost) for x in rnd["calls"]]
            conns = collect(hub, jobs, labels)
            for j in jobs:
                labels.add(j.c["fate"])
                if not j.sends:
                    j.verify()
            stream = {}
            for j in jobs:
                if j.sends:
                    s = stream.setdefault(j.conn, [b"", []])
                    s[0] += j.response()
                    s[1].append((j, len(s[0])))
            for j in [x for x in old if x.conn in stream]:
                # answers to calls that gave up, ahead of everything else
                b = wire.response(j.frame.request_id, content=b"late")
                s = stream[j.conn]
                s[0] = b + s[0]
                s[1] = [(x, e + len(b)) for x, e in s[1]]
                labels.add("late answer")
            old = []
            if rnd.get("stray") and stream:
                top = max(j.frame.request_id for j in jobs if j.sends)
                bad = dict(header=b"\0\0\0\7a") if rnd["stray"] < 0 else {}
                b = b"".join(wire.response((top + k) & 0x7fffffff, content=b"stray", **bad)
                             for k in range(1, abs(rnd["stray"]) + 1))
                s = stream[sorted(stream, key=lambda cn: cn.no)[0]]
                s[0] = b + s[0]
                s[1] = [(x, e + len(b)) for x, e in s[1]]
                labels.add("stray responses")
            for conn, (b, ends) in stream.items():
                cut = len(b)
                if lost and b:
                    cut = rnd["keep"] % (len(b) + 1)
                try:
                    conn.send_pieces(b[:cut], rnd["cuts"])
                except OSError:
                    check(lost, "the client closed the connection")
                noticed = [j for j, e in ends if e > cut or j.c["fate"] == "silent"]
                if rnd["end"] == "fin" and noticed:
                    conn.close()
                elif rnd["end"] in ("fin", "half"):
                    conn.s.shutdown(socket.SHUT_WR)
                    # (a call in flight that fails, or its closing the connection, shows that the client has noticed)
                    if not noticed:
                        hub.take_eof(conn, 3)
                elif rnd["end"] == "reset":
                    conn.reset()
                for j, e in ends:
                    # closing with unread data makes a reset of a close, and a reset discards what is in flight
                    j.verify(arrived=e <= cut and j.c["fate"] != "silent" or not lost, may_fail=rnd["end"] == "reset")
            if not lost:
                old = [j for j in jobs if j.c["fate"] == "silent" and j.c["late"]]
            else:
                after(hub, c["after"], labels, "after the connection was lost (%s)" % rnd["end"])
        after(hub, c["after"], labels, "at the end")
        hub.server.raise_errors()
    finally:
        hub.close()
    return labels - {"ok", "none"} != set(), labels


def run_refused(c):
    """nobody listens (yet, or any more)"""
    port = net.free_port()
    labels = set()
    inf = "com.verif.refused%s" % new_token().decode()
    SERVICE_MAP[inf] = ("127.0.0.1", port)
    hub = other = None
    try:
        other = Hub()
        for phase in c["phases"]:
            if phase["up"]:
                if hub is None:
                    try:
                        hub = Hub(addr=("127.0.0.1", port), interface=inf)
                    except OSError:
                        return False, ["port taken"]    # by another process
                after(hub, phase["n"], labels, "when the server is there")
                labels.add("up")
            else:
                if hub is not None:
                    conns = list(hub.server.conns)
                    hub.server.closed = True
                    hub.server.l.close()
                    # connections first half-closed, so that the client's reaction can be seen
                    for cn in conns:
                        try:
                            cn.s.shutdown(socket.SHUT_WR)
                        except OSError:
                            continue
                        hub.take_eof(cn, 3)
                    for cn in conns:
                        cn.close()
                    # the accept thread may still hold the socket
                    try:
                        with socket.create_connection(("127.0.0.1", port), 1):
                            pass
                    except OSError:
                        pass
                    hub = None
                fs = [lambda: CLIENT.invoke_sync(inf, "run", b"x", spanctx=context(None), timeout_ms=60000)
                      for _ in range(phase["n"])]
                fs += [lambda: CLIENT.invoke_async(inf, "run", b"x", spanctx=context(None)).result(60)
                       for _ in range(phase["n"] // 2)]
                cs = [Call(f) for f in fs]
                after(other, 1, labels, "another address")
                for x in cs:
                    r, v = x.result()
                    check(r != "hang", "a call to an address that refuses connections neither returns nor raises")
                    check(r == "raise", "a call to an address that refuses connections returned {!r}", v)
                labels.add("down")
    finally:
        if hub:
            hub.close()
        if other:
            other.close()
        SERVICE_MAP.pop(inf, None)
    return True, labels


RF = st.fixed_dictionaries(dict(phases=st.lists(st.fixed_dictionaries(dict(up=st.booleans(), n=st.integers(1, 5))),
                                                min_size=1, max_size=5)))


def run_stall(c):
    """part of a response, then silence: calls on this connection time out, and the rest does not confuse later ones"""
    hub = Hub()
    try:
        after(hub, 1, set(), "before")
        jobs = [Job(hub.interface, dict(fate="silent", how="sync", late=True)) for _ in range(c["n"])]
        conns = collect(hub, jobs, set())
        b = b"".join(wire.response(j.frame.request_id, content=b"w" * c["size"]) for j in jobs)
        first = len(b) // len(jobs)
        cut = c["cut"] % first
        jobs[0].conn.send(b[:cut])
        for j in jobs:
            j.verify()
        jobs[0].conn.send(b[cut:])
        after(hub, c["after"], set(), "after a stall")
    finally:
        hub.close()
    return True, ["mid-header" if cut < wire.RESP_SIZE else "mid-body"]


STALL = st.fixed_dictionaries(dict(n=st.integers(1, 3), size=st.sampled_from([0, 10, 5000]), cut=st.integers(0, 5000),
                                   after=st.integers(1, 4)))
ASSUMPTIONS = ["the peer is a fake server; a call made in the instant between the loss of the connection and the client "
               "noticing may fail (the harness waits until the client has noticed)",
               "after a reset, responses that were in flight may be lost"]
FACETS = [
    Facet("rounds", CASE, run, quick=150, thorough=3000, setup=setup, teardown=teardown, retries=3,
          rule="up to 4 rounds of up to 6 concurrent calls with generated fates (success, every error status, silence, "
               "undecodable responses, unencodable requests), connection lost (FIN, half-close, reset) after a generated "
               "part of the responses or while idle; then concurrent calls; non-trivial = some fault"),
    Facet("refused", RF, run_refused, quick=30, thorough=400, setup=setup, teardown=teardown, retries=3,
          rule="phases in which the server is there or refuses connections, with concurrent calls"),
    Facet("stall", STALL, run_stall, quick=15, thorough=200, setup=setup, teardown=teardown, retries=3,
          rule="a response that stops at a generated byte and is completed after the calls gave up"),
    Facet("schedules", CASE, run, quick=40, thorough=800, retries=5, rule="as rounds, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
]
