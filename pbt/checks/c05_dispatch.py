"""C05: the asyncio listener reports truthfully what became of a request."""
import itertools
import threading
import time

from anthunder.listener import AioListener, BaseService
from hypothesis import strategies as st

from .. import gen, net, wire
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import RawConn

S = wire.STATUSES
LSN = ADDR = None
_tok = itertools.count()
SENTINEL = itertools.cycle(range(2 ** 31 - 10 ** 6, 2 ** 31 - 2 * 10 ** 5))
LOCK = threading.Lock()
PLANS, LOG, DONE = {}, [], []        # DONE: tokens of the executions that are about to return
CHANGED = set()     # tokens of executions whose service object was given another context in the meantime


class Custom(Exception):
    pass


class NotBytes(object):
    def __len__(self):
        return 3


RAISE = dict(ValueError=lambda: ValueError("x"), KeyError=lambda: KeyError("service"), Custom=lambda: Custom(),
             AttributeError=lambda: AttributeError("run"), OSError=lambda: OSError(104, "reset"),
             EOFError=lambda: EOFError("eof"), TimeoutError=lambda: TimeoutError(),
             StopIteration=lambda: StopIteration(b"x"), AssertionError=lambda: AssertionError(),
             SystemExit=lambda: SystemExit(0), UnicodeDecodeError=lambda: UnicodeDecodeError("utf-8", b"a", 0, 1, "é"),
             RuntimeError=lambda: RuntimeError("中\x00"), NotImplementedError=lambda: NotImplementedError())
WRONG = dict(none=None, text="text", empty="", int=7, zero=0, list=[b"a"], dict={}, tuple=(b"x",), true=True, float=1.5,
             obj=NotBytes(), exception=ValueError("returned"), ba=bytearray(b"ab"), mv=memoryview(b"ab"))
LENIENT = {"ba": b"ab", "mv": b"ab"}    # bytes-like: their bytes or an error


class NoProc(Exception):
    pass


def handle(service, method, self, body):
    key = bytes(body)
    tok = key.split(b"|", 1)[0]
    p = PLANS.get(tok)
    given = self.ctx, self.args, self.kwargs
    with LOCK:
        LOG.append((tok, service, method, key) + given + (type(body),))
    if p is None:
        return b"no plan"
    if p["gate"] is not None:
        p["gate"].wait(40)
    if any(x is not y for x, y in zip(given, (self.ctx, self.args, self.kwargs))):
        with LOCK:
            CHANGED.add(tok)
    DONE.append(tok)
    if p["out"] == "raise":
        raise RAISE[p["exc"]]()
    if p["out"] == "wrong":
        return WRONG[p["wrong"]]
    return p["bytes"]


def make(service, fail=None):
    class Svc(BaseService):
        not_callable = 3

        def __init__(self, ctx, *args, **kwargs):
            super(Svc, self).__init__(ctx)
            self.args, self.kwargs = args, kwargs
            if fail:
                raise RAISE[fail]()

        def run(self, body):
            return handle(service, "run", self, body)

        def Run(self, body):
            return handle(service, "Run", self, body)

        def two(self, a, b):
            return handle(service, "two", self, a)

        def under_score(self, body):
            return handle(service, "under_score", self, body)

        def _run(self, body):
            return handle(service, "_run", self, body)

        @classmethod
        def cm(cls, body):
            return handle(service, "cm", cls(None, "cm"), body)
    for name in METHODS:
        if not name.isascii() or len(name) > 99:
            setattr(Svc, name, lambda self, body, name=name: handle(service, name, self, body))
    return Svc


class Verbatim(BaseService):
    """returns what it gets; nothing else is in the bodies"""
    got = []

    def echo(self, body):
        with LOCK:
            Verbatim.got.append((type(body), bytes(body)))
        return body

    def mirror(self, body):
        with LOCK:
            Verbatim.got.append((type(body), bytes(body)))
        return bytes(body)[::-1]


SERVICES = {"com.verif.A:1.0": ((), {}, None), "com.verif.B:1.0": ((1, "x"), {}, None),
            "服务": ((), dict(name="v", a=None), None), "run": (([b"z"],), dict(kw=2), None),
            "ctor.ValueError": ((), {}, "ValueError"), "ctor.AttributeError": ((), {}, "AttributeError"),
            "ctor.KeyError": ((), {}, "KeyError"), "ctor.SystemExit": ((), {}, "SystemExit"),
            "ctor.args": (("p",), {}, "TimeoutError"),
            "com." + "long." * 80 + "A:1.0": ((), {}, None), "com." + "long." * 80 + "B:1.0": ((2,), {}, None)}
METHODS = ["run", "Run", "méthode", "_run", "under_score", "m" * 300 + "1", "m" * 300 + "2"]


def setup():
    global LSN, ADDR
    LSN, ADDR = net.start_listener(AioListener)
    for name, (a, k, fail) in SERVICES.items():
        LSN.handler.register_interface(name, make(name, fail), *a, **k)


    LSN.handler.register_interface("verbatim", Verbatim)


def teardown():
    LSN.shutdown()


KNOWN = sorted(s for s, v in SERVICES.items() if v[2] is None)
NAME = gen.mix(*[st.sampled_from(KNOWN)] * 4, st.sampled_from(sorted(SERVICES)), st.just(None), st.just(""),
                 st.sampled_from(["com.verif.a:1.0", "com.verif.A:1.0 ", "nope", "é", "com.verif.A"]), gen.near(sorted(SERVICES)))
TARGET = gen.mix(*[NAME] * 3, st.just(None))
METHOD = gen.mix(*[st.sampled_from(METHODS)] * 5, st.just(None), st.just(""),
                   st.sampled_from(["nope", "RUN", "run ", "not_callable", "two", "méthod", "__nope__", "under-score", "underscore"]), gen.near(METHODS + ["two", "not_callable", "cm"]))
# (limits whose low bytes alone would be a short one)
TIMEOUT = st.sampled_from([-1, -1, -2 ** 31, -2 ** 31 + 1, 0, 20000, 60000, 65536 + 1, 2 ** 24 + 1, 2 ** 30 + 65536 + 2, 2 ** 31 - 1, 2 ** 31 - 1])
OUT = gen.mix(
    *[st.fixed_dictionaries(dict(out=st.just("bytes"), bytes=gen.payload([0, 1, 255, 65535, 65536, 100000], 20)))] * 3,
    st.fixed_dictionaries(dict(out=st.just("raise"), exc=st.sampled_from(sorted(RAISE)))),
    st.fixed_dictionaries(dict(out=st.just("wrong"), wrong=st.sampled_from(sorted(WRONG)))))
TRACE = gen.mix(st.none(), st.none(), st.fixed_dictionaries(dict(
    trace=st.text("0123456789abcdef", min_size=1, max_size=30),
    rpc=st.one_of(st.lists(st.integers(0, 999), min_size=1, max_size=4).map(lambda l: ".".join(map(str, l))),
                  st.sampled_from(["1.x", "", "."])),
    bag=gen.bag(max_size=2))))
BASE = dict(
    id=gen.REQID, out=OUT, trace=TRACE, timeout=TIMEOUT, when=st.sampled_from(["now"] * 5 + ["late", "slow"]),
    limit=st.integers(20, 150), body=gen.payload([0, 1, 255, 65535, 65536, 100000], 20),
    extra=st.lists(st.tuples(gen.NAME, gen.TEXT).map(list), max_size=2, unique_by=lambda t: t[0]),
    pad=st.sampled_from([0] * 12 + [5000, 33000, 60500, 65535]))
CALL = st.fixed_dictionaries(dict(
    BASE, service=st.sampled_from(KNOWN), target=st.sampled_from(KNOWN + [None, ""]), method=st.sampled_from(METHODS),
    cls=st.just("ok"), cmd=st.just(1)))
ANY = st.fixed_dictionaries(dict(
    BASE, service=NAME, target=TARGET, method=METHOD,
    cls=st.sampled_from(["ok"] * 9 + ["", "com.alipay.sofa.rpc.core.response.SofaResponse", "X",
                                      "com.alipay.sofa.rpc.core.request.SofaRequest2",
                                      "com.alipay.sofa.rpc.core.request.sofaRequest"]),
    cmd=st.sampled_from([1] * 9 + [2])))
REQ = gen.mix(CALL, CALL, ANY, ANY)
CASE = st.fixed_dictionaries(dict(reqs=st.lists(REQ, min_size=1, max_size=6), pipelined=st.booleans()))
RESULTS = st.fixed_dictionaries(dict(
    reqs=st.lists(st.fixed_dictionaries(dict(
        BASE, trace=st.none(), timeout=st.sampled_from([-1, 0, 60000]), when=st.just("now"), body=st.just(b""), extra=st.just([]),
        service=st.sampled_from(KNOWN), target=st.none(), method=st.sampled_from(METHODS), cls=st.just("ok"), cmd=st.just(1))),
        min_size=8, max_size=16), pipelined=st.booleans()))


def model(r, out, late):
    """:return: (set of allowed statuses, content of a success, may run, must run)"""
    anyfail = set(wire.STATUS_NAME) - {0}
    service = r["target"] or r["service"]
    if r["cls"] != "ok" or r["cmd"] != 1 or not service or not r["method"]:
        return {S["CLIENT_SEND_ERROR"]}, None, service, False, False
    t = r["trace"]
    legal = True
    if t:
        try:
            int(t["rpc"].split(".")[-1])
        except ValueError:
            legal = False
    noproc = {S["NO_PROCESSOR"]} if legal else anyfail
    if service not in SERVICES:
        return noproc, None, service, False, False
    if SERVICES[service][2]:
        # whether a constructor that fails or a missing method is reported is a matter of taste
        return anyfail, None, service, False, False
    if r["method"] in ("not_callable", "two"):
        return anyfail, None, service, False, False
    if r["method"] not in METHODS:
        return noproc, None, service, False, False
    if late:
        st_, content = {S["TIMEOUT"]}, None
    elif out["out"] == "bytes":
        st_, content = {0}, gen.expand(out["bytes"])
    elif out["out"] == "wrong" and out["wrong"] in LENIENT:
        st_, content = anyfail | {0}, LENIENT[out["wrong"]]
    else:
        st_, content = anyfail, None
    if not legal:
        # an unusable trace context may be refused
        return st_ | anyfail, content, service, True, False
    return st_, content, service, True, True


def header(r):
    # (hypothesis also draws names from the strings in the code)
    h = {k: v for k, v in r["extra"] if k not in ("service", "uid") and not k.startswith(("sofa_head", "rpc_trace_context"))}
    if r["service"] is not None:
        h["service"] = r["service"]
    if r["target"] is not None:
        h["sofa_head_target_service"] = r["target"]
    if r["method"] is not None:
        h["sofa_head_method_name"] = r["method"]
    t = r["trace"]
    if t:
        for k, v in t["bag"]:
            h["rpc_trace_context." + k] = v
        h["rpc_trace_context.sofaTraceId"] = t["trace"]
        h["rpc_trace_context.sofaRpcId"] = t["rpc"]
    if r.get("pad"):
        # up to the largest header map there is
        h["pad"] = ""
        h["pad"] = "p" * max(0, min(r["pad"], 65535 - len(wire.enc_map(h))))
    return h


def forget():
    del LOG[:]
    del DONE[:]
    CHANGED.clear()
    PLANS.clear()


def run(c):
    forget()
    conn = RawConn(ADDR)
    jobs = {}
    order = []
    labels = set()
    gates = []
    try:
        for r in c["reqs"]:
            rid = r["id"]
            while rid in jobs or rid >= 2 ** 31 - 10 ** 6:
                rid = (rid + 1) % (2 ** 31 - 10 ** 6)
            tok = b"t%d" % next(_tok)
            gate = None if r["when"] == "now" else threading.Event()
            if gate:
                gates.append(gate)
            late = r["when"] == "late"
            timeout = r["limit"] if late else r["timeout"]
            PLANS[tok] = dict(r["out"], gate=gate, bytes=gen.expand(r["out"].get("bytes", b"")))
            body = gen.tagged(tok + b"|", r["body"])
            cls = wire.REQ_CLASS if r["cls"] == "ok" else r["cls"].encode()
            frame = wire.request(rid, header(r), body, cmdcode=r["cmd"], timeout=timeout, class_name=cls)
            jobs[rid] = dict(r=r, tok=tok, body=body, gate=gate, late=late, model=model(r, r["out"], late), frame=frame)
            order.append(rid)

        def take(rids):
            rids = set(rids)
            while rids:
                f = conn.frame()
                check(f not in (None, "timeout"), "{} for requests {}", "connection closed" if f is None else
                      "no response", [jobs[x]["r"] for x in sorted(rids)][:3])
                check(f.request_id in rids, "unexpected response {}", f)
                rids.discard(f.request_id)
                verify(f, jobs[f.request_id], labels)

        if c["pipelined"]:
            for rid in order:
                jobs[rid]["t0"] = time.monotonic()
                conn.send(jobs[rid]["frame"])
            if any(j["r"]["when"] == "slow" for j in jobs.values()):
                time.sleep(0.03)
            for j in jobs.values():
                if j["r"]["when"] == "slow":
                    j["gate"].set()
            take(order)
        else:
            for rid in order:
                j = jobs[rid]
                j["t0"] = time.monotonic()
                conn.send(j["frame"])
                if j["r"]["when"] == "slow":
                    time.sleep(0.015)
                    j["gate"].set()
                take([rid])
        # a handler that exceeded its limit is not answered again when it finishes
        for g in gates:
            g.set()
        ran = lambda j: [e for e in list(LOG) if e[0] == j["tok"]]
        for j in jobs.values():
            if j["model"][4]:
                check(net.wait_until(lambda: ran(j)), "a request was never executed: {}", j["r"])
        extra = conn.ping(next(SENTINEL))
        if gates:
            time.sleep(0.002)
            extra += conn.ping(next(SENTINEL))
        check(not extra, "a second response: {}", extra)
        for j in jobs.values():
            status, content, service, may, must = j["model"]
            calls = ran(j)
            check(len(calls) <= (1 if may else 0), "request {} was executed {} times", j["r"], len(calls))
            for e in calls:
                executed(e, j)
    finally:
        for g in gates:
            g.set()
        conn.close()
    return any(j["model"][0] != {0} for j in jobs.values()) or len(jobs) > 2, labels


def executed(e, j):
    """one execution is the request that was sent"""
    tok, svc, method, body, ctx, args, kwargs, typ = e
    status, content, service, may, must = j["model"]
    check(tok not in CHANGED, "{} was executed by an object that was given to another request meanwhile", j["r"])
    check(svc == service and method == j["r"]["method"], "{} was executed by {}.{}", j["r"], svc, method)
    check(body == j["body"], "the service got {} bytes {!r}..., sent {} bytes {!r}...", len(body), body[:30],
          len(j["body"]), j["body"][:30])
    a, k, _ = SERVICES[service]
    check(args == tuple(a) and kwargs == k, "{} constructed with {} {}, registered with {} {}", service,
          args, kwargs, a, k)
    t = j["r"]["trace"]
    check(ctx is not None and getattr(ctx, "baggage", None) is not None, "no trace context: {!r}", ctx)
    if t and must:
        want = dict(t["bag"])
        want.update(sofaTraceId=t["trace"], sofaRpcId=t["rpc"])
        got = {x: str(y) for x, y in ctx.baggage.items()}
        check(got == want, "trace context {!r}, sent {!r}", got, want)


def verify(f, j, labels):
    status, content, service, may, must = j["model"]
    r = j["r"]
    name = wire.STATUS_NAME.get(f.status, f.status)
    if len(status) == 1:
        want = wire.STATUS_NAME[list(status)[0]]
    else:
        want = "a failure" if 0 not in status else "any"
    check(f.proto == 1 and f.ver2 == 1 and f.ptype == wire.RESPONSE and f.cmdcode == wire.CMD_RESPONSE and
          f.class_name == wire.RESP_CLASS, "malformed response {}", f)
    check(f.status in status, "{} answered with {}, want {}", r, name, want)
    if f.status == 0:
        check(f.content == content, "{} answered with {!r}... ({} bytes), the service returned {!r}... ({} bytes)",
              r, f.content[:20], len(f.content), content[:20], len(content))
    if j["late"] and f.status == S["TIMEOUT"] and may:
        dt = time.monotonic() - j["t0"]
        check(dt > r["limit"] * 0.0009 - 0.002, "time-out reported after {:.4f} s, the limit is {} ms", dt, r["limit"])
    labels.add(name)
    if j["late"] and may:
        labels.add("late")
    if may and r["when"] == "slow":
        labels.add("slow")
    if may and r["out"]["out"] != "bytes" and not j["late"]:
        labels.add(r["out"]["out"])


def run_two(c):
    """a service that answers late is timed out at its own limit, next to one that may take longer"""
    forget()
    conn = RawConn(ADDR)
    gate = threading.Event()
    try:
        sent = {}
        for k, limit in enumerate(c["limits"]):
            tok = b"w%d" % next(_tok)
            PLANS[tok] = dict(out="bytes", bytes=b"late", gate=gate)
            sent[k + 1] = limit
        t0 = time.monotonic()
        for (k, limit), tok in zip(sorted(sent.items()), list(PLANS)):
            conn.send(wire.request(k, dict(service=KNOWN[0], sofa_head_method_name="run"), tok + b"|", timeout=limit))
        expect = {k for k, l in sent.items() if 0 < l <= 300}
        while expect:
            f = conn.frame()
            check(f not in (None, "timeout"), "requests {} not timed out", {k: sent[k] for k in expect})
            check(f.request_id in expect and f.status == S["TIMEOUT"], "unexpected {} for limit {}", f,
                  sent.get(f.request_id))
            dt = time.monotonic() - t0
            check(dt > sent[f.request_id] * 0.0009 - 0.002, "timed out after {:.4f} s, limit {} ms", dt,
                  sent[f.request_id])
            expect.discard(f.request_id)
        extra = conn.ping(next(SENTINEL))
        check(not extra, "timed out (or answered) without reason: {}", extra)
        gate.set()
        rest = {k for k, l in sent.items() if not 0 < l <= 300}
        while rest:
            f = conn.frame()
            check(f not in (None, "timeout"), "requests {} not answered", {k: sent[k] for k in rest})
            check(f.request_id in rest and f.status == 0 and f.content == b"late", "unexpected {} for limit {}", f,
                  sent.get(f.request_id))
            rest.discard(f.request_id)
    finally:
        gate.set()
        conn.close()
    return True, ["n=%d" % len(c["limits"])]


TWO = st.fixed_dictionaries(dict(limits=st.lists(st.sampled_from(
    [1, 10, 100, 150, 299, 300, 20000, 100000, 2 ** 31 - 1, 0, -1, -100]), min_size=1, max_size=8)))

BODY = gen.mix(st.just(b""), st.sampled_from(gen.SPECIAL_BYTES), st.binary(max_size=8), gen.payload([0, 1, 255, 256, 65535, 65536], 20))
VERBATIM = st.fixed_dictionaries(dict(calls=st.lists(st.fixed_dictionaries(dict(
    body=BODY, id=gen.REQID, method=st.sampled_from(["echo", "echo", "mirror"]), oneway=st.sampled_from([False] * 3 + [True]))),
    min_size=1, max_size=8), pipelined=st.booleans()))


def verbatim(c, addr, one_each):
    """bodies that are exactly the generated bytes (also none at all)"""
    del Verbatim.got[:]
    conn, want = None, []
    try:
        ids = set()
        waiting = {}

        def take(n):
            while len(waiting) > n:
                f = conn.frame()
                check(f not in (None, "timeout"), "{} for bodies {!r}", "connection closed" if f is None else "no response",
                      [x[:30] for x in waiting.values()])
                check(f.request_id in waiting, "unexpected response {}", f)
                content = waiting.pop(f.request_id)
                check(f.status == 0 and f.content == content, "the service returned {!r}... ({} bytes), the response is {} with {!r}... "
                      "({} bytes)", content[:30], len(content), f, f.content[:30], len(f.content))
        for x in c["calls"]:
            rid = x["id"]
            while rid in ids or rid >= 2 ** 31 - 10 ** 6:
                rid = (rid + 1) % (2 ** 31 - 10 ** 6)
            ids.add(rid)
            body = gen.expand(x["body"])
            if conn is None:
                conn = RawConn(addr)
            conn.send(wire.request(rid, dict(service="verbatim", sofa_head_method_name=x["method"]), body,
                                   ptype=wire.ONEWAY if x["oneway"] else wire.REQUEST))
            want.append(body)
            if not x["oneway"]:
                waiting[rid] = body[::-1] if x["method"] == "mirror" else body
            if one_each or not c["pipelined"]:
                take(0)
            if one_each:
                conn.close()
                conn = None
        take(0)
        check(net.wait_until(lambda: len(Verbatim.got) >= len(want)), "{} requests were executed, sent {}", len(Verbatim.got), len(want))
        got = list(Verbatim.got)
        check(sorted(b for _, b in got) == sorted(want), "the service got {!r}, sent {!r}", [b[:40] for _, b in got],
              [b[:40] for b in want])
        check(all(t is bytes for t, _ in got), "the service got a {!r}", [t for t, _ in got])
    finally:
        if conn is not None:
            conn.close()
    return any(len(b) < 10 for b in want), ["empty"] * (b"" in want) + ["oneway"] * any(x["oneway"] for x in c["calls"])


ASSUMPTIONS = ["request ids of outstanding requests on one connection are distinct",
               "bytes-like results other than bytes may be sent or refused"]
FACETS = [
    Facet("outcomes", CASE, run, quick=500, thorough=12000, setup=setup, teardown=teardown, retries=3,
          rule="1-6 requests, each with generated service/target/method names (known, unknown, empty, absent), class, "
               "command, body, trace context, constructor arguments, result (bytes, other types, exceptions, late, slow) "
               "and time limit; non-trivial = some request that must not simply succeed, or more than two requests"),
    Facet("limits", TWO, run_two, quick=40, thorough=600, setup=setup, teardown=teardown, retries=3,
          rule="concurrent requests that are held back, with different time limits"),
    Facet("verbatim", VERBATIM, lambda c: verbatim(c, ADDR, False), quick=150, thorough=3000, setup=setup, teardown=teardown, retries=3,
          rule="1-8 requests and oneway requests whose bodies are nothing but generated bytes (empty, few, special ones); "
               "non-trivial = a body of less than ten bytes"),
    Facet("schedules", CASE, run, quick=100, thorough=2000, retries=5, rule="as outcomes, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("results", RESULTS, run, quick=40, thorough=800, retries=5, rule="8-16 requests that are executed, with results and "
          "exceptions of all kinds; every other one is over before the listener gets to look at it",
          **schedules(setup, teardown)),
]
