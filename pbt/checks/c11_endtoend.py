"""C11: end to end, a remote call is the same as a local one."""
import threading
import time

from anthunder import AioClient, Client, SERVICE_MAP
from anthunder.listener import AioListener, SockListener
from hypothesis import strategies as st

from .. import gen, net
from ..clients import METHOD, TRACE, Call, context, make_client, new_token
from ..core import Facet, Violation, check
from ..jitter import Jitter, schedules
from ..net import WAIT
from . import c05_dispatch as d

PAIRS = {"sync-sock": ("sync", SockListener), "sync-aio": ("sync", AioListener), "aio-aio": ("aio", AioListener)}
SVC = {"A:1.0": ((), {}), "服务": ((1, "x"), {}), "run": ((), dict(kw=2))}
CLIENTS = {}
LISTENERS = []
NAMES = {}      # name -> (class, constructor arguments)


def setup():
    CLIENTS.update(aio=[make_client(AioClient), make_client(AioClient)], sync=[make_client(Client)])
    for cls in (SockListener, AioListener):
        lsn, addr = net.start_listener(cls)
        LISTENERS.append(lsn)
        for s, (a, k) in SVC.items():
            name = "c11." + cls.__name__ + s
            NAMES[name] = (d.make(name), a, k)
            lsn.handler.register_interface(name, NAMES[name][0], *a, **k)
            SERVICE_MAP[name] = tuple(addr)
        lsn.handler.register_interface("c11.v." + cls.__name__, d.Verbatim)
        SERVICE_MAP["c11.v." + cls.__name__] = tuple(addr)


def teardown():
    for lsn in LISTENERS:
        lsn.shutdown()
    for name in list(NAMES) + ["c11.v." + cls.__name__ for cls in (SockListener, AioListener)]:
        SERVICE_MAP.pop(name, None)
    LISTENERS.clear()
    NAMES.clear()
    CLIENTS.clear()


SIZES = [0, 1, 2, 255, 256, 65535, 65536, 300000, 2000000]
SMALL = [0, 1, 255, 256, 65536]
OUT = gen.mix(*[st.fixed_dictionaries(dict(out=st.just("bytes"), bytes=gen.payload(SIZES, 20)))] * 4,
              st.fixed_dictionaries(dict(out=st.just("raise"), exc=st.sampled_from(sorted(d.RAISE)))),
              st.fixed_dictionaries(dict(out=st.just("wrong"), wrong=st.sampled_from(sorted(set(d.WRONG) - set(d.LENIENT))))))
HOW = st.sampled_from(["sync", "sync", "future", "callback"])
CALL = st.fixed_dictionaries(dict(
    svc=gen.mix(*[st.sampled_from(sorted(SVC))] * 9, st.just("nobody")), method=gen.mix(*[st.sampled_from(d.METHODS)] * 9, st.just("nope")),
    trace=TRACE, app=gen.TEXT, uid=gen.TEXT, body=gen.payload(SIZES, 20), out=OUT, how=HOW, held=st.sampled_from([True, False]),
    client=st.integers(0, 1), timeout=st.sampled_from([60000, 60000.5, 2 ** 30])))
CASE = st.fixed_dictionaries(dict(
    pair=st.sampled_from(sorted(PAIRS)), groups=st.lists(st.lists(CALL, min_size=1, max_size=6), min_size=1, max_size=3),
    release=st.lists(st.integers(0, 50), max_size=8), together=st.booleans()))


class Job:
    def __init__(self, c, pair):
        cl, cls = PAIRS[pair]
        self.c, self.pair = c, pair
        self.tok = new_token()
        self.ctx = context(c["trace"])
        self.body = gen.tagged(self.tok + b"|", c["body"])
        self.name = "c11." + cls.__name__ + c["svc"]
        self.fails = c["out"]["out"] != "bytes" or c["svc"] not in SVC or c["method"] not in d.METHODS
        self.runs = c["svc"] in SVC and c["method"] in d.METHODS
        self.gate = threading.Event() if c["held"] and self.runs else None
        d.PLANS[self.tok] = dict(c["out"], gate=self.gate, bytes=gen.expand(c["out"].get("bytes", b"")))
        clients = CLIENTS[cl]
        client = clients[c["client"] % len(clients)]
        kw = dict(spanctx=self.ctx, target_app=c["app"], uid=c["uid"], timeout_ms=c["timeout"])
        self.how = c["how"] if cl == "aio" else "sync"
        self.called = []
        self.verified = False
        self.event = threading.Event()
        if self.how == "sync":
            self.call = Call(lambda: client.invoke_sync(self.name, c["method"], self.body, **kw))
        elif self.how == "future":
            self.call = Call(lambda: client.invoke_async(self.name, c["method"], self.body, **kw).result(60).content)
        else:
            self.call = Call(lambda: client.invoke_async(self.name, c["method"], self.body, callback=self.callback, **kw))

    def callback(self, content):
        self.called.append(content)
        self.event.set()

    def executions(self):
        return [e for e in list(d.LOG) if e[0] == self.tok]

    def local(self):
        """what a local call does"""
        cls, a, k = NAMES[self.name]
        d.PLANS[self.tok] = dict(d.PLANS[self.tok], gate=None)
        try:
            return "ok", getattr(cls(self.ctx, *a, **k), self.c["method"])(self.body)
        except BaseException as e:
            return "raise", e

    def verify(self):
        if self.verified:
            return
        self.verified = True
        c = self.c
        what = "a call ({}, {}) of {}.{} ({})".format(self.pair, self.how, self.name, c["method"], c["out"]["out"])
        r, v = self.call.result()
        check(r != "hang", "{} does not end", what)
        if self.how == "callback":
            check(r == "ok", "{} raised {!r}", what, v)
            fut = v
            if not self.fails:
                check(self.event.wait(WAIT), "{}: the callback was not called", what)
                v = self.called[0]
            else:
                try:
                    got = fut.result(WAIT)
                    raise Violation("{} failed, but its future has the result {!r}".format(what, got.content))
                except Violation:
                    raise
                except Exception:
                    r = "raise"
        remote = self.executions()
        if self.runs:
            check(len(remote) == 1, "{} was executed {} times", what, len(remote))
            lr, lv = self.local()
            local = self.executions()[-1]
            for k, name in enumerate(["", "service", "method", "body"]):
                check(remote[0][k] == local[k], "{}: the service got the {} {!r}..., locally {!r}...", what, name,
                      remote[0][k][:50], local[k][:50])
            check(remote[0][5:7] == local[5:7], "{} was constructed with {}, locally with {}", what, remote[0][5:7], local[5:7])
            a, b = ({x: str(y) for x, y in e[4].baggage.items()} for e in (remote[0], local))
            check(a == b, "{}: the service got the trace context {!r}, locally {!r}", what, a, b)
        else:
            check(not remote, "{} was executed", what)
        if self.fails:
            check(r == "raise", "{} failed, but the call returned {!r}", what, v)
            check(isinstance(v, Exception) or self.how == "callback", "{} raised {!r}", what, v)
            check(not self.called, "{} failed, but its callback got {!r}", what, self.called)
        else:
            check(r == "ok", "{} raised {!r}", what, v)
            check(type(v) is bytes and v == lv, "{} returned {!r}... ({} bytes), locally {!r}... ({} bytes)", what, v[:30],
                  len(v), lv[:30], len(lv))


def run(c):
    d.forget()
    labels = {c["pair"]}
    jobs = []
    try:
        for group in c["groups"]:
            now = [Job(x, c["pair"]) for x in group]
            jobs += now
            held = [j for j in now if j.gate]
            for j in held:
                check(net.wait_until(lambda: j.executions()), "a call ({}) was never executed; {} others are being executed",
                      c["pair"], len(held) - 1)
            if not c["together"]:
                for j in now:
                    if not j.gate:
                        j.verify()
            for j in held:
                check(j.how == "callback" or not j.call.done.is_set(), "a call ({}) ended before its service: {!r}", c["pair"], j.call.box)
            for p in c["release"]:
                if held:
                    j = held.pop(p % len(held))
                    j.gate.set()
                    if not c["together"]:
                        j.verify()
                    labels.add("released in order")
            for j in held:
                j.gate.set()
            for j in now:
                if j.gate or c["together"]:
                    j.verify()
            if len(now) > 1:
                labels.add("concurrent")
            labels |= {j.c["out"]["out"] for j in now if j.runs} | {"not executed" for j in now if not j.runs}
        for j in jobs:
            if j.how == "callback" and not j.fails:
                check(len(j.called) == 1, "the callback of a call was called {} times", len(j.called))
    finally:
        for j in jobs:
            if j.gate:
                j.gate.set()
    return "concurrent" in labels or bool(labels & {"raise", "wrong", "not executed"}), labels


# -------------------------------------------------------------------------------------- many callers
MANY = st.fixed_dictionaries(dict(
    pair=st.sampled_from(sorted(PAIRS)), jitter=gen.JITTER, threads=st.integers(2, 24), calls=st.integers(1, 12),
    sizes=st.lists(st.sampled_from(SMALL), min_size=1, max_size=4), fail=st.integers(0, 9)))


def run_many(c):
    """threads that call as fast as they can; every n-th call fails in the service"""
    d.forget()
    cl, cls = PAIRS[c["pair"]]
    svcs = sorted(SVC)
    want, sent, problems, errors = {}, {}, [], {}

    def caller(t):
        for k in range(c["calls"]):
            n = t * c["calls"] + k
            tok = new_token()
            fails = bool(c["fail"]) and n % (c["fail"] + 1) == 0
            size = c["sizes"][n % len(c["sizes"])]
            res = gen.tagged(tok, ["pat", size, n % 251])
            d.PLANS[tok] = dict(out="raise", exc="ValueError", gate=None) if fails else dict(out="bytes", bytes=res, gate=None)
            want[tok] = None if fails else res
            name = "c11." + cls.__name__ + svcs[n % len(svcs)]
            method = d.METHODS[n % len(d.METHODS)]
            body = gen.tagged(tok + b"|", ["pat", c["sizes"][(n + 1) % len(c["sizes"])], n % 251])
            clients = CLIENTS[cl]
            ctx = context(dict(trace="%032x" % n, rpc="1.%d" % n, bag=[["n", str(n)]] if n % 2 else []))
            sent[tok] = (name, method, body, {k: str(v) for k, v in ctx.baggage.items()})
            try:
                got = clients[n % len(clients)].invoke_sync(name, method, body, spanctx=ctx, timeout_ms=60000)
            except Exception as e:
                errors[tok] = e
                if not fails:
                    problems.append("a call ({}, {} threads) raised {!r}".format(c["pair"], c["threads"], e))
                continue
            if fails:
                problems.append("a call ({}, {} threads) failed in the service and returned {!r}...".format(c["pair"], c["threads"], got[:30]))
            elif got != res:
                problems.append("a call ({}, {} threads) returned {!r}... ({} bytes), the service {!r}... ({} bytes)".format(
                    c["pair"], c["threads"], got[:30], len(got), res[:30], len(res)))

    with Jitter(**c.get("jitter") or {}):
        res = net.calls([lambda t=t: caller(t) for t in range(c["threads"])], timeout=60)
    for r, v in res:
        check(r != "hang", "calls ({}, {} threads) do not end", c["pair"], c["threads"])
        if r == "raise":
            raise v
    check(not problems, "{}", problems[0] if problems else "")
    runs = [e[0] for e in d.LOG]
    for tok in want:
        check(runs.count(tok) == 1, "a call ({}, {} threads) was executed {} times; it {}", c["pair"], c["threads"], runs.count(tok),
              "raised %r" % errors[tok] if tok in errors else "succeeded")
    for e in d.LOG:
        check(e[0] in want, "something was executed that nobody called: {!r}", e[0])
        name, method, body, bag = sent[e[0]]
        a, k = NAMES[name][1:]
        check((e[1], e[2], e[3] == body, e[5], e[6]) == (name, method, True, a, k), "a call ({}, {} threads) of {}.{} was "
              "executed by {}.{} with {!r}... ({} bytes), constructed with {} {}", c["pair"], c["threads"], name, method, e[1], e[2],
              e[3][:20], len(e[3]), e[5], e[6])
        got = {x: str(y) for x, y in e[4].baggage.items()}
        check(got == bag, "a call ({}, {} threads) with the trace context {!r} was executed with {!r}", c["pair"], c["threads"], bag, got)
    return c["threads"] * c["calls"] > 10, [c["pair"]] + (["failing"] if c["fail"] else [])


def run_huge(c):
    """contents whose length does not fit into 24 bits"""
    out = dict(out="bytes", bytes=["pat", 2 ** 24 + c["resp"], 5] if c["resp"] is not None else b"small")
    j = None
    d.forget()
    try:
        j = Job(dict(svc="A:1.0", method="run", trace=None, app="", uid="", out=out, how=c["how"], held=False, client=0,
                     body=["pat", 2 ** 24 + c["req"], 3] if c["req"] is not None else b"b", timeout=120000), c["pair"])
        j.verify()
    finally:
        d.forget()
    return True, [c["pair"]]


def run_verbatim(c):
    """arguments that are exactly the generated bytes (also none at all), by all kinds of call"""
    del d.Verbatim.got[:]
    cl, cls = PAIRS[c["pair"]]
    client = CLIENTS[cl][0]
    name = "c11.v." + cls.__name__
    futs, want, labels = [], [], {c["pair"]}
    for x in c["calls"]:
        body = gen.expand(x["body"])
        want.append(body)
        res = body[::-1] if x["method"] == "mirror" else body
        how = x["how"] if cl == "aio" else "oneway" if x["how"] == "oneway" else "sync"
        what = "a call ({}, {}) with {!r}... ({} bytes)".format(c["pair"], how, body[:30], len(body))
        kw = dict(spanctx=context(None), timeout_ms=60000)
        if how == "oneway":
            fn = lambda: client.invoke_oneway(name, x["method"], body, spanctx=context(None))
        elif how == "sync":
            fn = lambda: client.invoke_sync(name, x["method"], body, **kw)
        elif how == "future":
            fn = lambda: client.invoke_async(name, x["method"], body, **kw)
        else:
            called = []
            fn = lambda: client.invoke_async(name, x["method"], body, callback=called.append, **kw)
        r, v = net.call(fn, timeout=WAIT)
        check(r == "ok", "{} {}", what, "does not end" if r == "hang" else "raised %r" % v)
        labels.add(how)
        if how == "sync":
            futs.append((what, res, lambda v=v: v))
        elif how == "future":
            futs.append((what, res, lambda v=v: v.result(WAIT).content))
        elif how == "callback":
            futs.append((what, res, lambda called=called: net.wait_until(lambda: called) and called[0]))
        if not c["pipelined"]:
            settle(futs)
    settle(futs)
    check(net.wait_until(lambda: len(d.Verbatim.got) >= len(want)), "{} calls were executed, made {}", len(d.Verbatim.got), len(want))
    got = list(d.Verbatim.got)
    check(sorted(b for _, b in got) == sorted(want), "the service got {!r}, sent {!r}", [b[:40] for _, b in got], [b[:40] for b in want])
    check(all(t is bytes for t, _ in got), "the service got a {!r}", [t for t, _ in got])
    return any(len(b) < 10 for b in want), labels


def settle(futs):
    while futs:
        what, res, get = futs.pop()
        try:
            v = get()
        except Exception as e:
            raise Violation("{} raised {!r}".format(what, e))
        check(type(v) is bytes and v == res, "{} returned {!r}..., the service {!r}... ({} bytes)", what, v if v is None else v[:30],
              res[:30], len(res))


VERBATIM = st.fixed_dictionaries(dict(pair=st.sampled_from(sorted(PAIRS)), pipelined=st.booleans(), calls=st.lists(st.fixed_dictionaries(dict(
    body=d.BODY, method=st.sampled_from(["echo", "echo", "mirror"]), how=st.sampled_from(["sync", "future", "callback", "oneway"]))),
    min_size=1, max_size=6)))
OVER = st.sampled_from([None, -1, 0, 1, 65541, 2 ** 20])
HUGE = st.fixed_dictionaries(dict(req=OVER, resp=OVER, pair=st.sampled_from(sorted(PAIRS)), how=HOW))
ASSUMPTIONS = ["AioClient with the threaded listener (which serves one request per connection) is not a supported pairing",
               "services return bytes; what they raise is not transferred, only that the call fails"]
FACETS = [
    Facet("calls", CASE, run, quick=200, thorough=5000, setup=setup, teardown=teardown, retries=3,
          rule="1-3 groups of 1-6 concurrent calls (sync, future, callback) through client and listener with generated content, "
               "context, result or failure, services held back and released in a generated order, compared with a local call; "
               "non-trivial = concurrent or failing calls"),
    Facet("verbatim", VERBATIM, run_verbatim, quick=100, thorough=2000, setup=setup, teardown=teardown, retries=3,
          rule="1-6 calls (sync, future, callback, oneway) whose argument is nothing but generated bytes (empty, few, special "
               "ones); non-trivial = an argument of less than ten bytes"),
    Facet("huge", HUGE, run_huge, quick=12, thorough=120, setup=setup, teardown=teardown, retries=2,
          rule="arguments and results of about 16 MiB and more"),
    Facet("many", MANY, run_many, quick=40, thorough=800, setup=setup, teardown=teardown, retries=3,
          rule="2-24 threads making up to 12 calls each as fast as they can, some failing, often with pauses inside the library; non-trivial = more than ten calls"),
    Facet("schedules", MANY, run_many, quick=12, thorough=250, retries=5, rule="as many, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
]
