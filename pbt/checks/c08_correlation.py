"""C08: asyncio client: every call gets its own response."""
import random
import threading
import time

from anthunder import AioClient, SERVICE_MAP
from hypothesis import strategies as st

from .. import gen, net, patience, wire
from ..clients import EXTRA, METHOD, TRACE, Call, Hub, check_frame, context, make_client, new_token, token_of
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..net import WAIT, FakeServer, PeerGone

CLIENT = None


def setup():
    global CLIENT
    CLIENT = make_client(AioClient)


def teardown():
    pass


SIZES = [0, 1, 255, 256, 65535, 65536, 200000]
CALL = st.fixed_dictionaries(dict(
    how=st.sampled_from(["sync", "sync", "callback", "future", "oneway"]), trace=TRACE, method=METHOD, app=gen.TEXT,
    uid=gen.TEXT, extra=EXTRA, timeout=st.sampled_from([20000, 20000.5, 60000, 2 ** 31 - 1, 33333.25]),
    notime=st.booleans(), raises=st.sampled_from([False, False, True]), body=gen.payload(SIZES, 20), result=gen.payload(SIZES, 20), eager=st.sampled_from([False, False, True])))
NOISE = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("dup"), i=st.integers(0, 30), same=st.booleans())),
    st.fixed_dictionaries(dict(kind=st.just("unknown"), id=gen.INT32, status=st.sampled_from([0, 0, 1, 7]),
                               cmd=st.sampled_from([2, 2, 0]), content=st.binary(max_size=8))),
    st.fixed_dictionaries(dict(kind=st.just("near"), i=st.integers(0, 30), bit=st.integers(0, 31),
                               cmd=st.sampled_from([2, 2, 0]), status=st.sampled_from([0, 0, 7]))),
    st.fixed_dictionaries(dict(kind=st.just("old"), i=st.integers(0, 30))))
ROUND = st.fixed_dictionaries(dict(
    calls=st.lists(CALL, min_size=1, max_size=7), perm=st.lists(st.integers(0, 1000), max_size=8),
    noise=st.lists(st.tuples(st.integers(0, 8), NOISE).map(list), max_size=4),
    cuts=st.lists(st.integers(0, 400000), max_size=6), small=st.lists(st.integers(0, 150), max_size=8),
    pause=st.booleans()))
CASE = st.fixed_dictionaries(dict(rounds=st.lists(ROUND, min_size=1, max_size=3)))


class Job:
    def __init__(self, inf, c):
        self.c = c
        self.ctx = context(c["trace"])
        self.tok = new_token()
        self.body = gen.tagged(self.tok + b"|", c["body"])
        self.want = b"" if c["result"] == b"" else gen.tagged(b"r:" + self.tok, c["result"])
        self.calls = []     # what the callback got
        self.event = threading.Event()
        self.frame = None
        self.fut = None
        kw = dict(self.c["extra"])
        kw.update(spanctx=self.ctx, target_app=c["app"], uid=c["uid"])
        self.timeout = c["timeout"]
        if c["how"] in ("callback", "future") and c["notime"] or c["how"] == "oneway":
            self.timeout = None
        if c["how"] == "sync":
            self.call = Call(lambda: CLIENT.invoke_sync(inf, c["method"], self.body, timeout_ms=self.timeout, **kw))
        elif c["how"] == "oneway":
            self.call = Call(lambda: CLIENT.invoke_oneway(inf, c["method"], self.body, **kw))
        else:
            if self.timeout is not None:
                kw["timeout_ms"] = self.timeout
            if c["how"] == "callback":
                kw["callback"] = self.callback

            def start():
                self.fut = CLIENT.invoke_async(inf, c["method"], self.body, **kw)
            self.call = Call(start)

    def callback(self, content):
        self.calls.append(content)
        self.event.set()
        if self.c.get("raises"):
            raise ValueError("raised by a callback")

    def verify(self):
        how = self.c["how"]
        r, v = self.call.result()
        check(r != "hang", "a {} call whose response arrived does not return", how)
        check(r == "ok", "a {} call raised {!r}", how, v)
        if how == "oneway":
            return
        if how == "sync":
            got = v
        elif how == "callback":
            check(self.event.wait(WAIT), "the callback of a call was not called")
            got = self.calls[0]
        else:
            try:
                got = self.fut.result(WAIT).content
            except Exception as e:
                raise Violation("the future of a call raised {!r}".format(e))
        check(type(got) is bytes, "a {} call got {!r}", how, type(got))
        check(got == self.want, "a {} call got {!r}... ({} bytes), the response with its id carries {!r}... ({} bytes)", how,
              got[:30], len(got), self.want[:30], len(self.want))

    def once(self):
        if self.c["how"] == "callback":
            check(len(self.calls) == 1, "the callback of a call was called {} times", len(self.calls))


def run(c):
    hub = Hub()
    jobs, labels, done = [], set(), []
    try:
        for rnd in c["rounds"]:
            jobs_now = [Job(hub.interface, x) for x in rnd["calls"]]
            jobs += jobs_now
            bytok = {j.tok: j for j in jobs_now}
            conn = None
            pending = []
            ids = set()
            for _ in jobs_now:
                conn, f = hub.take("{} calls".format(len(jobs_now)))
                check(f.cmdcode == wire.CMD_REQUEST, "unexpected request {}", f)
                j = byte = bytok.get(token_of(f.content))
                check(j is not None, "a request that nobody made: {}", f)
                check(j.frame is None, "a request was sent twice: {}", f)
                j.frame, j.conn = f, conn
                check_frame(f, j.ctx, hub.interface, j.c, j.body,
                            wire.ONEWAY if j.c["how"] == "oneway" else wire.REQUEST, j.timeout)
                check(f.request_id not in ids, "two outstanding calls use the id {}", f.request_id)
                ids.add(f.request_id)
                if j.c["how"] == "oneway":
                    continue
                if j.c["eager"]:
                    conn.send(wire.response(f.request_id, content=j.want))
                    done.append(j)
                    labels.add("eager")
                else:
                    pending.append(j)
            order = []
            rest = list(pending)
            for p in rnd["perm"]:
                if rest:
                    order.append(rest.pop(p % len(rest)))
            order += rest
            if order != pending:
                labels.add("reordered")
            out = [(wire.response(j.frame.request_id, content=j.want), j) for j in order]
            frames = []
            for k in range(len(out) + 1):
                for at, n in rnd["noise"]:
                    if at % (len(out) + 1) != k:
                        continue
                    if n["kind"] == "unknown":
                        if n["id"] not in ids:
                            frames.append((conn, wire.response(n["id"], content=n["content"], status=n["status"],
                                                               cmdcode=n["cmd"])))
                            labels.add("unknown id")
                        continue
                    if n["kind"] == "near":
                        # an id that differs in one bit from the id of an outstanding call
                        if k < len(out):
                            rid = out[k + n["i"] % (len(out) - k)][1].frame.request_id ^ 1 << n["bit"]
                            rid -= (rid >> 31 & 1) << 32
                            if rid not in ids:
                                frames.append((conn, wire.response(rid, content=b"near", status=n["status"], cmdcode=n["cmd"])))
                                labels.add("near id")
                        continue
                    # a repeated response of this or an earlier round, maybe with another content
                    old = (done + [j for _, j in out[:k]]) if n["kind"] == "dup" else done
                    if old:
                        j = old[n["i"] % len(old)]
                        frames.append((j.conn, wire.response(j.frame.request_id, content=j.want if n.get("same") else b"dup")))
                        labels.add("repeated")
                if k < len(out):
                    frames.append((out[k][1].conn, out[k][0]))
            # by connection (there is one, unless the client uses several)
            streams = {}
            for cn, b in frames:
                streams.setdefault(cn, []).append(b)
            for cn, bs in streams.items():
                stream = b"".join(bs)
                cn.send_pieces(stream, rnd["cuts"] + rnd["small"], 0.0005 if rnd["pause"] else 0)
            for j in jobs_now:
                j.verify()
            done += order
            if len(jobs_now) > 1:
                labels.add("concurrent")
            if rnd["cuts"] or rnd["small"]:
                labels.add("fragmented")
        # nothing else was sent, and nobody is called again
        last = Job(hub.interface, dict(how="sync", trace=None, method="last", app="", uid="", extra=[], timeout=20000,
                                       body=b"", result=b"x"))
        conn, f = hub.take("the last call")
        check(token_of(f.content) == last.tok, "a request that nobody made (again?): {}", f)
        conn.send(wire.response(f.request_id, content=last.want))
        last.verify()
        for j in jobs:
            j.once()
        hub.nothing("at the end")
        hub.server.raise_errors()
    finally:
        hub.close()
    return "concurrent" in labels or bool(labels & {"reordered", "repeated", "unknown id"}), labels


def run_many(c):
    """many threads, the server answers in bunches backwards"""
    hub = Hub()
    lock = threading.Lock()
    got = []
    stop = []

    def server():
        batch = []
        while not stop:
            try:
                conn, f = hub.inbox.get(timeout=0.002)
            except Exception:
                conn = f = None
            if f is not None and not isinstance(f, Violation):
                batch.append((conn, f))
            if len(batch) >= c["bunch"] or (f is None and batch):
                for cn, f in reversed(batch):
                    try:
                        cn.send(wire.response(f.request_id, content=b"R" + f.content))
                    except OSError:
                        pass
                batch = []

    t = threading.Thread(target=server, daemon=True)
    t.start()

    def worker(k):
        for n in range(c["per"]):
            body = b"%d/%d|" % (k, n) + gen.expand(["pat", c["size"], (k * 7 + n) % 250])
            ctx = context(None)
            r = CLIENT.invoke_sync(hub.interface, "m", body, spanctx=ctx, timeout_ms=60000)
            if r != b"R" + body:
                with lock:
                    got.append((body[:20], bytes(r)[:20]))
        return c["per"]

    try:
        rs = net.calls([lambda k=k: worker(k) for k in range(c["threads"])], timeout=50)
        check(not got, "calls got the responses of others: {}", got[:3])
        for r, v in rs:
            check(r != "hang", "a call does not return")
            check(r == "ok", "a call raised {!r}", v)
    finally:
        stop.append(1)
        hub.close()
    return c["threads"] > 1, ["threads=%d" % c["threads"]]


EARLY = st.fixed_dictionaries(dict(
    calls=st.lists(st.fixed_dictionaries(dict(
        size=st.sampled_from([100, 70000, 4000000, 4000000, 7000000]), at=st.sampled_from([0, 0, 0.01, 0.5, 0.9, 1]),
        result=st.sampled_from([0, 10, 300000]))), min_size=1, max_size=4),
    together=st.booleans(), rcvbuf=st.sampled_from([None, 4096])))


def run_early(c):
    """a server that answers a request before it has read all of it"""
    plan, problems = {}, []
    labels = set()

    def script(conn):
        s = conn.s
        buf = bytearray()

        def fill(n):
            s.settimeout(60)
            while len(buf) < n:
                d = s.recv(1 << 18)
                if not d:
                    raise PeerGone("eof")
                buf.extend(d)

        while True:
            fill(22)
            cl, hl, bl = (int.from_bytes(buf[a:b], "big") for a, b in ((14, 16), (16, 18), (18, 22)))
            fill(22 + cl + hl)
            uid = wire.dec_map(bytes(buf[22 + cl:22 + cl + hl])).get("uid")
            if uid not in plan:
                problems.append("a request that nobody made: {!r}".format(uid))
                return
            x, want = plan[uid]
            fill(22 + cl + hl + int(bl * x["at"]))
            if len(buf) < 22 + cl + hl + bl:
                labels.add("early")
            conn.send(wire.response(int.from_bytes(buf[5:9], "big"), content=want))
            if len(buf) < 22 + cl + hl + bl:
                time.sleep(0.02)    # the response is there before the rest is read
            fill(22 + cl + hl + bl)
            if bytes(buf[22 + cl + hl:22 + cl + hl + bl]) != gen.expand(["pat", x["size"], 9]):
                problems.append("a request of {} bytes carries another content".format(bl))
            del buf[:22 + cl + hl + bl]

    server = FakeServer(script, rcvbuf=c["rcvbuf"])
    inf = "com.verif.c08early." + new_token().decode()
    SERVICE_MAP[inf] = tuple(server.addr)
    try:
        pending = []
        for x in c["calls"]:
            uid = new_token().decode()
            want = gen.tagged(uid.encode(), ["pat", x["result"], 3])
            plan[uid] = (x, want)
            body = gen.expand(["pat", x["size"], 9])
            pending.append((x, want, Call(lambda uid=uid, body=body: CLIENT.invoke_sync(
                inf, "m", body, spanctx=context(None), uid=uid, timeout_ms=60000))))
            if not c["together"]:
                pending[-1][2].done.wait(WAIT)
        for x, want, call in pending:
            r, v = call.result()
            check(r != "hang", "a call of {} bytes that was answered after {} of them does not return", x["size"], x["at"])
            check(r == "ok", "a call of {} bytes that was answered after {} of them raised {!r}", x["size"], x["at"], v)
            check(v == want, "a call got {!r}..., the response with its id carries {!r}...", v[:20], want[:20])
        check(not problems, "{}", problems)
    finally:
        server.close()
        SERVICE_MAP.pop(inf, None)
    return "early" in labels, labels


CROWD = st.fixed_dictionaries(dict(
    n=st.sampled_from([40, 65, 70, 130, 257, 300, 600, 1100]), hows=st.lists(st.sampled_from(["callback", "future"]), min_size=1, max_size=3),
    order=st.sampled_from(["same", "reverse", "stride", "random"]), seed=st.integers(0, 1000), unit=st.sampled_from([1, 7, 100, 10000]),
    sizes=st.lists(st.sampled_from([0, 1, 30, 3000]), min_size=1, max_size=3)))


def run_crowd(c):
    """hundreds of calls that wait at the same time, answered in any order"""
    n = c["n"]
    problems, frames = [], []

    def script(conn):
        while len(frames) < n:
            f = conn.request(60)
            if f is None:
                return
            frames.append(f)
        order = list(range(n))
        if c["order"] == "reverse":
            order.reverse()
        elif c["order"] == "stride":
            order = [k for r in range(7) for k in range(r, n, 7)]
        elif c["order"] == "random":
            random.Random(c["seed"]).shuffle(order)
        if len({f.request_id for f in frames}) != n:
            problems.append("two of {} outstanding calls use the same id".format(n))
        buf, units = b"", 0
        for k in order:
            buf += wire.response(frames[k].request_id, content=b"R" + frames[k].content)
            units += 1
            if units % c["unit"] == 0:
                conn.send(buf)
                buf = b""
        conn.send(buf)
        conn.request(60)

    server = FakeServer(script)
    inf = "com.verif.c08crowd." + new_token().decode()
    SERVICE_MAP[inf] = tuple(server.addr)
    try:
        bodies, futs, got = [], [], {}
        for k in range(n):
            body = gen.tagged(b"%d|" % k, ["pat", c["sizes"][k % len(c["sizes"])], k % 250])
            bodies.append(body)
            kw = dict(spanctx=context(None), timeout_ms=60000)
            if c["hows"][k % len(c["hows"])] == "callback":
                kw["callback"] = lambda content, k=k: got.setdefault(k, []).append(content)
            futs.append(CLIENT.invoke_async(inf, "m", body, **kw))
        for k, f in enumerate(futs):
            try:
                v = f.result(WAIT * 2).content
            except Exception as e:
                check(not problems, "{}", problems)
                raise Violation("one of {} outstanding calls, the one sent as number {}, raised {!r}; {} requests arrived".format(n, k, e, len(frames)))
            check(v == b"R" + bodies[k], "one of {} outstanding calls got {!r}..., the response with its id carries {!r}...", n, v[:20],
                  (b"R" + bodies[k])[:20])
            if c["hows"][k % len(c["hows"])] == "callback":
                check(net.wait_until(lambda: k in got), "the callback of one of {} outstanding calls was not called", n)
                check(got[k] == [b"R" + bodies[k]], "the callback of one of {} outstanding calls got {!r}", n, [x[:20] for x in got[k]])
        check(not problems, "{}", problems)
        check(sorted(bytes(f.content) for f in frames) == sorted(bodies), "the requests of {} outstanding calls carry other contents", n)
    finally:
        server.close()
        SERVICE_MAP.pop(inf, None)
    return n > 64, ["n=%d" % n, c["order"]]


MANY = st.fixed_dictionaries(dict(threads=st.integers(2, 12), per=st.integers(1, 15), bunch=st.integers(1, 6),
                                  size=st.sampled_from([0, 10, 5000, 70000])))
ASSUMPTIONS = ["the peer is a fake server that speaks through the reference codec"]
FACETS = [
    Facet("rounds", CASE, run, quick=250, thorough=5000, setup=setup, teardown=teardown, retries=3,
          rule="1-3 rounds of up to 7 concurrent calls (blocking, callback, future, oneway) on one client; responses permuted, "
               "repeated, mixed with unknown ids, cut into pieces; non-trivial = concurrent calls or disturbed responses"),
    Facet("early", EARLY, run_early, quick=25, thorough=500, setup=setup, teardown=teardown, retries=3,
          rule="1-4 calls, some of them larger than all buffers, answered after a generated part of the request has been read; "
               "non-trivial = answered before the request was there"),
    Facet("crowd", CROWD, run_crowd, quick=16, thorough=200, setup=setup, teardown=teardown, retries=3,
          rule="40-1100 calls outstanding at once on one connection, answered in a generated order; non-trivial = more than 64"),
    Facet("threads", MANY, run_many, quick=15, thorough=200, setup=setup, teardown=teardown, retries=5,
          rule="threads calling at once, answered backwards in bunches"),
    Facet("schedules", CASE, run, quick=60, thorough=1200, retries=5, rule="as rounds, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("schedules, threads", MANY, run_many, quick=6, thorough=80, retries=5, rule="as threads, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
] + patience.facets(patience.client(AioClient), "servers")
