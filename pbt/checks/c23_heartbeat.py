"""C23: heartbeats: answered truthfully, sent periodically, surviving failures."""
import asyncio
import queue
import socket
import threading
import time

from anthunder import AioClient, SERVICE_MAP
from anthunder.listener import AioListener
from hypothesis import strategies as st

from .. import gen, net, wire
from ..clients import Call, Hub, check_frame, context, make_client, new_token, token_of
from ..core import Facet, HarnessError, Violation, check
from ..jitter import schedules
from ..mesh import Mesh
from ..net import WAIT, RawConn
from .c06_resilience import BADHEADER

CLIENT = LSN = None
INF = "com.verif.c23:1.0"


class Service:
    gate = threading.Event()

    def __init__(self, ctx):
        pass

    def run(self, body):
        if bytes(body).startswith(b"held"):
            self.gate.wait(40)
        return b"r" + bytes(body)


def setup():
    global CLIENT, LSN, ADDR
    CLIENT = make_client(AioClient)
    LSN, ADDR = net.start_listener(AioListener)
    LSN.handler.register_interface(INF, Service)
    SERVICE_MAP[INF] = tuple(ADDR)


def teardown():
    LSN.shutdown()
    SERVICE_MAP.pop(INF, None)


def heartbeat(client, addr):
    """:return: a Call of invoke_heartbeat in the loop of the client"""
    return Call(lambda: asyncio.run_coroutine_threadsafe(client.invoke_heartbeat(tuple(addr)), client._loop).result(60))


def check_heartbeat(f):
    check(f.proto == 1 and f.ver2 == 1 and f.codec == wire.PROTOBUF and f.ptype == wire.REQUEST and not f.content and
          not f.header_bytes, "malformed heartbeat {}", f)


# ------------------------------------------------------------------------------------------------ heartbeat calls
FATE = gen.mix(
    st.fixed_dictionaries(dict(fate=st.just("ok"))), st.fixed_dictionaries(dict(fate=st.just("ok"))),
    st.fixed_dictionaries(dict(fate=st.just("status"), status=st.sampled_from(sorted(set(wire.STATUSES.values()) - {0})))),
    st.fixed_dictionaries(dict(fate=st.just("bad header"), header=BADHEADER)),
    st.fixed_dictionaries(dict(fate=st.just("bad status"), status=st.sampled_from([99, 255, -1]))))
OP = gen.mix(
    FATE.map(lambda f: dict(f, kind="hb")), FATE.map(lambda f: dict(f, kind="hb")), FATE.map(lambda f: dict(f, kind="hb")),
    st.fixed_dictionaries(dict(kind=st.just("call"), status=st.sampled_from([0, 0, 0, 2, 7]), body=gen.payload([0, 300, 70000], 9))))
CALLS = st.fixed_dictionaries(dict(
    ops=st.lists(OP, min_size=1, max_size=7), perm=st.lists(st.integers(0, 30), max_size=8),
    strays=st.lists(st.integers(0, 7), max_size=2), end=st.sampled_from(["", "", "", "fin", "reset", "refused"]),
    cuts=st.lists(st.integers(0, 300), max_size=4)))


EACH = [dict(ops=[dict(kind="hb", fate="status", status=s)], perm=[], strays=[], end="", cuts=[])
        for s in sorted(set(wire.STATUSES.values()) - {0})]


def run_calls(c):
    hub = Hub()
    addr = hub.server.addr
    labels = set()
    jobs = []
    waiting = {}
    try:
        for o in c["ops"]:
            if o["kind"] == "hb":
                jobs.append([o, heartbeat(CLIENT, addr), None])
            else:
                tok = new_token()
                body = gen.tagged(tok + b"|", o["body"])
                jobs.append([o, Call(lambda body=body: CLIENT.invoke_sync(hub.interface, "run", body, spanctx=context(None),
                                                                          timeout_ms=60000)), tok])
            # one by one, so that it is known which heartbeat is whose
            conn, f = hub.take(o["kind"])
            if o["kind"] == "hb":
                check(f.cmdcode == wire.CMD_HEARTBEAT, "a heartbeat was sent as {}", f)
                check_heartbeat(f)
            else:
                check(f.cmdcode == wire.CMD_REQUEST and f.content == body, "a call was sent as {}", f)
            check(f.request_id not in waiting, "two outstanding requests have the id {}", f.request_id)
            waiting[f.request_id] = (conn, jobs[-1])
        order = list(waiting)
        for p in c["perm"]:
            order.append(order.pop(p % len(order)))
        n = len(order) if not c["end"] else len(order) // 2
        stream = b""
        for k, rid in enumerate(order[:n]):
            conn, (o, call, tok) = waiting[rid]
            for s in c["strays"]:
                if s == k:
                    # an answer that belongs to nobody
                    sid = (rid + 17) % 2 ** 31
                    if sid not in waiting:
                        stream += wire.heartbeat_ack(sid)
            if o["kind"] == "call":
                stream += wire.response(rid, content=b"r" + tok, status=o["status"])
            elif o["fate"] == "bad header":
                stream += wire.response(rid, o["header"], b"", cmdcode=wire.CMD_HEARTBEAT, class_name=b"")
            else:
                stream += wire.heartbeat_ack(rid, o.get("status", 0))
        conns = {id(x[0]): x[0] for x in waiting.values()}
        check(len(conns) == 1, "the requests of one client to one address use {} connections", len(conns))
        conn = list(conns.values())[0]
        conn.send_pieces(stream, c["cuts"])
        for rid in order[:n]:
            verify(waiting[rid][1], labels)
        if c["end"] == "fin":
            conn.close()
        elif c["end"]:
            conn.reset()
        if c["end"]:
            for rid in order[n:]:
                o, call, tok = waiting[rid][1]
                r, v = call.result()
                check(r == "raise" or r == "ok" and v is False and o["kind"] == "hb",
                      "a {} whose connection was lost before its answer: {} {!r}", o["kind"], r, v)
                labels.add("connection lost")
        if c["end"] == "refused":
            hub.close()
            r, v = heartbeat(CLIENT, addr).result()
            check(r == "raise" or r == "ok" and v is False, "a heartbeat that is refused: {} {!r}", r, v)
            labels.add("refused")
            return True, labels
        # later ones
        call = heartbeat(CLIENT, addr)
        conn, f = hub.take("a heartbeat")
        check(f.cmdcode == wire.CMD_HEARTBEAT, "a heartbeat was sent as {}", f)
        conn.send(wire.heartbeat_ack(f.request_id))
        verify([dict(kind="hb", fate="ok"), call, None], labels)
        hub.nothing("at the end")
        hub.server.raise_errors()
    finally:
        hub.close()
    return True, labels


def verify(job, labels):
    o, call, tok = job
    r, v = call.result()
    if o["kind"] == "call":
        labels.add("call")
        if o["status"] == 0:
            check(r == "ok" and v == b"r" + tok, "a call next to heartbeats: {} {!r}", r, v)
        else:
            check(r == "raise", "a failed call next to heartbeats: {} {!r}", r, v)
        return
    labels.add("heartbeat " + o["fate"])
    what = "a heartbeat answered with {}".format({k: v for k, v in o.items() if k in ("fate", "status")})
    check(r != "hang", "{} does not return", what)
    if o["fate"] == "ok":
        check(r == "ok" and v is True, "{}: {} {!r}", what, r, v)
    elif o["fate"] == "status":
        check(r == "ok" and v is False, "{}: {} {!r}", what, r, v)
    else:
        check(r == "raise" or v is False, "{} (undecodable): {} {!r}", what, r, v)


# ------------------------------------------------------------------------------------------------ listener
REAL = st.fixed_dictionaries(dict(ops=st.lists(st.sampled_from(["hb", "hb", "held", "call", "raw"]), min_size=1, max_size=12)))


def run_real(c):
    """heartbeats of the client answered by the listener, next to calls that are being executed"""
    Service.gate = threading.Event()
    raw = RawConn(ADDR)
    held = []
    labels = set(c["ops"])
    try:
        for k, o in enumerate(c["ops"]):
            if o == "hb":
                r, v = heartbeat(CLIENT, ADDR).result()
                check(r == "ok" and v is True, "a heartbeat to a listener ({} calls being executed): {} {!r}", len(held), r, v)
            elif o == "raw":
                check(not raw.ping(k), "unexpected response")
            else:
                body = (b"held" if o == "held" else b"call") + b"%d" % k
                call = Call(lambda body=body: CLIENT.invoke_sync(INF, "run", body, spanctx=context(None), timeout_ms=60000))
                held.append((body, call))
                if o == "call":
                    held.pop()
                    r, v = call.result()
                    check(r == "ok" and v == b"r" + body, "a call next to heartbeats: {} {!r}", r, v)
        Service.gate.set()
        for body, call in held:
            r, v = call.result()
            check(r == "ok" and v == b"r" + body, "a call next to heartbeats: {} {!r}", r, v)
    finally:
        Service.gate.set()
        raw.close()
    return "hb" in labels or "raw" in labels, labels


# ------------------------------------------------------------------------------------------------ the series
class Loop(asyncio.SelectorEventLoop):
    """an event loop whose clock can be put forward"""
    ahead = 0.0

    def time(self):
        return super().time() + self.ahead


class Policy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = Loop


BEAT = gen.mix(
    *[st.fixed_dictionaries(dict(fate=st.sampled_from(["ok", "ok", "silent"]))), FATE] +
    [st.fixed_dictionaries(dict(fate=st.sampled_from(["fin", "reset", "fin at once", "half"])))] +
    [st.fixed_dictionaries(dict(fate=st.just("refused"), n=st.integers(1, 4)))])
SERIES = st.fixed_dictionaries(dict(
    beats=st.lists(st.fixed_dictionaries(dict(beat=BEAT, calls=st.lists(st.sampled_from(["mesh", "other"]), max_size=2),
                                              held=st.booleans())), min_size=1, max_size=6)))
STEP = 30.0


def run_series(c):
    """a client that is attached to a mesh; its clock is put forward by the interval"""
    hub = Hub(interface="")
    addr = tuple(hub.server.addr)
    other = Hub()
    labels = set()
    old = asyncio.get_event_loop_policy()
    address = AioClient.mesh_service_address
    client = None
    inf = "com.verif.c23." + new_token().decode()      # not configured: goes to the mesh
    open_calls = []
    beats = advances = 0
    try:
        AioClient.mesh_service_address = addr
        with Mesh():
            asyncio.set_event_loop_policy(Policy())
            try:
                client = AioClient("verif")
            finally:
                asyncio.set_event_loop_policy(old)
        loop = client._loop
        if not isinstance(loop, Loop):
            raise HarnessError("the client does not use the given event loop")

        def begin(h, interface):
            """a call that has reached the server"""
            for k in range(100):
                body = new_token() + b"|"
                call = Call(lambda: client.invoke_async(interface, "run", body, spanctx=context(None)).result(60).content)
                end = time.monotonic() + WAIT
                while time.monotonic() < end:
                    try:
                        conn, f = h.inbox.get(timeout=0.02)
                    except queue.Empty:
                        # a call may be lost that is sent before the client notices that the connection is closed
                        if h is hub and unsure and call.done.is_set():
                            check(call.box[0][0] == "raise", "a call that the server did not see returned {!r}", call.box[0][1])
                            break
                        continue
                    if isinstance(f, Violation):
                        raise f
                    if f is None:
                        continue
                    if h is hub and f.cmdcode == wire.CMD_HEARTBEAT:
                        early.append((conn, f))     # kept for later
                        continue
                    check(f.cmdcode == wire.CMD_REQUEST and f.content == body, "a call was sent as {}", f)
                    if h is hub:
                        unsure.clear()
                    return conn, f, call, body
                else:
                    break
            raise Violation("a call next to heartbeats does not reach the server {}".format(after))

        def finish(conn, f, call, body):
            conn.send(wire.response(f.request_id, content=b"r" + body))
            r, v = call.result()
            check(r == "ok" and v == b"r" + body, "a call next to heartbeats: {} {!r}", r, v)

        def begin_to(where):
            return begin(hub, inf) if where == "mesh" else begin(other, other.interface)

        early, unsure = [], set()

        def advance():
            nonlocal advances
            advances += 1

            def _a():
                loop.ahead += STEP
            loop.call_soon_threadsafe(_a)
            loop.call_soon_threadsafe(lambda: None)

        def next_beat(what):
            nonlocal beats
            if not early:
                for k in range(60):
                    advance()
                    try:
                        conn, f = hub.inbox.get(timeout=0.02 + 0.02 * k)
                    except Exception:
                        continue
                    if isinstance(f, Violation):
                        raise f
                    if f is None:
                        continue
                    check(f.cmdcode == wire.CMD_HEARTBEAT, "a request that nobody made: {}", f)
                    early.append((conn, f))
                    break
                else:
                    raise Violation("no heartbeat for {} intervals {}".format(k + 1, what))
            beats += 1
            check(beats <= advances + 1, "{} heartbeats in {} intervals", beats, advances)
            conn, f = early.pop(0)
            check_heartbeat(f)
            return conn, f

        after = "after the start"
        for x in c["beats"]:
            b = x["beat"]
            for where in x["calls"]:
                finish(*begin_to(where))
                labels.add("calls")
            lost = b["fate"] in ("fin", "reset", "fin at once", "half", "refused")
            if x["held"]:
                # a call that waits for its response while the heartbeat is answered or fails
                open_calls.append(begin_to("other" if lost else "mesh"))
                labels.add("call outstanding")
            if b["fate"] == "refused":
                hub.close()
                for k in range(b["n"]):
                    advance()
                    time.sleep(0.01)
                for k in range(50):
                    try:
                        hub = Hub(addr=addr, interface="")
                        break
                    except OSError:
                        time.sleep(0.05)
                else:
                    raise HarnessError("port is gone")
                early[:] = []
                beats, advances = 0, advances + 1
            else:
                conn, f = next_beat(after)
                if b["fate"] == "ok":
                    conn.send(wire.heartbeat_ack(f.request_id))
                elif b["fate"] == "status" or b["fate"] == "bad status":
                    conn.send(wire.heartbeat_ack(f.request_id, b["status"]))
                elif b["fate"] == "bad header":
                    conn.send(wire.response(f.request_id, b["header"], b"", cmdcode=wire.CMD_HEARTBEAT, class_name=b""))
                elif b["fate"] == "fin":
                    conn.close()
                elif b["fate"] == "fin at once":
                    conn.send(wire.heartbeat_ack(f.request_id))
                    conn.close()
                elif b["fate"] == "half":
                    conn.s.shutdown(socket.SHUT_WR)
                elif b["fate"] == "reset":
                    conn.reset()
            labels.add("heartbeat " + b["fate"])
            if lost:
                unsure.add(1)
            after = "after one was answered with {}".format({k: v for k, v in b.items() if k != "header"})
            while open_calls:
                finish(*open_calls.pop())
        conn, f = next_beat(after)
        conn.send(wire.heartbeat_ack(f.request_id))
        finish(*begin_to("mesh"))
        finish(*begin_to("other"))
    finally:
        AioClient.mesh_service_address = address
        hub.close()
        other.close()
        if client is not None:
            client._loop.call_soon_threadsafe(client._loop.stop)
    return True, labels


EXACT = st.fixed_dictionaries(dict(
    rounds=st.lists(st.fixed_dictionaries(dict(status=st.sampled_from([0, 0, 1, 7, 18, "fin", "reset"]), calls=st.integers(0, 2),
                                               down=st.sampled_from([0, 0, 0, 1, 3, 4, 6]), end=st.sampled_from(["fin", "reset"]),
                                               part=st.lists(st.floats(0, 1), max_size=2))), min_size=1, max_size=4)))


def run_exact(c):
    """the time between heartbeats that are answered at once"""
    hub = Hub(interface="")
    addr = tuple(hub.server.addr)
    client = None
    labels = {"rounds=%d" % len(c["rounds"])}
    old = asyncio.get_event_loop_policy()
    address = AioClient.mesh_service_address
    inf = "com.verif.c23." + new_token().decode()
    try:
        AioClient.mesh_service_address = addr
        with Mesh():
            asyncio.set_event_loop_policy(Policy())
            try:
                client = AioClient("verif")
            finally:
                asyncio.set_event_loop_policy(old)
        loop = client._loop
        if not isinstance(loop, Loop):
            raise HarnessError("the client does not use the given event loop")
        beats = []

        def advance(dt):
            def _a():
                loop.ahead += dt
            loop.call_soon_threadsafe(_a)
            loop.call_soon_threadsafe(lambda: None)

        def round_trip():
            """a call; what the client received before is processed when it returns"""
            body = new_token() + b"|"
            call = Call(lambda: client.invoke_async(inf, "run", body, spanctx=context(None)).result(60).content)
            while True:
                conn, f = hub.take("a call next to heartbeats")
                if f.cmdcode == wire.CMD_HEARTBEAT:
                    beats.append((conn, f))
                    continue
                check(f.content == body, "a call was sent as {}", f)
                conn.send(wire.response(f.request_id, content=b"r" + body))
                break
            r, v = call.result()
            check(r == "ok" and v == b"r" + body, "a call next to heartbeats: {} {!r}", r, v)

        for k in range(60):
            advance(STEP)
            try:
                beats.append(hub.take("", timeout=0.02 + 0.02 * k))
                break
            except Violation:
                continue
        check(beats, "no heartbeat for 60 intervals")
        for x in c["rounds"]:
            conn, f = beats.pop()
            check(f.cmdcode == wire.CMD_HEARTBEAT, "a request that nobody made: {}", f)
            check_heartbeat(f)
            t0 = time.monotonic()
            if x["status"] in ("fin", "reset"):
                # it fails: the connection is lost; what follows uses another one
                labels.add("heartbeat fails")
                conn.reset() if x["status"] == "reset" else conn.close()
                time.sleep(0.15)
            else:
                conn.send(wire.heartbeat_ack(f.request_id, x["status"]))
            round_trip()
            round_trip()
            left = 25.0
            for p in x["part"]:
                advance(left * p)
                left -= left * p
                for _ in range(x["calls"]):
                    round_trip()
            advance(left)
            round_trip()
            round_trip()
            if time.monotonic() - t0 > 3:
                return False, ["too slow"]      # the real time that passed counts as well
            check(not beats, "heartbeats are sent more often than every 30 s")
            if x.get("down"):
                # the mesh goes away for some intervals: the series goes on as before when it is back
                labels.add("mesh away")
                if x["end"] == "reset":
                    conn.reset()
                hub.close()
                for _ in range(x["down"]):
                    advance(31)
                    time.sleep(0.03)
                for _ in range(50):
                    try:
                        hub = Hub(addr=addr, interface="")
                        break
                    except OSError:
                        time.sleep(0.05)
                else:
                    raise HarnessError("port is gone")
                for k in range(4):
                    # the first one may meet a timer that has not yet seen its last failure
                    advance(31)
                    try:
                        beats.append(hub.take("", timeout=WAIT if k == 3 else 1))
                        break
                    except Violation:
                        continue
                check(beats, "no heartbeat for 4 intervals after the mesh was away for {} and is back", x["down"])
                continue
            advance(6)
            beats.append(hub.take("a heartbeat, 31 s after the last one was answered with status %s" % x["status"]))
    finally:
        AioClient.mesh_service_address = address
        hub.close()
        if client is not None:
            client._loop.call_soon_threadsafe(client._loop.stop)
    return True, labels


ASSUMPTIONS = ["the interval is 30 s of the event loop's clock, which the harness puts forward",
               "whether an answer that cannot be decoded makes a heartbeat call false or an error is not fixed"]
FACETS = [
    Facet("calls", CALLS, run_calls, quick=250, thorough=6000, setup=setup, teardown=teardown, retries=3, examples=EACH,
          rule="1-7 heartbeats and calls on one connection, answered in a generated order with any status, undecodable, for "
               "unknown ids, connection lost or refused"),
    Facet("listener", REAL, run_real, quick=60, thorough=1500, setup=setup, teardown=teardown, retries=3,
          rule="heartbeats of client and raw peers to the listener while calls are being executed; non-trivial = a heartbeat"),
    Facet("series", SERIES, run_series, quick=60, thorough=1500, retries=3,
          rule="1-6 heartbeats of a client with a mesh, each answered, failed, refused, left silent or answered with the loss "
               "of the connection, ordinary calls in between and outstanding"),
    Facet("interval", EXACT, run_exact, quick=40, thorough=1000, retries=3,
          rule="1-4 heartbeats that are answered at once: the next one comes more than 25 s and at most 31 s later, "
               "and when the mesh was away for some intervals, within 4 intervals after it is back"),
    Facet("schedules", CALLS, run_calls, quick=50, thorough=1200, retries=5, rule="as calls, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
    Facet("schedules, listener", REAL, run_real, quick=15, thorough=300, retries=5, rule="as listener, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
]
