"""C20: socket connections send and receive exactly the given bytes."""
import socket
import struct
import threading
import time

from hypothesis import strategies as st
from mysockpool import wait_for_read, wait_for_write
from mysockpool.connection import SocketConnection

from .. import gen
from ..core import Facet, HarnessError, Violation, check
from ..net import WAIT, call, free_port, many_files

Key = SocketConnection.PoolKeyCls


def pair(c):
    """(connection under test, the peer's socket)"""
    with socket.socket() as l:
        if c.get("rcvbuf"):
            l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, c["rcvbuf"])
        l.bind(("127.0.0.1", 0))
        l.listen(1)
        conn = SocketConnection(Key(*l.getsockname()), blocking=c["blocking"])
        if c.get("sndbuf"):
            conn.sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, c["sndbuf"])
        l.settimeout(WAIT)
        try:
            peer, _ = l.accept()
        except socket.timeout:
            raise Violation("creating a connection does not connect")
    peer.settimeout(WAIT)
    peer.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return conn, peer


def as_kind(b, kind):
    return {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind](b)


def run_send(c):
    conn, peer = pair(c)
    msgs = [gen.expand(m) for m in c["msgs"]]
    want = b"".join(msgs)
    got = bytearray()
    stop_at = c["stop_at"] % (len(want) + 1) if c["stop_at"] is not None else None
    box = []

    def reader():
        try:
            k = 0
            while True:
                chunk, pause = c["reads"][k % len(c["reads"])]
                k += 1
                if pause and k < 40:
                    time.sleep(pause / 1000.0)
                n = chunk if stop_at is None else min(chunk, stop_at - len(got))
                if n == 0:
                    if c["reset"]:
                        peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    peer.close()
                    return
                d = peer.recv(n)
                if not d:
                    return
                got.extend(d)
        except BaseException as e:
            box.append(e)

    t = threading.Thread(target=reader, daemon=True)
    t.start()

    def send():
        for m in msgs:
            if c.get("piecewise"):
                # as with a socket: how much was taken is returned
                m = memoryview(m)
                while len(m):
                    n = conn.send(as_kind(m, c["type"]))
                    check(type(n) is int and 0 < n <= len(m), "sending {} bytes returned {}", len(m), n)
                    m = m[n:]
            else:
                conn.sendall(as_kind(m, c["type"]))

    try:
        r, v = call(send)
        check(r != "hang", "sending did not return although the peer {}", "reads" if stop_at is None else "closed")
        if stop_at is None:
            if r == "raise":
                if isinstance(v, Violation):
                    raise v
                raise Violation("sending {} bytes raised {!r} although the peer reads".format(len(want), v))
            conn.close()
            t.join(WAIT)
            check(not t.is_alive(), "closing the connection is not seen by the peer")
            if box:
                raise HarnessError("reader: %r" % box[0])
            check(bytes(got) == want, "{} bytes sent, {} arrived, first difference at {}", len(want), len(got),
                  next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))))
        else:
            t.join(WAIT)
            check(bytes(got) == want[:len(got)], "the peer read something that was not sent")
            if r == "raise":
                check(isinstance(v, (OSError, EOFError)), "sending to a closed peer raised {!r}", v)
    finally:
        conn.close()
        peer.close()
    return len(want) > 0, ["partial sends likely" if len(want) > 200000 else "small", "blocking=%s" % c["blocking"],
                           "peer closes" if stop_at is not None else "peer reads", c["type"]]


SEND = st.fixed_dictionaries(dict(
    blocking=st.sampled_from([False, False, True]), sndbuf=st.sampled_from([None, 2048, 8192]),
    rcvbuf=st.sampled_from([None, 2048, 16384]), type=st.sampled_from(["bytes", "bytes", "bytearray", "memoryview"]),
    msgs=st.lists(gen.payload([0, 1, 255, 4096, 65535, 65536, 300000, 1000000, 3000000]), min_size=1, max_size=3),
    reads=st.lists(st.tuples(st.sampled_from([1 << 16, 1 << 20, 1000, 30000]), st.sampled_from([0, 0, 1, 5])).map(list),
                   min_size=1, max_size=4),
    piecewise=st.sampled_from([False, False, True]),
    stop_at=gen.mix(st.none(), st.none(), st.none(), st.integers(0, 3000000)), reset=st.booleans()))


def run_recv(c):
    conn, peer = pair(c)
    data = gen.expand(c["data"])
    cuts = sorted(x % (len(data) + 1) for x in c["cuts"]) + [len(data)]
    total = len(data)

    def feed():
        pos = 0
        for k, x in enumerate(cuts):
            if x > pos:
                peer.sendall(data[pos:x])
                pos = x
                time.sleep(0.002 if k < 20 else 0)
        if c["end"] == "close":
            peer.shutdown(socket.SHUT_WR)
        elif c["end"] == "reset":
            # everything sent so far is read before the reset is seen, or not at all
            peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            peer.close()

    errs = []

    def feed_():
        try:
            feed()
        except BaseException as e:
            errs.append(e)

    t = threading.Thread(target=feed_, daemon=True)
    t.start()
    pos = 0
    labels = {c["end"]}
    try:
        for n in c["sizes"]:
            if c["end"] == "open" and pos + n > total:
                n = total - pos
            r, v = call(conn.recvexactly, n)
            check(r != "hang", "reading {} of the remaining {} bytes did not end ({})", n, total - pos, c["end"])
            if r == "raise":
                if c["end"] == "reset":
                    check(isinstance(v, (OSError, EOFError)), "reading after a reset raised {!r}", v)
                    labels.add("reset seen")
                    break
                check(c["end"] == "close" and n > total - pos, "reading {} of {} bytes raised {!r}", n, total - pos, v)
                check(isinstance(v, (OSError, EOFError)), "reading beyond the end raised {!r}", v)
                labels.add("end reached")
                break
            check(type(v) is bytes, "reading returned {}", type(v))
            check(n <= total - pos, "reading {} bytes returned {} although only {} were left", n, len(v), total - pos)
            check(bytes(v) == data[pos:pos + n], "reading {} bytes at {} returned {} bytes {!r}..., want {!r}...", n, pos,
                  len(v), bytes(v)[:20], data[pos:pos + n][:20])
            pos += n
        else:
            if c["end"] == "open" and pos < total:
                # nothing beyond was consumed
                r, v = call(conn.recvexactly, total - pos)
                check(r == "ok" and bytes(v) == data[pos:], "bytes after those read are missing or wrong: {} {!r}", r, v)
        t.join(WAIT)
    finally:
        conn.close()
        peer.close()
    return total > 0, labels | {"reads=%d" % len(c["sizes"]), "pieces=%d" % (len(cuts) // 4 * 4)}


SIZES = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 22, 20, 255, 256, 4096, 65536, 70000]))
BIGDATA = st.one_of(st.integers(0, 250).map(lambda k: ["pat", 2500000, k]), st.integers(0, 250).map(lambda k: ["pat", 5000001, k]))
BIGSIZES = st.sampled_from([0, 1, 22, 65536, 262144, 1000000, 1048575, 1048576, 1048577, 2000000, 3000000])
RECV = st.fixed_dictionaries(dict(
    blocking=st.sampled_from([False, False, True]), rcvbuf=st.sampled_from([None, 2048]),
    data=gen.payload([0, 1, 20, 100, 255, 256, 4096, 65536, 200000]), sizes=st.lists(SIZES, min_size=1, max_size=6),
    cuts=st.lists(st.integers(0, 200000), max_size=6), end=st.sampled_from(["open", "close", "close", "reset"])))
BIG = st.fixed_dictionaries(dict(
    blocking=st.sampled_from([False, False, True]), rcvbuf=st.sampled_from([None, None, 65536]), data=BIGDATA,
    sizes=st.lists(BIGSIZES, min_size=1, max_size=4), cuts=st.lists(st.integers(0, 5000000), max_size=4),
    end=st.sampled_from(["open", "close"])))


def call_kw(conn, data, limit):
    return conn.sendall(data, timeout=limit)


def run_stall(c):
    """a peer that never reads: with a time limit the call fails instead of blocking"""
    conn, peer = pair(c)
    try:
        r, v = call(call_kw, conn, gen.expand(["pat", c["n"], 7]), c["limit"] / 1000.0)
        check(r == "raise", "sending {} bytes to a peer that never reads: {} instead of a timeout", c["n"], r)
        check(isinstance(v, OSError), "sending to a peer that never reads raised {!r}", v)
    finally:
        peer.close()
        conn.close()
    return True, []


STALL = st.fixed_dictionaries(dict(blocking=st.just(False), sndbuf=st.just(4096), rcvbuf=st.just(4096),
                                   n=st.sampled_from([3000000, 9000000]), limit=st.sampled_from([30, 100])))


def run_wait(c):
    """exactly the sockets that are ready are reported"""
    socks, others, want_r, want_w = [], [], set(), set()
    try:
        for k, x in enumerate(c["socks"]):
            a, b = socket.socketpair()
            socks.append(a)
            others.append(b)
            if x in ("data", "full, data"):
                b.sendall(b"x")
                want_r.add(k)
            if x == "eof":
                b.shutdown(socket.SHUT_WR)
                want_r.add(k)
            if x.startswith("full"):
                a.setblocking(False)
                try:
                    while True:
                        a.send(b"y" * 65536)
                except BlockingIOError:
                    pass
            else:
                want_w.add(k)
        kind = dict(list=list, tuple=tuple)[c["kind"]]
        for what, fn, want in (("reading", wait_for_read, want_r), ("writing", wait_for_write, want_w)):
            timeout = 0.001 * c["ms"] if not want else c["timeout"]
            r, v = call(lambda: fn(kind(socks), timeout))
            check(r == "ok", "waiting for {}: {} {!r}", what, r, v)
            check(sorted(socks.index(x) for x in v) == sorted(want), "ready for {} are {}, reported {}", what, sorted(want),
                  [socks.index(x) for x in v])
            one = c["one"] % len(socks)
            r, v = call(lambda: fn(socks[one], 0.0))
            check(r == "ok" and bool(v) == (one in want), "waiting for one socket for {}: {} {!r}, ready: {}", what, r, v, one in want)
    finally:
        for x in socks + others:
            x.close()
    return len(c["socks"]) > 1, set(c["socks"])


WAITS = st.fixed_dictionaries(dict(
    socks=st.lists(st.sampled_from(["idle", "data", "eof", "full", "full, data"]), min_size=1, max_size=6),
    kind=st.sampled_from(["list", "tuple"]), timeout=st.sampled_from([0.0, 0.01, 10, None]), ms=st.sampled_from([0, 1, 5]),
    one=st.integers(0, 5)))


def run_refused(c):
    """a connection that cannot be established fails when it is used"""
    conn = SocketConnection(Key("127.0.0.1", free_port()), blocking=False)
    try:
        if c["op"] == "send":
            r, v = call(conn.sendall, b"x" * 100)
        else:
            r, v = call(conn.recvexactly, 1)
        check(r == "raise", "using a refused connection: {} {!r}", r, v)
        check(isinstance(v, (OSError, EOFError)), "using a refused connection raised {!r}", v)
    finally:
        conn.close()
    return True, [c["op"]]


def run_key(c):
    """only keys of the connection's own kind are accepted"""
    for k in (("127.0.0.1", 1), ["127.0.0.1", 1], None, "127.0.0.1:1"):
        try:
            SocketConnection(k)
        except ValueError:
            continue
        raise Violation("{!r} accepted as an address".format(k))
    return True, []


FACETS = [
    Facet("send", SEND, run_send, quick=150, thorough=2500,
          rule="1-3 messages up to 3 MB through small buffers to a peer that reads in generated chunks and pauses, or "
               "closes/resets at a generated offset; non-trivial = at least one byte"),
    Facet("recv", RECV, run_recv, quick=300, thorough=5000,
          rule="generated stream, cuts, sequence of read sizes, and end of the stream; non-trivial = at least one byte"),
    Facet("large", BIG, run_recv, quick=12, thorough=500,
          rule="as recv, with reads of up to 3 MB from streams of up to 5 MB"),
    Facet("many files", RECV, many_files(run_recv), quick=15, thorough=200,
          rule="as recv, in a process with more than 1024 open files"),
    Facet("many files, send", SEND, many_files(run_send), quick=10, thorough=150,
          rule="as send, in a process with more than 1024 open files"),
    Facet("stall", STALL, run_stall, quick=6, thorough=40, rule="a peer that never reads, and a time limit"),
    Facet("wait", WAITS, run_wait, quick=60, thorough=800, rule="1-6 sockets, idle, readable, at their end or full; non-trivial = several"),
    Facet("refused", st.fixed_dictionaries(dict(op=st.sampled_from(["send", "recv"]))), run_refused, quick=4,
          thorough=20, rule="refused connections"),
    Facet("key", st.just({}), run_key, quick=1, thorough=1, rule="invalid addresses"),
]
