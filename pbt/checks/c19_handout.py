"""C19: a pooled connection is handed to one user at a time, alive and clean."""
import threading

from hypothesis import strategies as st
from mysockpool.exceptions import EmptyPoolError

from .. import gen, pools
from ..core import Facet, check
from ..jitter import Jitter
from ..net import many_files, readable_now

def exchange(peer, conn, token):
    """bytes sent on the connection arrive, and the answer comes back, unmixed with anything older"""
    side = peer.side(conn)
    side.settimeout(15)
    conn.send(token)
    got = b""
    while len(got) < len(token):
        d = side.recv(len(token) - len(got))
        check(d, "the connection handed out is dead")
        got += d
    check(got == token, "sent {!r}, the peer got {!r}", token, got)
    side.sendall(token[::-1])
    back = conn.recvexactly(len(token))
    check(back == token[::-1], "the peer answered {!r}, read {!r}", token[::-1], back)


I = st.integers(0, 30)
OP = gen.mix(
    *[st.just(dict(op="get"))] * 5,
    *[st.fixed_dictionaries(dict(op=st.just("put"), i=I))] * 5,
    st.fixed_dictionaries(dict(op=st.sampled_from(["drop idle", "data idle", "shut idle", "drop all idle"]), i=I)),
    st.fixed_dictionaries(dict(op=st.sampled_from(["drop held", "data held", "close held", "reset idle"]), i=I)),
    st.fixed_dictionaries(dict(op=st.just("use"), i=I)),
)
CASE = st.fixed_dictionaries(dict(
    initial=st.integers(0, 3), max_free=st.integers(3, 6), min_free=st.integers(0, 2), max=st.sampled_from([20, 20, 6]),
    ops=st.sampled_from([5, 12, 30]).flatmap(lambda n: st.lists(OP, min_size=n, max_size=n + 10))))


def run(c):
    import socket
    import struct
    w = pools.World()
    peer = pools.Peer()
    labels = set()
    try:
        pool = w.Pool(w.Conn.PoolKeyCls(*peer.addr), initial_connections=c["initial"], max_connections=c["max"],
                      max_free_connections=c["max_free"], min_free_connections=c["min_free"])
        held = []       # connections
        bad = {}        # number -> what is wrong with it
        idle = set(x.no for x in w.conns)
        uses = 0
        for i, o in enumerate(c["ops"]):
            op = o["op"]
            what = "step {} {}".format(i, op)
            if op == "get":
                before = len(w.conns)
                idle_before = set(idle)
                bad_idle = [k for k in idle if k in bad]
                try:
                    conn = pool.get_conn()
                except EmptyPoolError:
                    # what is still idle is no longer known: the pool may have lost a connection (C18)
                    labels.add("refused")
                    break
                check(all(conn is not h for h in held), "{}: a connection in use was handed out again", what)
                check(conn.no not in bad, "{}: handed out a connection that is unusable ({})", what, bad.get(conn.no))
                check(pools.is_open(conn), "{}: handed out a closed connection", what)
                check(not readable_now(conn.sock), "{}: handed out a connection with unread bytes or closed by the peer",
                      what)
                created = [x.no for x in w.conns[before:]]
                if idle_before and not bad_idle:
                    check(conn.no in idle_before, "{}: opened a connection although healthy ones are idle", what)
                    labels.add("reused")
                if bad_idle:
                    labels.add("bad idle")
                idle |= set(created)
                idle.discard(conn.no)
                held.append(conn)
                uses += 1
                exchange(peer, conn, b"%d/%d" % (conn.no, uses))
            elif op == "put":
                if not held:
                    continue
                conn = held.pop(o["i"] % len(held))
                pool.put_conn(conn)
                if pools.is_open(conn) or conn.no in bad:
                    idle.add(conn.no)
            elif op == "use":
                if held:
                    conn = held[o["i"] % len(held)]
                    if conn.no not in bad:
                        uses += 1
                        exchange(peer, conn, b"%d/%d" % (conn.no, uses))
            else:
                kind, _, where = op.rpartition(" ")
                targets = sorted(idle) if where == "idle" else sorted(h.no for h in held)
                targets = [k for k in targets if k not in bad]
                if not targets:
                    continue
                if kind != "drop all":
                    targets = [targets[o["i"] % len(targets)]]
                for k in targets:
                    conn = w.conns[k]
                    side = peer.side(conn)
                    if kind == "data":
                        side.sendall(b"leftover")
                    elif kind == "shut":
                        side.shutdown(socket.SHUT_WR)
                    elif kind == "close":
                        conn.close()
                    elif kind == "reset":
                        side.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        side.close()
                    else:
                        side.close()
                    if kind != "close":
                        pools.settle(conn, True)
                    bad[k] = kind
                labels.add(kind)
            # idle connections: no more than the pool says
            idle = {k for k in idle if pools.is_open(w.conns[k]) or k in bad}
    finally:
        w.close()
        peer.close()
    return bool(labels), labels


def run_threads(c):
    w = pools.World()
    w.slow = True
    peer = pools.Peer()
    errors = []
    owner = {}
    try:
        pool = w.Pool(w.Conn.PoolKeyCls(*peer.addr), initial_connections=c["initial"], max_connections=40,
                      max_free_connections=c["max_free"], min_free_connections=c["min_free"])
        start = threading.Barrier(len(c["threads"]))

        def t(no, ops):
            start.wait()
            try:
                held = []
                for j, op in enumerate(ops):
                    if op == "get":
                        conn = pool.get_conn()
                        prev = owner.setdefault(conn.no, no)
                        check(prev == no and all(conn is not h for h in held),
                              "a connection held by thread {} was handed to thread {}", prev, no)
                        check(pools.is_open(conn), "handed out a closed connection")
                        held.append(conn)
                    elif op == "use":
                        for h in held:
                            exchange(peer, h, b"%d.%d;" % (no, j))
                    elif held:
                        h = held.pop(0)
                        if op == "break":
                            side = peer.side(h)
                            side.close()
                            pools.settle(h, True)
                        del owner[h.no]
                        pool.put_conn(h)
                for h in held:
                    del owner[h.no]
                    pool.put_conn(h)
            except BaseException as e:
                errors.append(e)

        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=a) for a in enumerate(c["threads"])]
            [x.start() for x in ts]
            [x.join() for x in ts]
        if errors:
            raise errors[0]
    finally:
        w.close()
        peer.close()
    return True, ["threads=%d" % len(c["threads"]), "breaks=%d" % min(3, sum(t.count("break") for t in c["threads"]))]


THREADS = st.fixed_dictionaries(dict(
    initial=st.integers(0, 3), max_free=st.integers(3, 6), min_free=st.integers(0, 2), jitter=gen.JITTER,
    threads=st.lists(st.lists(st.sampled_from(["get", "get", "use", "put", "put", "break"]), min_size=2, max_size=6),
                     min_size=2, max_size=6)))

ASSUMPTIONS = ["a connection is returned at most once per hand-out",
               gen.INTERLEAVINGS]
FACETS = [
    Facet("history", CASE, run, quick=700, thorough=8000,
          rule="histories of get, put, use, and peers that close, reset, half-close or send unasked, on idle and held "
               "connections; each connection handed out is checked and used; non-trivial = a reuse or a fault"),
    Facet("many files", CASE, many_files(run), quick=25, thorough=300,
          rule="the same histories in a process with more than 1024 open files"),
    Facet("threads", THREADS, run_threads, quick=150, thorough=2000, retries=20,
          rule="2-6 threads with an ownership table"),
]
