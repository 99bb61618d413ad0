"""C18: connection pool: limits and counts are kept."""
import threading

from hypothesis import strategies as st
from mysockpool.exceptions import ClosedPoolError, EmptyPoolError

from .. import gen, pools
from ..core import Facet, Violation, check
from ..jitter import Jitter

LEAK = "topup-at-maximum"

OP = gen.mix(
    *[st.just(dict(op="get"))] * 5,
    *[st.fixed_dictionaries(dict(op=st.just("put"), i=st.integers(0, 30)))] * 4,
    st.fixed_dictionaries(dict(op=st.sampled_from(["kill", "data"]), i=st.integers(0, 30))),
    st.fixed_dictionaries(dict(op=st.just("putclosed"), i=st.integers(0, 30))),
    st.fixed_dictionaries(dict(op=st.just("getfail"), n=st.integers(1, 2))),
)
LIMITS = st.tuples(st.integers(0, 6), st.integers(1, 8), st.integers(0, 4), st.integers(0, 4)).map(
    lambda t: dict(max_free=max(t[0], 1), max=max(t[1], t[2]), initial=min(t[2], max(t[0], 1)), min_free=t[3]))
CASE = st.fixed_dictionaries(dict(limits=LIMITS, close=st.sampled_from([False, True, "with"]),
                                  ops=st.sampled_from([4, 10, 25]).flatmap(lambda n: st.lists(OP, min_size=n, max_size=n + 10))))

def make(w, lim, peer):
    key = w.Conn.PoolKeyCls(*peer.addr)
    return w.Pool(key, initial_connections=lim["initial"], max_connections=lim["max"],
                  max_free_connections=lim["max_free"], min_free_connections=lim["min_free"])


class End(Exception):
    pass


class State:
    def __init__(self, c, w, pool):
        self.c, self.w, self.pool, self.held, self.leaked = c, w, pool, [], 0

    def invariant(self, what):
        w, pool, lim = self.w, self.pool, self.c["limits"]
        idle = pool.pool.qsize()
        check(pool.num_connections == len(self.held) + idle + self.leaked,
              "after {}: the count is {}, handed out {}, idle {}", what, pool.num_connections, len(self.held), idle)
        check(idle <= lim["max_free"], "after {}: {} idle connections, configured {}", what, idle, lim["max_free"])
        n = len(w.open())
        check(n <= lim["max"], "after {}: {} connections open, maximum {}", what, n, lim["max"])
        check(pool.num_connections <= lim["max"], "after {}: count {} above the maximum", what, pool.num_connections)
        dead = [h for h in self.held if h[1] == "closed"]
        # every connection open is handed out or idle (or lost by the known finding)
        check(n <= len(self.held) - len(dead) + idle + self.leaked,
              "after {}: {} connections open, but only {} handed out and {} idle", what, n,
              len(self.held) - len(dead), idle)


def run(c, strict=False):
    w = pools.World()
    peer = pools.Peer()
    lim = c["limits"]
    labels = set()
    leak = None
    try:
        pool = make(w, lim, peer)
        s = State(c, w, pool)
        check(len(w.conns) == lim["initial"] and pool.pool.qsize() == lim["initial"],
              "{} connections created initially, {} idle, want {}", len(w.conns), pool.pool.qsize(), lim["initial"])
        s.invariant("creation")
        for i, o in enumerate(c["ops"]):
            op = o["op"]
            what = "step {} {}".format(i, op)
            if op in ("get", "getfail"):
                before = (pool.pool.qsize(), pool.num_connections, len(w.open()))
                w.fail = o.get("n", 0)
                try:
                    conn = pool.get_conn()
                except EmptyPoolError:
                    w.fail = 0
                    labels.add("refused")
                    check(before[1] >= lim["max"] or op == "getfail", "{}: refused although only {} of {} connections exist",
                          what, before[1], lim["max"])
                    if (pool.pool.qsize() == before[0] - 1 and pool.num_connections == before[1] == lim["max"]
                            and before[0] >= 1 and before[0] - 1 < lim["min_free"]):
                        # exactly the known finding: an idle connection was taken out and lost
                        leak = leak or Violation("{}: refused, and an idle connection and its slot are lost".format(what),
                                                 key=LEAK)
                        s.leaked += 1
                    else:
                        check((pool.pool.qsize(), pool.num_connections) == before[:2],
                              "{}: a refused attempt changed idle/count from {} to {}", what, before[:2],
                              (pool.pool.qsize(), pool.num_connections))
                except OSError:
                    check(op == "getfail", "{}: failed", what)
                    w.fail = 0
                    labels.add("creation failed")
                    # dropped idle connections may have been discarded on the way
                    check(pool.num_connections == len(s.held) + pool.pool.qsize() + s.leaked,
                          "{}: after a failed creation the count is {}, handed out {}, idle {}", what,
                          pool.num_connections, len(s.held), pool.pool.qsize())
                else:
                    w.fail = 0
                    check(all(conn is not h[0] for h in s.held), "{}: handed out twice", what)
                    s.held.append([conn, "ok"])
                    if len(s.held) >= lim["max"]:
                        labels.add("all out")
            elif op in ("put", "putclosed"):
                if not s.held:
                    continue
                conn, state = s.held.pop(o["i"] % len(s.held))
                if op == "putclosed":
                    conn.close()
                full = pool.pool.qsize() >= lim["max_free"]
                pool.put_conn(conn)
                if full:
                    labels.add("surplus")
                    check(not pools.is_open(conn), "{}: the surplus connection stays open", what)
                elif op == "put" and state == "ok":
                    check(pools.is_open(conn), "{}: a returned connection was closed although there is room", what)
            elif op in ("kill", "data"):
                if not s.held:
                    continue
                h = s.held[o["i"] % len(s.held)]
                side = peer.side(h[0])
                if h[1] == "ok":
                    h[1] = op
                    if op == "kill":
                        side.close()
                    else:
                        side.sendall(b"x")
                    pools.settle(h[0], True)
                    labels.add("peer " + op)
            s.invariant(what)
        if c["close"]:
            n = len(w.conns)
            if c["close"] == "with":
                # the pool as a context: it is closed however the block ends
                try:
                    with pool as entered:
                        check(entered is pool, "entering the pool gave {!r}", entered)
                        raise End()
                except End:
                    pass
                else:
                    raise Violation("the exception raised in the block disappeared")
            else:
                pool.close()
            labels.add("closed")
            still = [x for x in w.open() if all(x is not h[0] for h in s.held)]
            check(len(still) <= s.leaked, "closing the pool left idle connections open: {}", still)
            for conn, _ in s.held:
                check(pools.is_open(conn), "closing the pool closed a connection in use")
            try:
                pool.get_conn()
                raise Violation("a closed pool handed out a connection")
            except ClosedPoolError:
                pass
            check(len(w.conns) == n, "a closed pool created a connection")
            for conn, _ in s.held:
                pool.put_conn(conn)
                check(not pools.is_open(conn), "a connection returned to a closed pool stays open")
    finally:
        w.close()
        peer.close()
    if leak is not None:
        if strict:
            raise leak
        labels.add("known leak")
    return bool(labels), labels


def run_leak(c):
    """the known finding, on its own"""
    return run(dict(limits=dict(max_free=4, max=c["max"], initial=c["initial"], min_free=c["min_free"]), close=False,
                    ops=[dict(op="get")] * 12), strict=True)


def run_threads(c):
    w = pools.World()
    w.slow = True
    peer = pools.Peer()
    lim = dict(c["limits"], min_free=c["limits"]["min_free"] if c["topup"] else 0)
    errors, over = [], []
    try:
        pool = make(w, lim, peer)
        start = threading.Barrier(len(c["threads"]))
        refused = [0]
        closed = threading.Event()

        def t(ops):
            held = []
            start.wait()
            try:
                for no, op in enumerate(ops):
                    if ops is c["threads"][0] and no == c["close"]:
                        pool.close()
                        closed.set()
                    was = closed.is_set()
                    if op == "get":
                        try:
                            held.append(pool.get_conn())
                            check(not was, "a closed pool handed out a connection")
                        except EmptyPoolError:
                            refused[0] += 1
                        except ClosedPoolError:
                            check(c["close"] is not None, "the pool was not closed, but is reported to be")
                    elif held:
                        h = held.pop(0)
                        pool.put_conn(h)
                        check(not was or not pools.is_open(h), "a connection returned to a closed pool stays open")
                    n = pool.num_connections
                    if not 0 <= n <= lim["max"]:
                        over.append(n)
                for h in held:
                    pool.put_conn(h)
            except BaseException as e:
                errors.append(e)

        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=(ops,)) for ops in c["threads"]]
            [x.start() for x in ts]
            [x.join() for x in ts]
        for e in errors:
            raise e
        check(not over, "the count reached {}, maximum {}", over[:1], lim["max"])
        if closed.is_set():
            check(not w.open() or lim["min_free"] and len(w.open()) <= refused[0],
                  "the pool was closed and all returned, but {} connections stay open", len(w.open()))
            return True, ["threads=%d" % len(c["threads"]), "closed"]
        idle = pool.pool.qsize()
        check(idle <= lim["max_free"], "{} idle connections, configured {}", idle, lim["max_free"])
        # with a minimum of idle connections the known leak may have struck at each refusal
        slack = refused[0] if lim["min_free"] else 0
        check(idle <= pool.num_connections <= idle + slack, "all returned: count {}, idle {}", pool.num_connections, idle)
        check(len(w.open()) <= idle + slack, "all returned: {} connections open, {} idle", len(w.open()), idle)
        check(len(w.open()) <= lim["max"], "{} connections open, maximum {}", len(w.open()), lim["max"])
    finally:
        w.close()
        peer.close()
    return True, ["threads=%d" % len(c["threads"]), "refused" if refused[0] else "never refused"]


THREADS = st.fixed_dictionaries(dict(
    limits=LIMITS, topup=st.booleans(), jitter=gen.JITTER, close=st.sampled_from([None, None, 0, 1, 3, 8]),
    threads=st.lists(st.lists(st.sampled_from(["get", "get", "put"]), min_size=1, max_size=20), min_size=2, max_size=6)))

ASSUMPTIONS = ["non-blocking pools whose initial connections fit their limits",
               gen.INTERLEAVINGS]
FACETS = [
    Facet("history", CASE, run, quick=600, thorough=10000,
          rule="histories of get, put, put of a closed connection, peer closing or sending, failing creation, and close; "
               "counts and open sockets checked after each step; non-trivial = a limit, a fault or the end of the pool "
               "was reached"),
    Facet("threads", THREADS, run_threads, quick=150, thorough=3000, retries=20,
          rule="2-6 threads getting and putting, and one of them may close the pool"),
    Facet("topup", st.fixed_dictionaries(dict(max=st.integers(2, 8), initial=st.integers(1, 2), min_free=st.integers(1, 4))),
          run_leak, quick=10, thorough=50,
          rule="the known finding: topping up idle connections at the maximum"),
]
