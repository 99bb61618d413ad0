"""C17: pool manager: one live pool per address, bounded, closed when evicted."""
import asyncio
import collections
import threading

from hypothesis import strategies as st
from mysockpool.exceptions import ClosedPoolError

from .. import gen, pools
from ..core import Facet, Violation, check
from ..jitter import Jitter

PEERS = []


def setup():
    PEERS[:] = [pools.Peer("127.0.0.%d" % (k % 3 + 1)) for k in range(6)]


def teardown():
    for p in PEERS:
        p.close()


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


# how a scope may end
ENDS = dict(Boom=Boom, BaseBoom=BaseBoom, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit,
            GeneratorExit=GeneratorExit, StopIteration=StopIteration, CancelledError=asyncio.CancelledError,
            AttributeError=AttributeError, NameError=NameError, OSError=OSError)


K = st.integers(0, 5)
OP = gen.mix(
    *[st.fixed_dictionaries(dict(op=st.just("pool"), k=K))] * 4,
    *[st.fixed_dictionaries(dict(op=st.just("scope"), k=K, exc=st.one_of(st.none(), st.sampled_from(sorted(ENDS))),
                                 inside=st.lists(K, max_size=3), clear=st.sampled_from([False, False, False, True])))] * 3,
    st.fixed_dictionaries(dict(op=st.just("take"), k=K)),
    st.fixed_dictionaries(dict(op=st.just("give"), i=K)),
    st.just(dict(op="clear")),
    st.fixed_dictionaries(dict(op=st.just("with"), k=K, exc=st.sampled_from([None, None] + sorted(x for x in ENDS if x)))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["poolfail", "scopefail"]), k=K)),
)
CASE = st.fixed_dictionaries(dict(
    size=st.integers(1, 5), initial=st.integers(0, 2), ctx=st.booleans(),
    ops=st.sampled_from([4, 10, 25]).flatmap(lambda n: st.lists(OP, min_size=n, max_size=n + 8))))


class Model:
    def __init__(self, size):
        self.size, self.d, self.gone = size, collections.OrderedDict(), []

    def use(self, k, pool):
        """:return: is it a new pool?"""
        if k in self.d:
            self.d.move_to_end(k)
            return False
        self.d[k] = pool
        while len(self.d) > self.size:
            self.gone.append(self.d.popitem(last=False)[1])
        return True

    def clear(self):
        self.gone.extend(self.d.values())
        self.d.clear()


def key(w, k):
    return w.Conn.PoolKeyCls(*PEERS[k].addr)


def alive(pool):
    return pool.pool is not None


def run(c):
    w = pools.World()
    labels = set()
    taken = []      # (pool, conn)
    allpools = []
    try:
        man = w.Manager(c["size"], initial_connections=c["initial"], max_free_connections=4, min_free_connections=0)
        m = Model(c["size"])

        def ask(k, what):
            n = len(w.conns)
            # a freshly made key: equal addresses are the same address
            pool = man.connection_pool_from_pool_key(w.Conn.PoolKeyCls(*PEERS[k].addr))
            old = m.d.get(k)
            new = m.use(k, pool)
            if new:
                check(all(pool is not p for p in allpools), "{}: a pool that was given up came back", what)
                allpools.append(pool)
                check(len(w.conns) == n + c["initial"], "{}: a new pool opened {} connections, want {}", what,
                      len(w.conns) - n, c["initial"])
            else:
                check(pool is old, "{}: address {} has another pool now, though it was not evicted", what, k)
                check(len(w.conns) == n, "{}: an existing pool opened connections", what)
                labels.add("same")
            check(tuple(pool.pool_key) == PEERS[k].addr, "{}: pool for {} instead of {}", what, pool.pool_key,
                  PEERS[k].addr)
            return pool

        def settle(what):
            check(len(man.pools) == len(m.d) <= c["size"], "{}: {} pools, want {} (maximum {})", what, len(man.pools),
                  len(m.d), c["size"])
            for p in m.gone:
                check(not alive(p), "{}: the evicted pool {} is not closed", what, p)
                labels.add("evicted")
            for p in m.d.values():
                check(alive(p), "{}: pool {} is closed though in use", what, p)
            out = {id(x) for _, x in taken}
            want = sum(p.pool.qsize() for p in m.d.values())
            idle = [x for x in w.open() if id(x) not in out]
            check(len(idle) == want, "{}: {} connections open and not in use, {} of them in live pools", what, len(idle),
                  want)

        for i, o in enumerate(c["ops"]):
            op = o["op"]
            what = "step {} {}".format(i, op)
            if op == "pool":
                ask(o["k"], what)
            elif op == "clear":
                man.clear()
                m.clear()
                labels.add("clear")
            elif op == "with":
                # the manager itself as a context: it is cleared however the block ends
                boom = ENDS[o["exc"]]() if o["exc"] else None
                try:
                    with man as entered:
                        check(entered is man, "{}: entering the manager gave {!r}", what, entered)
                        ask(o["k"], what)
                        if boom is not None:
                            raise boom
                    check(boom is None, "{}: the exception raised in the block disappeared", what)
                except Violation:
                    raise
                except BaseException as e:
                    check(e is boom, "{}: {!r} raised in the block became {!r}", what, boom, e)
                m.clear()
                labels.add("with")
            elif op == "poolfail":
                if o["k"] in m.d or not c["initial"]:
                    continue
                w.fail = 1
                try:
                    man.connection_pool_from_pool_key(key(w, o["k"]))
                    raise Violation("{}: a pool whose connections cannot be made was handed out".format(what))
                except OSError:
                    check(w.fail == 0, "{}: failed without connecting", what)
                finally:
                    w.fail = 0
                labels.add("pool failed")
            elif op == "scopefail":
                pool = ask(o["k"], what)
                while pool.pool.qsize():
                    taken.append((pool, pool.get_conn()))
                num = pool.num_connections
                w.fail = 1
                try:
                    with man.connection_scope(key(w, o["k"])):
                        raise Violation("{}: entered a scope whose connection cannot be made".format(what))
                except OSError:
                    check(w.fail == 0, "{}: failed without connecting", what)
                finally:
                    w.fail = 0
                check((pool.pool.qsize(), pool.num_connections) == (0, num), "{}: {} idle (count {}), before 0 (count {})", what,
                      pool.pool.qsize(), pool.num_connections, num)
                labels.add("scope failed")
            elif op == "take":
                pool = ask(o["k"], what)
                taken.append((pool, pool.get_conn()))
            elif op == "give":
                if not taken:
                    continue
                pool, conn = taken.pop(o["i"] % len(taken))
                room = alive(pool) and pool.pool.qsize() < 4
                pool.put_conn(conn)
                check(pools.is_open(conn) == room, "{}: a returned connection is {}, its pool is {}", what,
                      "open" if pools.is_open(conn) else "closed", "live" if alive(pool) else "closed")
            else:
                pool = ask(o["k"], what)
                qs = pool.pool.qsize()
                num = pool.num_connections
                boom = ENDS[o["exc"]]() if o["exc"] else None
                try:
                    with man.connection_scope(key(w, o["k"])) as conn:
                        check(pools.is_open(conn) and tuple(conn.pool_key) == PEERS[o["k"]].addr,
                              "{}: the scope gave a wrong or closed connection", what)
                        check(all(conn is not x for _, x in taken), "{}: the scope gave a connection in use", what)
                        taken.append((pool, conn))
                        for k in o["inside"]:
                            ask(k, what + " (inside)")
                        if o["clear"]:
                            man.clear()
                            m.clear()
                        settle(what + " (inside)")
                        if boom is not None:
                            raise boom
                    check(boom is None, "{}: the exception raised in the scope disappeared", what)
                except Violation:
                    raise
                except BaseException as e:
                    check(e is boom, "{}: {!r} raised in the scope became {!r}", what, boom, e)
                    labels.add("scope raised")
                taken.pop()
                if alive(pool):
                    check(pools.is_open(conn), "{}: the connection was closed when the scope ended", what)
                    check((pool.pool.qsize(), pool.num_connections) == (max(qs, 1), num + (qs == 0)),
                          "{}: after the scope {} idle (count {}), before {} (count {})", what, pool.pool.qsize(),
                          pool.num_connections, qs, num)
                    again = pool.get_conn()
                    check(again is conn, "{}: the connection of the scope is not reused", what)
                    pool.put_conn(again)
                else:
                    labels.add("evicted during the scope")
                    check(not pools.is_open(conn), "{}: the connection of a closed pool stays open", what)
            settle(what)
        if c["ctx"]:
            try:
                with man as same:
                    check(same is man, "with gave another object")
                    raise Boom()
            except Boom:
                pass
            m.clear()
            settle("leaving the manager")
            labels.add("left")
        for p in m.gone:
            try:
                p.get_conn()
                raise Violation("an evicted pool handed out a connection")
            except ClosedPoolError:
                pass
    finally:
        w.close(*PEERS)
    return bool(labels - {"same"}), labels


def run_threads(c):
    w = pools.World()
    w.slow = True
    errors = []
    try:
        man = w.Manager(c["size"], initial_connections=1, max_free_connections=8, min_free_connections=0,
                        max_connections=50)
        start = threading.Barrier(len(c["threads"]))
        got = []
        over = []

        def t(ops):
            start.wait()
            try:
                for k in ops:
                    pool = man.connection_pool_from_pool_key(key(w, k))
                    got.append((k, pool))
                    if len(man.pools) > c["size"]:
                        over.append(1)
                    try:
                        with man.connection_scope(key(w, k)) as conn:
                            if tuple(conn.pool_key) != PEERS[k].addr:
                                raise Violation("a connection to another address")
                    except ClosedPoolError:
                        pass    # evicted by another thread in between
            except BaseException as e:
                errors.append(e)

        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=(ops,)) for ops in c["threads"]]
            [x.start() for x in ts]
            [x.join() for x in ts]
        if errors:
            raise errors[0]
        check(not over, "more than {} pools", c["size"])
        keys = {k for k, _ in got}
        per = {k: {id(p) for kk, p in got if kk == k} for k in keys}
        if len(keys) <= c["size"]:
            for k in keys:
                check(len(per[k]) == 1, "{} threads asking for one address got {} pools", len(c["threads"]), len(per[k]))
        # pools that are no longer the manager's are closed
        live = {id(p) for p in {id(p): p for _, p in got}.values() if alive(p)}
        check(len(live) <= c["size"], "{} live pools, maximum {}", len(live), c["size"])
        man.clear()
        check(not any(alive(p) for _, p in got), "a pool survives the clearing")
        check(not w.open(), "{} connections stay open after clearing", len(w.open()))
    finally:
        w.close(*PEERS)
    return True, ["threads=%d" % len(c["threads"]), "evicting" if len(keys) > c["size"] else "fits"]


THREADS = st.fixed_dictionaries(dict(
    size=st.integers(1, 6), jitter=gen.JITTER, threads=st.lists(st.lists(K, min_size=1, max_size=8), min_size=2, max_size=6)))

ASSUMPTIONS = [gen.INTERLEAVINGS]
FACETS = [
    Facet("history", CASE, run, quick=500, thorough=8000, setup=setup, teardown=teardown,
          rule="histories of pool requests, scopes (nested requests, exceptions, clearing inside), taking, giving back and "
               "clearing, compared with an LRU model and the open sockets; non-trivial = an eviction, clear or scope"),
    Facet("threads", THREADS, run_threads, quick=150, thorough=2500, setup=setup, teardown=teardown, retries=20,
          rule="2-6 threads asking for pools and scopes"),
]
