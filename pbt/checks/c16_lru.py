"""C16: the LRU container is a bounded map that disposes each value exactly once."""
import collections
import threading

from hypothesis import strategies as st
from mysockpool.recently_used_container import RecentlyUsedContainer

from .. import gen
from ..core import Facet, Violation, check
from ..jitter import Jitter

KEY = st.integers(0, 6)
OP = gen.mix(
    *[st.fixed_dictionaries(dict(op=st.just("set"), k=KEY))] * 4,
    *[st.fixed_dictionaries(dict(op=st.sampled_from(["get", "getitem", "getdef"]), k=KEY))] * 3,
    st.fixed_dictionaries(dict(op=st.sampled_from(["del", "pop", "popdef", "setdefault", "in"]), k=KEY)),
    st.fixed_dictionaries(dict(op=st.sampled_from(["len", "keys", "iter"]), k=KEY)),
    st.fixed_dictionaries(dict(op=st.sampled_from(["clear", "update"]), k=KEY)),
)


class V:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "v%d" % self.n


class Model:
    def __init__(self, size):
        self.size, self.d, self.out = size, collections.OrderedDict(), []

    def read(self, k):
        v = self.d.pop(k)
        self.d[k] = v
        return v

    def set(self, k, v):
        if k in self.d:
            self.out.append(self.d.pop(k))
        self.d[k] = v
        while len(self.d) > self.size:
            self.out.append(self.d.popitem(last=False)[1])

    def delete(self, k):
        v = self.d.pop(k)
        self.out.append(v)
        return v


class Equal(V):
    """values that are equal to each other, as many are, and yet distinct"""
    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1

    def __bool__(self):
        return self.n % 2 == 0

    def __len__(self):
        return 0


ODD = [None, False, 0, "", KeyError, NotImplemented, Ellipsis]
ODDKEYS = [None, "", (), float("inf"), "k", b"k", KeyError]
VALUES = dict(plain=V, equal=Equal, odd=lambda n: ODD[n % len(ODD)])


def run_model(c):
    out = []
    kw = {} if c["size"] is None else dict(maxsize=c["size"])
    box = RecentlyUsedContainer(dispose_func=out.append if c["dispose"] else None, **kw)
    m = Model(10 if c["size"] is None else c["size"])
    miss = object()
    n = 0
    mk = VALUES[c.get("values", "equal" if c.get("equal") else "plain")]
    labels = set()
    key = ODDKEYS.__getitem__ if c.get("keys") == "odd" else int
    for i, o in enumerate(c["ops"]):
        op, k = o["op"], key(o["k"])
        try:
            if op == "set":
                v = mk(n)
                n += 1
                if len(m.d) >= m.size and k not in m.d:
                    labels.add("evict")
                if k in m.d:
                    labels.add("overwrite")
                m.set(k, v)
                box[k] = v
            elif op in ("get", "getitem", "getdef"):
                want = m.read(k) if k in m.d else miss
                if op == "getitem":
                    try:
                        got = box[k]
                    except KeyError:
                        got = miss
                else:
                    got = box.get(k, miss) if op == "getdef" else box.get(k)
                    if op == "get" and want is miss:
                        want = None
                check(got is want, "step {}: {}({}) gave {}, want {}", i, op, k, got, want)
                if want is not miss:
                    labels.add("hit")
            elif op in ("del", "pop", "popdef"):
                want = m.delete(k) if k in m.d else miss
                try:
                    if op == "del":
                        del box[k]
                        got = want if want is not miss else "deleted"
                    else:
                        got = box.pop(k, miss) if op == "popdef" else box.pop(k)
                except KeyError:
                    got = miss
                check(got is want, "step {}: {}({}) gave {}, want {}", i, op, k, got, want)
                if want is not miss:
                    labels.add("deleted")
            elif op == "setdefault":
                v = mk(n)
                n += 1
                if k in m.d:
                    want = m.read(k)
                else:
                    m.set(k, v)
                    want = v
                got = box.setdefault(k, v)
                check(got is want, "step {}: setdefault({}) gave {}, want {}", i, k, got, want)
            elif op == "in":
                # reading the key: as with any mapping made of __getitem__
                want = k in m.d
                check((k in box) == want, "step {}: {} in container is not {}", i, k, want)
                if want:
                    # whether a membership test counts as a use is left open: settle it
                    check(box.get(k) is m.read(k), "step {}: wrong value", i)
            elif op == "iter":
                try:
                    iter(box)
                    raise Violation("iterating did not raise")
                except NotImplementedError:
                    pass
            elif op == "clear":
                m.out.extend(m.d.values())
                m.d.clear()
                box.clear()
                labels.add("clear")
            elif op == "update":
                a, b = mk(n), mk(n + 1)
                n += 2
                m.set(k, a)
                k2 = key((o["k"] + 1) % 7)
                m.set(k2, b)
                box.update({k: a, k2: b})
        except Violation:
            raise
        check(len(box) == len(m.d), "step {} {}({}): {} entries, want {}", i, op, k, len(box), len(m.d))
        check(sorted(box.keys(), key=repr) == sorted(m.d, key=repr), "step {} {}({}): keys {}, want {}", i, op, k, box.keys(), list(m.d))
        if c["dispose"]:
            check(sorted(map(id, out)) == sorted(map(id, m.out)),
                  "step {} {}({}): disposed {}, want {}", i, op, k, out, m.out)
    # the rest of the recency order, seen through eviction
    order = list(m.d)
    for k in order:
        if m.size == 0:
            break
        while len(m.d) < m.size:
            x = ("fill", n)
            n += 1
            m.set(x, mk(n))
            box[x] = m.d[x]
        x = ("new", k)
        v = mk(n)
        n += 1
        m.set(x, v)
        box[x] = v
        check(sorted(map(str, box.keys())) == sorted(map(str, m.d)), "eviction order: after one more entry keys are {}, "
              "want {}", box.keys(), list(m.d))
    return bool(labels & {"evict", "overwrite", "deleted", "clear"}), labels


CASE = st.fixed_dictionaries(dict(
    size=st.one_of(st.integers(0, 6), st.none()), values=st.sampled_from(["plain", "plain", "equal", "odd"]), dispose=st.sampled_from([True, True, True, False]),
    keys=st.sampled_from(["plain", "plain", "odd"]),
    ops=st.sampled_from([3, 8, 20, 40]).flatmap(lambda n: st.lists(OP, min_size=n, max_size=n + 10))))


def run_threads(c):
    out = []
    box = RecentlyUsedContainer(c["size"], dispose_func=out.append)
    sets, errors, popped = [], [], []
    start = threading.Barrier(len(c["threads"]))
    over = []

    def t(no, ops):
        start.wait()
        try:
            for j, o in enumerate(ops * c["rep"]):
                k = o["k"]
                if o["op"] in ("set", "update", "setdefault"):
                    v = (no, j)
                    box[k] = v
                    sets.append(v)
                elif o["op"] in ("get", "getdef", "in"):
                    box.get(k)
                elif o["op"] == "getitem":
                    try:
                        box[k]
                    except KeyError:
                        pass
                elif o["op"] in ("del", "pop", "popdef"):
                    try:
                        del box[k]
                    except KeyError:
                        pass
                elif o["op"] == "clear":
                    box.clear()
                n = len(box)
                if n > c["size"]:
                    over.append(n)
                if o["op"] == "keys" and len(box.keys()) > c["size"]:
                    over.append("keys")
        except Exception as e:
            errors.append(e)

    with Jitter(**c["jitter"]):
        ts = [threading.Thread(target=t, args=a) for a in enumerate(c["threads"])]
        [x.start() for x in ts]
        [x.join() for x in ts]
    check(not errors, "an operation failed: {!r}", errors[:1])
    check(not over, "the container held {} entries, maximum {}", over[:1], c["size"])
    rest = [box[k] for k in box.keys()]
    check(sorted(out + rest) == sorted(sets), "values stored: {}, disposed: {}, still there: {}; lost {}, twice {}",
          len(sets), len(out), len(rest), list((collections.Counter(sets) - collections.Counter(out + rest)))[:5],
          list((collections.Counter(out + rest) - collections.Counter(sets)))[:5])
    return True, ["threads=%d" % len(c["threads"])]


THREADS = st.fixed_dictionaries(dict(
    size=st.integers(0, 5), rep=st.integers(1, 12), jitter=gen.JITTER,
    threads=st.lists(st.lists(OP, min_size=1, max_size=15), min_size=2, max_size=6)))

ASSUMPTIONS = [gen.INTERLEAVINGS]
FACETS = [
    Facet("model", CASE, run_model, quick=2000, thorough=30000,
          rule="operation sequences compared with an ordered-dict model after every step, then the remaining recency "
               "order probed by eviction; non-trivial = something was evicted, overwritten, deleted or cleared"),
    Facet("threads", THREADS, run_threads, quick=250, thorough=4000, retries=20,
          rule="2-6 threads of operations; bound never exceeded, every stored value disposed once or still there"),
]
