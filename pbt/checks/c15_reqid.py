"""C15: request ids are unique, non-negative 31-bit numbers, and wrap around."""
import contextlib
import importlib
import importlib.machinery
import random
import sys
import threading
from unittest import mock

from hypothesis import strategies as st

from .. import gen, wire
from ..core import Facet, Violation, check
from ..jitter import Jitter

MAX = 0x7fffffff


@contextlib.contextmanager
def fresh(start):
    """a freshly imported copy of the library whose random start of the id sequence is `start`"""
    import anthunder  # noqa: F401   its dependencies stay imported
    names = [n for n in sys.modules if n == "anthunder" or n.startswith("anthunder.")]
    old = {n: sys.modules.pop(n) for n in names}

    def randint(a, b):
        return min(max(start, a), b)

    try:
        with mock.patch("random.randint", randint), \
                mock.patch("random.randrange", lambda a, b=None, *s: randint(a if b is not None else 0,
                                                                            (b if b is not None else a) - 1)), \
                mock.patch("random.getrandbits", lambda k: start & ((1 << k) - 1)):
            yield (importlib.import_module("anthunder.helpers.request_id").RequestId,
                   importlib.import_module("anthunder.protocol"),
                   importlib.import_module("anthunder.command.heartbeat"))
    finally:
        for n in [n for n in sys.modules if n == "anthunder" or n.startswith("anthunder.")]:
            del sys.modules[n]
        sys.modules.update(old)


def draw(kind, env):
    ids, proto, hb = env
    if kind == "raw":
        return next(ids)
    if kind == "heartbeat":
        m = hb.HeartbeatRequest.new_request()
    else:
        h = proto.SofaHeader(service="s")
        if kind == "oneway":
            from anthunder.protocol.constants import PTYPE
            m = proto.BoltRequest.new_request(h, b"x", ptype=PTYPE.ONEWAY, timeout_ms=-1)
        else:
            m = proto.BoltRequest.new_request(h, b"x", timeout_ms=100)
    rid = m.request_id
    f = wire.parse_exact(m.to_stream(), "request")
    check(f.request_id == rid, "id {} is sent as {}", rid, f.request_id)
    return rid


def run_seq(c):
    start = c["start"]
    with fresh(start) as env:
        got = [draw(k, env) for k in c["kinds"] * c["rep"]]
    for a in got:
        check(isinstance(a, int) and 0 <= a <= MAX, "request id {!r} is not a 31-bit non-negative number", a)
    check(len(set(got)) == len(got), "request ids repeat: {}", got)
    for a, b in zip(got, got[1:]):
        if a == MAX:
            check(b == 0, "after the largest id comes {}, not 0", b)
        elif b < a:
            raise Violation("the sequence starts over after {}, before the whole range is used".format(a))
    wrapped = MAX in got and got.index(MAX) < len(got) - 1
    return len(got) > 1, ["wrapped" if wrapped else "not wrapped", "kinds=%d" % len(set(c["kinds"]))]


KIND = st.sampled_from(["raw", "request", "oneway", "heartbeat"])
SEQ = st.fixed_dictionaries(dict(
    start=st.one_of(st.integers(MAX - 40, MAX), st.integers(MAX - 3, MAX), st.integers(0, 3), st.integers(0, MAX)),
    kinds=st.lists(KIND, min_size=1, max_size=12), rep=st.integers(1, 8)))


def run_threads(c):
    res = [None] * c["threads"]
    start = threading.Barrier(c["threads"])
    with fresh(c["start"]) as env:
        def t(k):
            start.wait()
            res[k] = [draw(c["kinds"][j % len(c["kinds"])], env) for j in range(c["n"])]

        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=(k,)) for k in range(c["threads"])]
            [x.start() for x in ts]
            [x.join() for x in ts]
    check(all(r is not None for r in res), "drawing an id failed in a thread")
    ids = [x for r in res for x in r]
    check(len(set(ids)) == len(ids), "{} duplicates among {} ids drawn by {} threads", len(ids) - len(set(ids)),
          len(ids), c["threads"])
    check(all(0 <= x <= MAX for x in ids), "id out of range")
    return True, ["threads=%d" % c["threads"]]


THREADS = st.fixed_dictionaries(dict(
    start=st.one_of(st.integers(MAX - 500, MAX), st.integers(0, MAX)), threads=st.integers(2, 8), n=st.integers(1, 300), jitter=gen.JITTER,
    kinds=st.lists(KIND, min_size=1, max_size=3)))


def run_long(c):
    """many ids in a row"""
    with fresh(c["start"]) as env:
        got = [next(env[0]) for _ in range(c["n"])]
    check(len(set(got)) == len(got), "request ids repeat within {} draws", len(got))
    check(min(got) >= 0 and max(got) <= MAX, "id out of range: {} {}", min(got), max(got))
    return True, []


LONG = st.fixed_dictionaries(dict(start=st.one_of(st.integers(MAX - 100000, MAX), st.integers(0, MAX)),
                                  n=st.sampled_from([70000, 140000])))

class Scaled:
    """imports anthunder.helpers with every constant that stands for the end of the range (2**31 - 1, 2**31) replaced by
    that of a smaller one, so that the whole range can be used up. The rest of the code runs as it is."""

    def __init__(self, m):
        self.map = {MAX: m, MAX + 1: m + 1}
        self.hits = 0

    def scale(self, code):
        consts = []
        for k in code.co_consts:
            if hasattr(k, "co_code"):
                k = self.scale(k)
            elif type(k) is int and k in self.map:
                self.hits += 1
                k = self.map[k]
            consts.append(k)
        return code.replace(co_consts=tuple(consts))

    def __enter__(self):
        real = importlib.machinery.SourceFileLoader.get_code

        def get_code(loader, name):
            code = real(loader, name)
            return self.scale(code) if name.startswith("anthunder.helpers") else code

        self.patch = mock.patch.object(importlib.machinery.SourceFileLoader, "get_code", get_code)
        self.patch.start()
        return self

    def __exit__(self, *a):
        self.patch.stop()


def run_cycle(c):
    """the whole (smaller) range is used several times"""
    m = 2 ** c["bits"] - 1
    start = c["start"] % (m + 1)
    with Scaled(m) as sc, fresh(start) as env:
        if not sc.hits:
            return False, ["the end of the range is no constant"]
        got = [next(env[0]) for _ in range((m + 1) * c["rounds"] + c["more"])]
    check(min(got) >= 0 and max(got) <= m, "id out of range: {} {}", min(got), max(got))
    for k in range(0, len(got), m + 1):
        part = got[k:k + m + 1]
        check(len(set(part)) == len(part), "with {} as the largest id and {} as the first, an id is given out again before "
              "all were used: {}", m, start, part[:100])
    for a, b in zip(got, got[1:]):
        check(b == 0 or a != m, "with {} as the largest id and {} as the first, {} follows {}", m, start, b, a)
    return True, ["rounds=%d" % c["rounds"]]


CYCLE = st.fixed_dictionaries(dict(bits=st.integers(3, 10), start=st.one_of(st.integers(0, 3), st.integers(0, 1023)),
                                   rounds=st.integers(1, 3), more=st.integers(0, 20)))

ASSUMPTIONS = ["the start of the sequence is drawn from the random module when the library is imported",
               gen.INTERLEAVINGS]
FACETS = [
    Facet("sequence", SEQ, run_seq, quick=150, thorough=3000,
          rule="ids drawn in every mix of message kinds from a fresh library whose random start is chosen, often close "
               "to the wrap-around; non-trivial = at least two ids"),
    Facet("cycle", CYCLE, run_cycle, quick=60, thorough=1000,
          rule="a copy of the library in which the largest id is 7 to 1023 instead of 2**31 - 1: the whole range is used "
               "one to three times"),
    Facet("threads", THREADS, run_threads, quick=60, thorough=600, retries=20,
          rule="2-8 threads draw ids, often across the wrap-around"),
    Facet("long", LONG, run_long, quick=10, thorough=100, rule="70000 or 140000 ids in a row"),
]
