"""C14: new trace ids are unique."""
import contextlib
import ipaddress
import os
import socket
import threading
import time
from unittest import mock

from hypothesis import strategies as st
from mytracer import SpanContext, TraceId, new_span, tracer

from .. import gen
from ..core import Facet, check
from ..jitter import Jitter

# sequence numbers per millisecond
CAP = 8001


@contextlib.contextmanager
def world(clock, ip, pid):
    with mock.patch("time.time", clock), mock.patch("os.getpid", lambda: pid), \
            mock.patch("socket.gethostbyname", lambda h: ip), mock.patch("socket.gethostname", lambda: "host"):
        yield


def make(how):
    if how == "id":
        return str(TraceId())
    if how == "none":
        return str(TraceId(None))
    if how == "ctx":
        return str(SpanContext().baggage["sofaTraceId"])
    if how == "span":
        return str(new_span("op").context.baggage["sofaTraceId"])
    return str(tracer.extract("text_map", {}).baggage["sofaTraceId"])


def run_history(c):
    now = [c["t0"]]     # milliseconds
    clock = lambda: (now[0] + 0.25) / 1000.0
    ip, pid = c["ip"], c["pid"]
    out = []
    with world(clock, ip, pid):
        for burst in c["bursts"]:
            n = min(burst["n"], CAP)
            for k in range(n):
                out.append((make(burst["how"]), now[0]))
            # the clock never goes back; a new burst of up to CAP ids needs a new millisecond
            now[0] += max(burst["dt"], 1)
    ids = [x for x, _ in out]
    if len(set(ids)) != len(ids):
        seen = {}
        for x, t in out:
            check(x not in seen, "trace id {} given twice (at {} and {} ms)", x, seen.get(x), t)
            seen[x] = t
    tail = str(pid)
    for x, t in out:
        check(x[:8] == "%08x" % int(ipaddress.ip_address(ip)), "id {} does not start with address {} in hexadecimal", x,
              ip)
        check(x.endswith(tail), "id {} does not end with the process id {}", x, pid)
        mid = x[8:len(x) - len(tail)]
        ms = str(t)
        check(mid.startswith(ms), "id {} does not carry the time {}", x, ms)
        seq = mid[len(ms):]
        check(len(seq) == 4 and seq.isdigit(), "id {} has sequence {!r}, want four digits", x, seq)
    for x in ids[:3]:
        check(str(TraceId(x)) == x and TraceId(x) == TraceId(x), "a given id was changed")
    return len(ids) > 1, ["n=%d" % (len(ids) // 1000 * 1000)]


IP = st.one_of(st.sampled_from(["127.0.0.1", "0.0.0.0", "255.255.255.255", "1.0.0.0", "0.0.0.1", "10.0.0.9"]),
               st.ip_addresses(v=4).map(str))
HIST = st.fixed_dictionaries(dict(
    t0=st.sampled_from([1526000000000, 1526000000999, 1999999999999, 2 ** 31 * 1000 + 500]),
    ip=IP, pid=st.one_of(st.sampled_from([1, 9, 10, 99999, 4194304]), st.integers(1, 4194304)),
    bursts=st.lists(st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(1, 30), st.sampled_from([1, 2, 100, 1000, 7999, 8000, 8001])),
        dt=st.sampled_from([1, 2, 10, 1000]),
        how=st.sampled_from(["id", "id", "none", "ctx", "span", "extract"]))), min_size=1, max_size=5)))


def run_given(c):
    t = TraceId(c["id"])
    check(str(t) == c["id"], "given id {!r} became {!r}", c["id"], str(t))
    check((TraceId(c["id"]) == TraceId(c["other"])) == (c["id"] == c["other"]), "ids compare wrongly")
    check(TraceId(c["id"]) != c["id"], "a trace id equals a string")
    return True, []


GIVEN = st.fixed_dictionaries(dict(id=gen.TEXT, other=gen.TEXT))


def run_threads(c):
    now = c["t0"]
    res = [None] * c["threads"]
    start = threading.Barrier(c["threads"])

    def t(k):
        start.wait()
        res[k] = [str(TraceId()) for _ in range(c["n"] if not c["jitter"]["rate"] else 1 + c["n"] // 50)]

    with world(lambda: now, "10.1.2.3", 77):
        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=(k,)) for k in range(c["threads"])]
            [x.start() for x in ts]
            [x.join() for x in ts]
    ids = [x for r in res for x in r]
    check(len(set(ids)) == len(ids), "{} of {} ids drawn by {} threads in one millisecond are duplicates",
          len(ids) - len(set(ids)), len(ids), c["threads"])
    return True, ["threads=%d" % c["threads"]]


THREADS = st.integers(2, 8).flatmap(lambda k: st.fixed_dictionaries(dict(
    threads=st.just(k), jitter=gen.JITTER, n=st.one_of(st.just(CAP // k), st.integers(1, CAP // k)), t0=st.just(1526000000.5))))

ASSUMPTIONS = [gen.INTERLEAVINGS]
FACETS = [
    Facet("history", HIST, run_history, quick=120, thorough=2500, batch=60,
          rule="bursts of up to 8001 ids per frozen millisecond, made through every public way, for any address, time "
               "and process id; uniqueness and format of every id; non-trivial = more than one id"),
    Facet("given", GIVEN, run_given, quick=300, thorough=3000, rule="given ids are kept"),
    Facet("threads", THREADS, run_threads, quick=60, thorough=600, retries=20,
          rule="2-8 threads draw up to 8001 ids in one frozen millisecond"),
]
