"""C27: shutting a listener down."""
import itertools
import json
import socket
import subprocess
import sys
import threading
import time

from anthunder.listener import AioListener, SockListener
from hypothesis import strategies as st

from .. import REPO as VERIF_REPO, VERIF, gen, net, wire
from ..clients import Call
from ..core import Facet, HarnessError, Violation, check
from ..net import WAIT, RawConn, Service, service_class

svc = Service()
INF = "com.verif.c27:1.0"
CLASSES = {"aio": AioListener, "sock": SockListener}
_tok = itertools.count()
SERVED = {}


def setup():
    for name, cls in CLASSES.items():
        SERVED[name] = net.start_listener(cls)
        SERVED[name][0].handler.register_interface(INF, service_class(svc))


def teardown():
    for lsn, _ in SERVED.values():
        lsn.shutdown()


def start(cls, addr=None):
    if addr is None:
        return net.start_listener(cls)
    try:
        lsn = cls(addr, "verif")
    except OSError as e:
        raise Violation("a new listener cannot be created on the address of one that was shut down: {!r}".format(e))
    lsn.run_threading()
    ok = net.wait_until(lambda: answers(addr) == "yes")
    check(ok, "a new listener on the address of one that was shut down does not serve")
    return lsn, addr


def answers(addr):
    """does a listener serve there? "yes", "" (refused), or "hang" """
    try:
        c = RawConn(addr)
    except OSError:
        return ""
    try:
        c.send(wire.heartbeat(1))
        f = c.frame(3)
        return "hang" if f == "timeout" else "yes" if f is not None else ""
    except OSError:
        return ""
    finally:
        c.close()


def request(tok, rid=5, timeout=-1, ptype=wire.REQUEST):
    return wire.request(rid, dict(service=INF, sofa_head_target_service=INF, sofa_head_method_name="run"), tok + b"|x",
                        timeout=timeout, ptype=ptype)


def new(gate=None):
    tok = b"t%d" % next(_tok)
    svc.plan(tok, result=b"r" + tok, gate=gate)
    return tok


def racer(addr, stop, out):
    """comes with one request after another while the listener is shut down"""
    while not stop.is_set():
        tok = new()
        try:
            c = RawConn(addr)
        except OSError:
            out.append((tok, "refused"))
            time.sleep(0.0005)
            continue
        try:
            c.send(request(tok))
            f = c.frame(WAIT)
            out.append((tok, "hang" if f == "timeout" else "closed" if f is None else
                        "ok" if (f.request_id, f.status, f.content) == (5, 0, b"r" + tok) else repr(f)))
        except OSError:
            out.append((tok, "closed"))
        finally:
            c.close()


def run(c):
    svc.forget()
    cls = CLASSES[c["cls"]]
    labels = {c["cls"]}
    addr, lsn = None, None
    conns, gates, threads = [], [], []
    stop = threading.Event()
    try:
        for no, life in enumerate(c["lives"]):
            lsn, addr = start(cls, addr)
            lsn.handler.register_interface(INF, service_class(svc))
            # it serves
            for _ in range(life["before"]):
                conn = RawConn(addr)
                conns.append(conn)
                tok = new()
                conn.send(request(tok))
                f = conn.frame()
                check(f not in (None, "timeout") and f.status == 0 and f.content == b"r" + tok,
                      "a request before the shutdown is answered with {}", f)
            # requests in execution
            running = []
            for k, how in enumerate(life["running"]):
                gate = threading.Event()
                gates.append(gate)
                tok = new(gate)
                if c["cls"] == "aio" and running and how["same"]:
                    conn = running[-1][2]
                else:
                    conn = RawConn(addr)
                    conns.append(conn)
                conn.send(request(tok, 100 + k, ptype=wire.ONEWAY if how["oneway"] else wire.REQUEST))
                running.append((tok, gate, conn, 100 + k, how["oneway"]))
            for r in running:
                check(net.wait_until(lambda: svc.seen(r[0])), "a request before the shutdown is not executed")
            idle = [RawConn(addr) for _ in range(life["idle"])]
            conns += idle
            out = []
            stop = threading.Event()
            threads = [threading.Thread(target=racer, args=(addr, stop, out), daemon=True) for _ in range(life["racers"])]
            [t.start() for t in threads]
            time.sleep(life["delay"] / 1000.0)
            cs = [Call(lsn.shutdown) for _ in range(life["times"])]
            for x in cs:
                r, v = x.result()
                check(r != "hang", "shutdown() does not return (with {} requests running)", len(running))
                check(r == "ok", "shutdown() raised {!r}", v)
            # nothing new is accepted
            late = new()
            try:
                conn = RawConn(addr)
                conns.append(conn)
                conn.send(request(late))
                f = conn.frame(3)
                check(f is None, "after shutdown() a new connection is accepted and its request {}",
                      "never answered" if f == "timeout" else "answered")
            except OSError:
                pass
            stop.set()
            for t in threads:
                t.join(WAIT + 5)
            check(not svc.seen(late), "a request sent after shutdown() was executed")
            for tok, what in out:
                labels.add("race: " + what[:8])
                check(what in ("ok", "closed", "refused"), "a request that races with shutdown() is {}",
                      {"hang": "never answered, nor its connection closed"}.get(what, "answered with " + what))
                n = len(svc.seen(tok))
                check(n == 1 if what == "ok" else n == 0 if what == "refused" else n <= 1,
                      "a request that races with shutdown() ({}) was executed {} times", what, n)
            # another listener is not affected
            for name, (_, other) in SERVED.items():
                w = RawConn(other)
                tok = new()
                w.send(request(tok))
                f = w.frame()
                check(f not in (None, "timeout") and f.content == b"r" + tok,
                      "after the shutdown of another listener ({}), one ({}) answers {}", c["cls"], name, f)
                w.close()
            # what was running is finished and answered
            order = list(running)
            if life["reverse"]:
                order.reverse()
            for tok, gate, conn, rid, oneway in order:
                gate.set()
            want = {}
            for tok, gate, conn, rid, oneway in running:
                if not oneway:
                    want.setdefault(conn, {})[rid] = b"r" + tok
            for conn, w in want.items():
                while w:
                    f = conn.frame()
                    check(f not in (None, "timeout"), "a request that was running at the shutdown is {}",
                          "not answered" if f else "not answered, its connection closed")
                    check(w.pop(f.request_id, None) == f.content and f.status == 0,
                          "a request that was running at the shutdown is answered with {}", f)
            for tok, gate, conn, rid, oneway in running:
                check(net.wait_until(lambda: len(svc.seen(tok)) == 1), "a running request was executed {} times",
                      len(svc.seen(tok)))
            if running:
                labels.add("running")
            if no:
                labels.add("restarted")
            for conn in conns:
                conn.close()
            conns.clear()
            lsn = None
    finally:
        stop.set()
        for g in gates:
            g.set()
        for conn in conns:
            conn.close()
        if lsn is not None:
            Call(lsn.shutdown).result(5)
    return any(x["running"] or x["racers"] or x["before"] for x in c["lives"]), labels


LIFE = st.fixed_dictionaries(dict(
    before=st.integers(0, 2), idle=st.integers(0, 2),
    running=st.lists(st.fixed_dictionaries(dict(same=st.booleans(), oneway=st.sampled_from([False, False, True]))),
                     max_size=4),
    racers=st.sampled_from([0, 0, 1, 3]), delay=st.sampled_from([0, 0, 1, 5]), times=st.sampled_from([1, 1, 2]),
    reverse=st.booleans()))
CASE = st.fixed_dictionaries(dict(cls=st.sampled_from(["aio", "sock"]), lives=st.lists(LIFE, min_size=1, max_size=3)))

def run_returns(c):
    """run_forever() returns after shutdown(), once the peers have gone"""
    cls = CLASSES[c["cls"]]
    lsn = cls(("127.0.0.1", net.free_port()), "verif")
    lsn.handler.register_interface(INF, service_class(svc))
    thread = threading.Thread(target=lsn.run_forever, daemon=True)
    thread.start()
    conns = []
    try:
        check(net.wait_until(lambda: answers(lsn.address)), "a new listener does not serve")
        for _ in range(c["before"]):
            conn = RawConn(lsn.address)
            conns.append(conn)
            tok = new()
            conn.send(request(tok))
            f = conn.frame()
            check(f not in (None, "timeout") and f.content == b"r" + tok, "a request is answered with {}", f)
    finally:
        r, v = Call(lsn.shutdown).result()
        for conn in conns:
            conn.close()
    check(r == "ok", "shutdown(): {} {!r}", r, v)
    thread.join(0.3 if c["cls"] == "aio" else WAIT)
    if thread.is_alive():
        raise Violation("run_forever() does not return after shutdown() ({})".format(cls.__name__),
                        key="aio-run-forever" if c["cls"] == "aio" else None)
    return True, {c["cls"]}


RETURNS = st.fixed_dictionaries(dict(cls=st.sampled_from(["aio", "sock"]), before=st.integers(0, 2)))

def run_stampede(c):
    """a listener that is shut down just when connections come in; in a process of its own, which must survive"""
    p = subprocess.Popen([sys.executable, "-m", "pbt.stampede", c["cls"]], cwd=VERIF, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(json.dumps(c["rounds"]).encode(), 80)
    except subprocess.TimeoutExpired:
        raise Violation("shutdown() does not return when it races with new connections ({})".format(c["cls"]))
    finally:
        p.kill()
        p.wait()
    lines = [json.loads(x) for x in out.decode().splitlines()]
    check(p.returncode >= 0, "shutdown() ends the whole process (signal {}) when it races with new connections: {}",
          -p.returncode, err.decode()[-200:])
    if p.returncode != 0 or len(lines) != len(c["rounds"]):
        err = err.decode()
        check(VERIF_REPO not in err, "shutdown() that races with new connections: {}", err[-400:])
        raise HarnessError(err)
    labels = {c["cls"]}
    for k, spin, what in lines:
        check("accepted" not in what, "a connection is accepted after shutdown()")
        check("hang" not in what, "a heartbeat that races with shutdown() is never answered, nor its connection closed")
        labels.update(what)
    return True, labels


def rounds(cls, draw):
    # (the threaded listener takes up to half a second to shut down)
    return dict(cls=cls, rounds=[[1 + b % 3, [0, 100, 300, 1000][b // 3 % 4]] for b in draw[:300 if cls == "aio" else 12]])


STAMPEDE = st.builds(rounds, st.sampled_from(["aio", "aio", "aio", "sock"]), st.binary(min_size=300, max_size=300))

ASSUMPTIONS = ["shutdown() is called on a listener that serves, from another thread than the serving one",
               "the moments at which requests race with shutdown() are sampled"]
FACETS = [
    Facet("lives", CASE, run, quick=60, thorough=1500, setup=setup, teardown=teardown, retries=5,
          rule="1-3 listeners one after another on the same address, shut down with up to 4 requests running, idle "
               "connections, and up to 3 racing callers; non-trivial = some request"),
    Facet("stampede", STAMPEDE, run_stampede, quick=5, thorough=120, retries=5,
          rule="300 listeners (12 threaded ones) in a process of their own, each shut down when 1-3 connections have just come in; every case is "
               "non-trivial"),
    Facet("returns", RETURNS, run_returns, quick=6, thorough=6, retries=5,
          rule="both listeners, 0-2 requests before the shutdown; the asyncio listener is a known finding"),
]
