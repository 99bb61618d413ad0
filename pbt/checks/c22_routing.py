"""C22: calls go to the address the configuration and subscriptions say."""
import itertools
import os
import socket

from anthunder import SERVICE_MAP, AioClient, Client
from hypothesis import strategies as st
from mytracer import new_span

from .. import gen, net, wire
from ..core import Facet, HarnessError, Violation, check
from ..mesh import ANSWER, Mesh, is_good
from ..net import FakeServer, call

_pid = os.getpid()
SERVERS = {}        # name -> FakeServer
ADDR = {}           # name -> what to configure
MESH = None
CLIENTS = {}
_case = itertools.count()


def script(name):
    def run(conn):
        while True:
            f = conn.request()
            if f is None:
                return
            if f.cmdcode == wire.CMD_HEARTBEAT:
                conn.send(wire.heartbeat_ack(f.request_id))
            else:
                conn.send(wire.response(f.request_id, content=name.encode()))
    return run


def setup():
    global MESH
    # loopback addresses of this process, so that several can use the default port at once
    base = "127.%d.%d." % (100 + _pid % 100, (_pid // 100) % 250)
    for k in range(3):
        # a bare host: the default port of the protocol
        SERVERS["host%d" % k] = FakeServer(script("host%d" % k), addr=(base + str(10 + k), 12200))
        ADDR["host%d" % k] = base + str(10 + k)
    for k in range(3):
        s = FakeServer(script("addr%d" % k), addr=(base + str(20 + k % 2), 0))
        SERVERS["addr%d" % k] = s
        ADDR["addr%d" % k] = tuple(s.addr)
    # a second server on the host of another one
    SERVERS["mesh"] = FakeServer(script("mesh"), addr=(base + "30", 0))
    MESH = tuple(SERVERS["mesh"].addr)
    for cls in (Client, AioClient):
        check(tuple(cls.mesh_service_address) == ("127.0.0.1", 12220), "the default address of the mesh is {}",
              cls.mesh_service_address)

        class C(cls):
            mesh_service_address = MESH
        for with_mesh in (True, False):
            if with_mesh:
                with Mesh():
                    CLIENTS[cls.__name__, with_mesh] = C("app")
            else:
                with Mesh(lambda p, b: ["refused"]):
                    CLIENTS[cls.__name__, with_mesh] = C("app")


def teardown():
    for s in SERVERS.values():
        s.close()


def ask(client, inf):
    r, v = call(client.invoke_sync, inf, "m", b"x", spanctx=new_span("t").context, timeout_ms=10000)
    if r == "hang":
        raise Violation("a call to {} does not return".format(inf))
    if r == "raise":
        raise Violation("a call to {} raised {!r}".format(inf, v))
    return bytes(v).decode()


INF = st.integers(0, 4)
# names that are easily mistaken for each other
NAMES = dict(plain=[".0", ".1", ".2", ".3", ".4"], version=[".A", ".A:1.0", ".A:2.0", ".A:", ".A:1.0:x"],
             case=[".a", ".A", ".aB", ".AB", ".ab"], package=[".p", ".p.q", ".p.q.r", ".p.", ".pq"],
             at=[".a", ".a@DEFAULT", ".a@", ".a#1", ".a/b"], blank=[".a", ".a ", ".a\t", " .a", ".a\x00"], other=[".é", ".e", ".e\u0301", ".%41", ".A"])
WHERE = st.sampled_from(["host0", "host1", "host2", "addr0", "addr1", "addr2"])
OP = gen.mix(
    st.fixed_dictionaries(dict(op=st.just("config"), i=INF, to=WHERE, how=st.sampled_from(["set", "set", "update", "setdefault"]))),
    st.fixed_dictionaries(dict(op=st.just("deconfig"), i=INF)),
    *[st.fixed_dictionaries(dict(op=st.just("subscribe"), infs=st.lists(st.tuples(INF, ANSWER).map(list), min_size=1, max_size=8,
                                                                        unique_by=lambda t: t[0])))] * 2,
    *[st.fixed_dictionaries(dict(op=st.just("unsubscribe"), infs=st.lists(st.tuples(INF, ANSWER).map(list), min_size=1, max_size=8,
                                                                          unique_by=lambda t: t[0])))] * 2,
    *[st.fixed_dictionaries(dict(op=st.just("call"), i=INF))] * 3)
CASE = st.fixed_dictionaries(dict(client=st.sampled_from(["Client", "AioClient"]), mesh=st.sampled_from([True, True, True, False]),
                                  names=st.sampled_from(sorted(NAMES)),
                                  ops=st.lists(OP, min_size=1, max_size=14)))


def run(c):
    client = CLIENTS[c["client"], c["mesh"]]
    tag = "com.verif.c22.%d" % next(_case)
    model = {}
    labels = {c["client"]}
    names = [tag + x for x in NAMES[c.get("names", "plain")]]

    def where(inf):
        return model.get(inf, "mesh")

    def verify(inf, what):
        got = ask(client, inf)
        check(got == where(inf), "{}: a call to {} ({}) went to {}", what, inf, where(inf), got)

    try:
        for n, o in enumerate(c["ops"]):
            op = o["op"]
            what = "step {} {}".format(n, op)
            if op == "config":
                inf = names[o["i"]]
                if o["how"] == "setdefault":
                    # keeps what is configured
                    got = SERVICE_MAP.setdefault(inf, ADDR[o["to"]])
                    if inf not in model:
                        model[inf] = o["to"]
                    continue
                try:
                    if o["how"] == "update" and inf in model:
                        continue    # update() is an explicit replacement
                    if o["how"] == "update":
                        SERVICE_MAP.update({inf: ADDR[o["to"]]})
                    else:
                        SERVICE_MAP[inf] = ADDR[o["to"]]
                    check(inf not in model, "{}: the configured address of {} was replaced silently", what, inf)
                    model[inf] = o["to"]
                except KeyError:
                    check(inf in model, "{}: a new interface was refused", what)
                    labels.add("replacement refused")
                verify(inf, what)
            elif op == "deconfig":
                inf = names[o["i"]]
                SERVICE_MAP.pop(inf, None)
                model.pop(inf, None)
            elif op in ("subscribe", "unsubscribe"):
                answers = {names[i]: a for i, a in o["infs"]}
                infs = [names[i] for i, _ in o["infs"]]
                with Mesh(lambda path, body: answers.get((body or {}).get("serviceName"), ["ok"])) as mesh:
                    getattr(client, op)(*infs)
                    posts = mesh.take()
                if not c["mesh"]:
                    check(posts == [], "{}: posted {} without a mesh", what, posts)
                    labels.add("no mesh")
                else:
                    want = [("services/" + op, dict(serviceName=x)) for x in infs]
                    check(posts == want, "{}: posted {}, want {}", what, posts, want)
                    for inf in infs:
                        if not is_good(answers[inf]):
                            labels.add("mesh failed")
                        elif op == "subscribe":
                            if inf in model:
                                labels.add("subscribed a configured one")
                            model.setdefault(inf, "mesh")
                        else:
                            model.pop(inf, None)
                            labels.add("unsubscribed")
                for inf in infs:
                    check((inf in SERVICE_MAP) == (inf in model), "{}: {} is {}", what, inf,
                          "still routed" if inf in SERVICE_MAP else "not routed")
                verify(infs[0], what)
            else:
                verify(names[o["i"]], what)
            for inf in names:
                check((inf in SERVICE_MAP) == (inf in model), "{}: {} is {} in the routing", what, inf,
                      "" if inf in SERVICE_MAP else "not")
                if inf in model:
                    want = MESH if model[inf] == "mesh" else ADDR[model[inf]]
                    got = SERVICE_MAP[inf]
                    check(got == want or tuple(got) == want, "{}: {} is routed to {}, want {}", what, inf, got, want)
        for inf in names:
            verify(inf, "at the end")
        for s in SERVERS.values():
            s.raise_errors()
    finally:
        for inf in names:
            SERVICE_MAP.pop(inf, None)
    labels |= {"to " + v.rstrip("0123456789") for v in model.values()}
    return len(labels) > 1, labels


def run_default(c):
    """the documented default: the mesh on 127.0.0.1:12220"""
    try:
        s = FakeServer(script("default mesh"), addr=("127.0.0.1", 12220))
    except OSError:
        return False, ["port taken"]
    try:
        with Mesh(lambda p, b: ["refused"] if not c["mesh"] else ["ok"]):
            client = dict(Client=Client, AioClient=AioClient)[c["client"]]("app")
        inf = "com.verif.c22.default.%d" % next(_case)
        check(ask(client, inf) == "default mesh", "an unknown interface is not called through the mesh")
        if c["mesh"]:
            with Mesh():
                client.subscribe(inf)
            check(ask(client, inf) == "default mesh", "a subscribed interface is not called through the mesh")
            SERVICE_MAP.pop(inf, None)
    finally:
        s.close()
    return True, [c["client"]]


DEFAULT = st.fixed_dictionaries(dict(client=st.sampled_from(["Client", "AioClient"]), mesh=st.booleans()))

FACETS = [
    Facet("routing", CASE, run, quick=400, thorough=5000, setup=setup, teardown=teardown,
          rule="histories of configuration, subscribe/unsubscribe with any mesh answer, and calls; where each call arrives "
               "is observed at real servers and compared with a model; non-trivial = anything but plain calls"),
    Facet("default", DEFAULT, run_default, quick=4, thorough=8, rule="default address of the mesh"),
]
