"""C25: publishing tells the mesh exactly the registered interfaces; requests go to what was registered last."""
import itertools

from anthunder.listener import AioListener, BaseService, SockListener
from hypothesis import strategies as st

from .. import gen, net, wire
from ..core import Facet, Violation, check
from ..jitter import schedules
from ..mesh import ANSWER, Mesh, is_good
from ..net import RawConn, Service

_case = itertools.count()
_rid = itertools.count(1)
CLS = dict(aio=AioListener, sock=SockListener)
LISTENERS = {}
EVER = set()
svc = Service()


def start(kind, mesh, app):
    with Mesh(None if mesh else (lambda p, b: ["refused"])):
        return net.start_listener(CLS[kind], app=app)


def setup():
    for kind in CLS:
        for mesh in (True, False):
            LISTENERS[kind, mesh] = start(kind, mesh, "app-%s-%s" % (kind, mesh))


def teardown():
    for lsn, _ in LISTENERS.values():
        lsn.shutdown()
    LISTENERS.clear()


def make_class(tag):
    class Svc(BaseService):
        def __init__(self, ctx, *args, **kwargs):
            super(Svc, self).__init__(ctx)
            self.args, self.kwargs = args, kwargs

        def run(self, body):
            return repr((tag, self.args, sorted(self.kwargs.items()), body)).encode()
    return Svc


INF = st.integers(0, 4)
ARG = st.one_of(st.integers(0, 99), gen.NAME, st.none())
OP = gen.mix(
    *[st.fixed_dictionaries(dict(op=st.just("register"), i=INF, args=st.lists(ARG, max_size=3),
                                 kw=st.lists(st.tuples(st.sampled_from(["a", "b", "name"]), ARG).map(list), max_size=2,
                                             unique_by=lambda t: t[0])))] * 3,
    *[st.fixed_dictionaries(dict(op=st.sampled_from(["publish", "unpublish"]),
                                 a=gen.mix(st.just(["ok"]), st.just(["ok"]), ANSWER)))] * 2,
    *[st.fixed_dictionaries(dict(op=st.just("call"), i=INF, body=st.binary(max_size=10)))] * 2)
# names that differ only in blanks or case, or that careless handling changes
AFFIX = gen.mix(*[st.just("")] * 3, st.sampled_from([" ", "\t", "\n", "\x00", "A", "a", ".", ":", "@", "@DEFAULT", "%20", "é", "\ufeff",
                                                    "/", "中", "x" * 300]))
NAMES = st.lists(st.fixed_dictionaries(dict(pre=AFFIX, post=AFFIX, same=st.booleans(),
                                              exact=gen.mix(*[st.none()] * 4, st.sampled_from(["", " ", "\n", "None", "0"])))), min_size=5, max_size=5)
CASE = st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(CLS)), mesh=st.sampled_from([True, True, True, False]),
                                  base=gen.NAME, names=NAMES, ops=st.lists(OP, min_size=2, max_size=12)))


def request(addr, inf, body):
    rid = next(_rid)
    conn = RawConn(addr)
    try:
        conn.send(wire.request(rid, dict(service=inf, sofa_head_target_service=inf, sofa_head_method_name="run"), body,
                               timeout=20000))
        f = conn.frame()
        if f not in (None, "timeout"):
            check(f.request_id == rid, "response to {} has id {}", rid, f.request_id)
        return f
    finally:
        conn.close()


def run(c):
    try:
        # what earlier cases registered only costs time
        for lsn, _ in LISTENERS.values():
            lsn.handler.interface_mapping.clear()
    except AttributeError:
        pass
    lsn, addr = LISTENERS[c["kind"], c["mesh"]]
    app = "app-%s-%s" % (c["kind"], c["mesh"])
    no = next(_case)
    names = [x["exact"] if x["exact"] is not None else x["pre"] + "%s.%d.%d:1.0" % (c["base"], no, 0 if x["same"] else k) + x["post"] for k, x in enumerate(c["names"])]
    model = {}
    labels = {c["kind"]}
    for n, o in enumerate(c["ops"]):
        op = o["op"]
        what = "step {} {}".format(n, op)
        if op == "register":
            inf = names[o["i"]]
            tag = "%d/%d" % (no, n)
            with Mesh() as mesh:
                lsn.handler.register_interface(inf, make_class(tag), *o["args"], **dict(o["kw"]))
                check(mesh.take() == [], "{}: registering posts to the mesh", what)
            if inf in model:
                labels.add("registered again")
            model[inf] = (tag, tuple(o["args"]), sorted(dict(o["kw"]).items()))
            EVER.add(inf)
            if o["args"] or o["kw"]:
                labels.add("arguments")
        elif op in ("publish", "unpublish"):
            with Mesh(lambda p, b: o["a"]) as mesh:
                try:
                    getattr(lsn, op)()
                    exc = None
                except Exception as e:
                    exc = e
                posts = mesh.take()
            if not c["mesh"]:
                check(posts == [] and exc is None, "{}: without a mesh posted {}, raised {!r}", what, posts, exc)
                labels.add("no mesh")
                continue
            mine = [p for p in posts if (p[1] or {}).get("serviceName") in names]
            other = [p for p in posts if p not in mine]
            # the interfaces of earlier cases may still be there (listeners share their registry), others never were
            for path, body in other:
                check((body or {}).get("serviceName") in EVER, "{}: posted {} {}, which was never registered", what, path,
                      body)
            if not is_good(o["a"]) and posts:
                check(exc is not None, "{}: the mesh refused ({}) and nothing was raised", what, o["a"])
                labels.add("refused")
                continue
            check(exc is None, "{}: raised {!r}", what, exc)
            if op == "publish":
                want = {inf: ("services/publish", dict(
                    serviceName=inf, port=str(addr[1]), protocolType="DEFAULT", onlyPublishInCloud=False,
                    providerMetaInfo=dict(protocol="1", version="4.0", serializeType="protobuf", appName=app)))
                    for inf in model}
            else:
                want = {inf: ("services/unpublish", dict(serviceName=inf)) for inf in model}
            check(sorted(p[1]["serviceName"] for p in mine) == sorted(model), "{}: posted for {}, registered are {}", what,
                  [p[1]["serviceName"] for p in mine], sorted(model))
            for p in mine:
                check(p == want[p[1]["serviceName"]], "{}: posted {}, want {}", what, p, want[p[1]["serviceName"]])
            if model:
                labels.add(op)
        else:
            inf = names[o["i"]]
            if not inf:
                continue        # nobody can ask for it
            f = request(addr, inf, o["body"])
            if inf in model:
                check(f not in (None, "timeout"), "{}: no answer from {}", what, inf)
                want = repr(model[inf] + (o["body"],)).encode()
                check(f.status == 0 and f.content == want, "{}: answered {} {!r}, want {!r}", what,
                      wire.STATUS_NAME.get(f.status), f.content, want)
                labels.add("called")
            else:
                check(f is None or f == "timeout" or f.status != 0, "{}: an interface that was never registered answered "
                      "success", what)
                if c["kind"] == "aio":
                    check(f not in (None, "timeout") and f.status == wire.STATUSES["NO_PROCESSOR"],
                          "{}: unknown interface answered {}", what, f)
    return len(labels) > 1, labels


def run_many(c):
    """many interfaces"""
    names = [dict(pre="", post=".%d" % k, same=False, exact=None) for k in range(c["n"])]
    ops = [dict(op="register", i=k, args=[k] if k % 3 else [], kw=[]) for k in range(c["n"])]
    for k, o in enumerate(c["ops"]):
        ops.append(dict(op=o, a=["ok"]) if o != "call" else dict(op="call", i=(c["i"] * (k + 1)) % c["n"], body=b"x"))
    _, labels = run(dict(kind=c["kind"], mesh=True, base=c["base"], names=names, ops=ops))
    return True, set(labels) | {"n=%d" % c["n"]}


MANY = st.fixed_dictionaries(dict(
    kind=st.sampled_from(sorted(CLS)), base=gen.NAME, n=st.sampled_from([12, 40, 110, 270]), i=st.integers(0, 300),
    ops=st.lists(st.sampled_from(["publish", "unpublish", "call", "call"]), min_size=2, max_size=6)))

FACETS = [
    Facet("history", CASE, run, quick=300, thorough=5000, setup=setup, teardown=teardown,
          rule="histories of registration (again, with arguments), publish/unpublish with any mesh answer, and requests; "
               "posts and answers compared with a model; non-trivial = more than unanswered requests"),
    Facet("many", MANY, run_many, quick=20, thorough=300, setup=setup, teardown=teardown, rule="12-270 interfaces; every case counts"),
    Facet("schedules", CASE, run, quick=40, thorough=800, retries=5, rule="as history, while threads of the library pause at random lines",
          **schedules(setup, teardown)),
]
