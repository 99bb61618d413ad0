"""C21: the mesh control client reports success only when the mesh did."""
import threading
import time

from anthunder import AioClient, AioListener, Client, SockListener
from anthunder.mesh.mesh_client import ApplicationInfo, MeshClient, ProviderMetaInfo, PublishServiceRequest
from hypothesis import strategies as st

from .. import gen, net
from ..core import Facet, check
from ..jitter import Jitter
from ..mesh import ANSWER, Mesh, is_good

FIELDS = ["dataCenter", "zone", "registryEndPoint", "accessKey", "secretKey"]
INFO = st.fixed_dictionaries(dict(
    {"appName": gen.mix(*[gen.NAME] * 7, st.just("")), "antShareCloud": gen.mix(st.booleans(), st.booleans(), st.just("missing"))},
    **{f: st.one_of(st.none(), st.just(""), gen.TEXT, st.just("missing")) for f in FIELDS}))
STR = st.one_of(gen.NAME, gen.TEXT)
OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("startup"), a=ANSWER)),
    st.fixed_dictionaries(dict(op=st.sampled_from(["subscribe", "unsubscribe", "unpublish"]), s=STR, a=ANSWER)),
    st.fixed_dictionaries(dict(op=st.just("publish"), s=STR, a=ANSWER, port=STR, app=STR, protocol=STR, version=STR, ser=STR,
                               ptype=st.one_of(st.none(), STR), cloud=st.one_of(st.none(), st.booleans()))))


def info(d):
    return ApplicationInfo(**{k: v for k, v in d.items() if v != "missing" or k == "appName"})


def want_info(d):
    return {k: v for k, v in d.items() if v and (v != "missing" or k == "appName")}


def run(c):
    cur = [None]
    labels = set()
    with Mesh(lambda path, body: cur[0]) as mesh:
        cl = MeshClient(info(c["info"]))
        check(mesh.take() == [], "creating the client posts something")
        started = False
        for i, o in enumerate(c["ops"]):
            cur[0] = o["a"]
            good = is_good(o["a"])
            op = o["op"]
            what = "step {} {} ({})".format(i, op, o["a"])
            exc = ret = None
            try:
                if op == "startup":
                    ret = cl.startup()
                    want = [] if started else [("configs/application", want_info(c["info"]))]
                elif op == "publish":
                    kw = {}
                    if o["ptype"] is not None:
                        kw["protocolType"] = o["ptype"]
                    if o["cloud"] is not None:
                        kw["onlyPublishInCloud"] = o["cloud"]
                    body = dict(serviceName=o["s"], port=o["port"], protocolType=kw.get("protocolType", "DEFAULT"),
                                onlyPublishInCloud=kw.get("onlyPublishInCloud", False),
                                providerMetaInfo=dict(protocol=o["protocol"], version=o["version"],
                                                      serializeType=o["ser"], appName=o["app"]))
                    want = [("services/publish", body)]
                    ret = cl.publish(PublishServiceRequest(serviceName=o["s"], port=o["port"],
                                                           providerMetaInfo=ProviderMetaInfo(
                                                               protocol=o["protocol"], version=o["version"],
                                                               serializeType=o["ser"], appName=o["app"]), **kw))
                else:
                    want = [("services/" + op, dict(serviceName=o["s"]))]
                    ret = getattr(cl, op)(o["s"])
            except Exception as e:
                exc = e
                if op == "startup":
                    want = [("configs/application", want_info(c["info"]))]
            posts = mesh.take()
            check(posts == want, "{}: posted {}, want {}", what, posts, want)
            if op == "startup" and started:
                check(exc is None and ret, "{}: a repeated start gave {!r} {!r}", what, ret, exc)
                labels.add("started again")
                continue
            check((exc is None) == good, "{}: {}", what, "raised %r" % exc if exc else "reported success")
            if op == "startup":
                if good:
                    started = True
                    check(ret, "{}: a successful start returned {!r}", what, ret)
                else:
                    labels.add("start failed")
            labels.add("good" if good else "bad")
    return "bad" in labels or "started again" in labels, labels


CASE = st.fixed_dictionaries(dict(info=INFO, ops=st.lists(OP, min_size=1, max_size=8)))


def run_threads(c):
    n = c["threads"]
    count = [0]

    def decide(path, body):
        k = count[0]
        count[0] += 1
        return c["answers"][k] if k < len(c["answers"]) else ["ok"]

    res = [None] * n
    start = threading.Barrier(n)
    with Mesh(decide) as mesh:
        orig = mesh._answer

        def slow(request, context):
            time.sleep(0.001)       # let the other threads arrive
            return orig(request, context)

        mesh.mock.register_uri("POST", "http://127.0.0.1:13330/configs/application", text=slow)
        cl = MeshClient(ApplicationInfo("app"))

        def t(k):
            start.wait()
            try:
                res[k] = ("ok", cl.startup())
            except Exception as e:
                res[k] = ("raise", e)

        with Jitter(**c["jitter"]):
            ts = [threading.Thread(target=t, args=(k,)) for k in range(n)]
            [x.start() for x in ts]
            [x.join(30) for x in ts]
        posts = mesh.take()
    bad = 0
    for k in range(len(posts)):
        a = c["answers"][k] if k < len(c["answers"]) else ["ok"]
        if is_good(a):
            check(len(posts) == k + 1, "the application was registered again after {} of {} posts succeeded", k + 1,
                  len(posts))
            break
        bad += 1
    check(all(r is not None for r in res), "startup does not return")
    check(sum(r[0] == "raise" for r in res) == bad, "{} of {} posts failed, but {} callers were told", bad, len(posts),
          sum(r[0] == "raise" for r in res))
    check(all(r[1] for r in res if r[0] == "ok"), "startup returned {}", res)
    return True, ["failures=%d" % bad]


THREADS = st.fixed_dictionaries(dict(jitter=gen.JITTER, threads=st.integers(2, 8), answers=st.lists(ANSWER, max_size=4)))

KW = dict(data_center="dataCenter", zone="zone", registry_end_point="registryEndPoint", access_key="accessKey",
          secret_key="secretKey")


def run_entrance(c):
    """clients and listeners register the application with the settings they are given"""
    kw = {k: v for k, v in c["kw"].items() if v != "missing"}
    want = {KW[k]: v for k, v in kw.items() if v}
    want["appName"] = c["app"]
    if c["cloud"] is not None:
        kw["is_antsharecloud"] = c["cloud"]
        if c["cloud"]:
            want["antShareCloud"] = True
    good = is_good(c["a"])
    cls = dict(AioClient=AioClient, Client=Client, AioListener=AioListener, SockListener=SockListener)[c["cls"]]
    args = (c["app"],) if "Client" in c["cls"] else (("127.0.0.1", net.free_port()), c["app"])
    obj = None
    with Mesh(lambda path, body: c["a"] if path == "configs/application" else ["ok"]) as mesh:
        try:
            obj = cls(*args, **kw)
            posts = mesh.take()
            check(posts == [("configs/application", want)], "{} registers with {}, given {}", c["cls"], posts, c)
            if "Client" in c["cls"]:
                obj.subscribe("com.verif.c21.entrance")
                posts, op = mesh.take(), "services/subscribe"
                obj.unsubscribe("com.verif.c21.entrance")
                mesh.take()
            else:
                obj.handler.register_interface("com.verif.c21.entrance", object)
                try:
                    obj.publish()
                finally:
                    obj.handler.interface_mapping.pop("com.verif.c21.entrance")
                posts, op = [x for x in mesh.take() if x[1].get("serviceName") == "com.verif.c21.entrance"], "services/publish"
            check([x[0] for x in posts] == [op] * good, "the registration {}, then {} was posted for {}",
                  "succeeded" if good else "failed", [x[0] for x in posts], op)
        finally:
            server = getattr(obj, "server", None)
            if server is not None:
                server.server_close()
    return bool(kw) or not good, [c["cls"], "good" if good else "bad"]


ENTRANCE = st.fixed_dictionaries(dict(
    cls=st.sampled_from(["AioClient", "Client", "AioListener", "SockListener"]), app=gen.NAME, a=ANSWER,
    cloud=st.one_of(st.none(), st.booleans()),
    kw=st.fixed_dictionaries({k: st.one_of(st.none(), st.just(""), gen.TEXT, st.just("missing")) for k in KW})))

FACETS = [
    Facet("history", CASE, run, quick=400, thorough=8000,
          rule="any application settings and operation sequence, each with a generated answer of the mesh (good, any "
               "status, any success value, broken JSON, no connection); non-trivial = a failure or a repeated start"),
    Facet("threads", THREADS, run_threads, quick=80, thorough=1000, retries=10,
          rule="2-8 threads start the client while the first answers may be failures"),
    Facet("entrance", ENTRANCE, run_entrance, quick=100, thorough=1000,
          rule="clients and listeners created with any settings and answer of the mesh; non-trivial = a setting or a "
               "failure"),
]
