"""C13: spans of a trace get unique, hierarchical ids and inherit the trace."""
import threading

import opentracing
from hypothesis import strategies as st
from mytracer import MyTracer, child_span_of, follows_span_from, new_span, tracer
from opentracing import Format, Reference, ReferenceType

from .. import gen
from ..core import Facet, check
from ..jitter import Jitter

P = "rpc_trace_context."
OP = st.one_of(gen.NAME, gen.TEXT.filter(bool))
TAGKEY = gen.NAME.filter(lambda k: k not in ("span", "operation_name", "self"))
TAGS = st.one_of(st.none(), st.lists(st.tuples(TAGKEY, st.one_of(gen.TEXT, st.integers(), st.none())),
                                     max_size=3, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l]))
REF = st.integers(0, 60)
MORE = st.one_of(st.none(), st.tuples(REF, st.sampled_from([ReferenceType.CHILD_OF, ReferenceType.FOLLOWS_FROM])).map(list))
START = st.one_of(st.none(), st.integers(1, 2 ** 31), st.sampled_from([0, 0.0, 1.5, 0.25]))
STEP = gen.mix(
    st.fixed_dictionaries(dict(op=st.just("root"), how=st.sampled_from(["tracer", "helper", "other tracer"]), name=OP, tags=TAGS,
                               start=START)),
    st.fixed_dictionaries(dict(op=st.just("extract"), ids=st.lists(st.integers(0, 9), max_size=3),
                               bag=gen.bag())),
    st.fixed_dictionaries(dict(op=st.just("bag"), of=REF, key=gen.NAME, val=gen.TEXT)),
    st.fixed_dictionaries(dict(op=st.just("finish"), of=REF)),
    st.fixed_dictionaries(dict(op=st.just("with"), of=REF, fails=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("tag"), of=REF, key=TAGKEY, val=gen.TEXT)),
    st.fixed_dictionaries(dict(op=st.just("rename"), of=REF, name=OP)),
    *[st.fixed_dictionaries(dict(op=st.just("child"), of=REF, name=st.one_of(st.none(), OP), tags=TAGS,
                                 start=START,
                                 more=MORE, how=st.sampled_from(["span", "context", "helper", "ref", "reflist"])))] * 4,
    *[st.fixed_dictionaries(dict(op=st.just("follow"), of=REF, name=st.one_of(st.none(), OP), tags=TAGS,
                                 start=START,
                                 more=MORE, how=st.sampled_from(["helper", "ref", "reflist"])))] * 3,
)


class Failed(Exception):
    pass


class Node:
    def __init__(self, span, ctx, trace, rid, bag, tree, parent):
        self.span, self.ctx, self.trace, self.rid, self.bag = span, ctx, trace, rid, bag
        self.tree, self.parent = tree, parent
        self.name = self.start = None
        self.tags = {}


def ids(ctx):
    return str(ctx.baggage["sofaTraceId"]), str(ctx.baggage["sofaRpcId"])


def bag_of(ctx):
    return {k: v for k, v in ctx.baggage.items() if k not in ("sofaTraceId", "sofaRpcId")}


def run(c):
    nodes, trees = [], 0
    labels = {"steps=%d" % (len(c["steps"]) // 10 * 10)}
    traces = {}
    other = MyTracer()
    follows = 0

    def make(step, kind, ref):
        tags = dict(step["tags"]) if step["tags"] is not None else None
        name, how, start = step["name"], step["how"], step["start"]
        if kind == "root":
            if how == "helper":
                return new_span(name, **(tags or {})), name, None
            t = tracer if how == "tracer" else other
            return t.start_span(name, tags=tags, start_time=start), name, start
        src = nodes[ref]
        if how == "helper" and src.span is not None:
            fn = child_span_of if kind == "child" else follows_span_from
            return fn(src.span, name, **(tags or {})), name if name is not None else src.name, None
        name = name if name is not None else "op"
        if kind == "child" and how == "span" and src.span is not None:
            return tracer.start_span(name, child_of=src.span, tags=tags, start_time=start), name, start
        if kind == "child" and how in ("context", "span", "helper"):
            return tracer.start_span(name, child_of=src.ctx, tags=tags, start_time=start), name, start
        r = Reference(ReferenceType.CHILD_OF if kind == "child" else ReferenceType.FOLLOWS_FROM, src.ctx)
        refs = r if how != "reflist" else [r]
        if how == "reflist" and step.get("more") is not None:
            # the first one counts
            more, kind2 = step["more"]
            refs.append(Reference(kind2, nodes[more % len(nodes)].ctx))
            labels.add("several references")
        return tracer.start_span(name, references=refs, tags=tags, start_time=start), name, start

    for no, step in enumerate(c["steps"]):
        op = step["op"]
        if op == "root":
            span, name, start = make(step, "root", None)
            trace, rid = ids(span.context)
            check(rid == "1", "a root span has id {}", rid)
            check(trace not in traces, "two traces share the id {}", trace)
            check(bag_of(span.context) == {}, "a root span has baggage {}", bag_of(span.context))
            n = Node(span, span.context, trace, rid, {}, trees, None)
        elif op == "extract":
            rid = ".".join(map(str, step["ids"] + [no + 1]))
            trace = "trace%d" % no
            bag = {k: v for k, v in step["bag"] if k not in ("sofaTraceId", "sofaRpcId")}
            carrier = {P + k: v for k, v in bag.items()}
            carrier.update({P + "sofaTraceId": trace, P + "sofaRpcId": rid})
            ctx = tracer.extract(Format.TEXT_MAP, carrier)
            n = Node(None, ctx, trace, rid, bag, trees, None)
            labels.add("extracted")
            start = None
        elif not nodes:
            continue
        else:
            ref = step["of"] % len(nodes)
            src = nodes[ref]
            if op == "bag":
                if src.span is None:
                    continue
                src.span.set_baggage_item(step["key"], step["val"])
                src.bag = dict(src.bag)
                src.bag[step["key"]] = step["val"]
                labels.add("baggage set")
                n = None
            elif op in ("tag", "rename"):
                if src.span is not None:
                    if op == "tag":
                        src.span.set_tag(step["key"], step["val"])
                        src.tags[step["key"]] = step["val"]
                    else:
                        src.span.set_operation_name(step["name"])
                        src.name = step["name"]
                    labels.add(op)
                n = None
            elif op == "finish":
                if src.span is not None:
                    src.span.finish()
                n = None
            elif op == "with":
                n = None
                if src.span is not None:
                    labels.add(op)
                    try:
                        with src.span as entered:
                            check(entered is src.span, "a with block got {!r} instead of the span", entered)
                            if step["fails"]:
                                raise Failed
                    except Failed:
                        pass
                    else:
                        check(not step["fails"], "a with block swallowed an exception")
            else:
                span, name, start = make(step, op, ref)
                trace, rid = ids(span.context)
                check(trace == src.trace, "{} of a span of trace {} got trace {}", op, src.trace, trace)
                check(bag_of(span.context) == src.bag, "{} has baggage {}, the referenced span {}", op,
                      bag_of(span.context), src.bag)
                head, _, last = rid.rpartition(".")
                if op == "child":
                    check(head == src.rid and last.isdigit(), "child of {} got id {}", src.rid, rid)
                    parent = src
                else:
                    follows += 1
                    check(head == src.rid.rpartition(".")[0] and last.isdigit(), "follower of {} got id {}", src.rid,
                          rid)
                    parent = src.parent
                n = Node(span, span.context, trace, rid, dict(src.bag), src.tree, parent)
        if n is not None:
            if n.parent is None and op in ("root", "extract"):
                trees += 1
                traces[n.trace] = n.tree
            if n.span is not None:
                n.name = name
                n.tags = dict(step["tags"] or [])
                check(n.span.operation_name == name, "operation name {!r}, want {!r}", n.span.operation_name, name)
                tags = getattr(n.span, "_tags", None)
                if isinstance(tags, dict):
                    check(tags == n.tags, "tags {}, want {}", tags, n.tags)
                st_ = getattr(n.span, "_start_time", None)
                if start is not None and st_ is not None:
                    check(st_ == start, "start time {}, want {}", st_, start)
                    n.start = start
            nodes.append(n)
        # nothing that existed before changed
        for n in nodes:
            trace, rid = ids(n.ctx)
            check((trace, rid) == (n.trace, n.rid), "the id of an existing span changed from {} to {}",
                  (n.trace, n.rid), (trace, rid))
            check(bag_of(n.ctx) == n.bag, "the baggage of an existing span changed from {} to {}", n.bag, bag_of(n.ctx))
            if n.span is not None:
                check(n.span.operation_name == n.name, "the name of an existing span changed")
                if n.start is not None:
                    check(n.span._start_time == n.start, "the start time of an existing span changed from {} to {}",
                          n.start, n.span._start_time)
                tags = getattr(n.span, "_tags", None)
                if isinstance(tags, dict):
                    check(tags == n.tags, "the tags of an existing span changed from {} to {}", n.tags, tags)
        seen = {}
        for n in nodes:
            k = (n.tree, n.rid)
            check(k not in seen, "two spans of one trace share the id {}", n.rid)
            seen[k] = n
    depth = max([n.rid.count(".") for n in nodes] or [0])
    labels.add("depth=%d" % depth)
    labels.add("trees=%d" % min(trees, 4))
    return len(nodes) >= 3, labels


CASE = st.fixed_dictionaries(dict(steps=st.sampled_from([3, 6, 10, 20, 30]).flatmap(
    lambda n: st.lists(STEP, min_size=n, max_size=n + 10))))

def run_threads(c):
    """spans that refer to the same spans, made by several threads"""
    n = c["threads"]
    root = new_span("root")
    srcs = [root]
    for kind in c["srcs"]:
        srcs.append(child_span_of(srcs[-1]) if kind == "child" else follows_span_from(srcs[-1]))
    if c["extracted"]:
        ctx = tracer.extract(Format.TEXT_MAP, tracer.inject(srcs[-1].context, Format.TEXT_MAP, {}))
        srcs = [tracer.start_span("in", child_of=ctx)]
    res, start = [[] for _ in range(n)], threading.Barrier(n)
    errors = []

    def work(k):
        try:
            start.wait(30)
            for j in range(c["each"] if not c["jitter"]["rate"] else 5 + c["each"] // 20):
                i, kind = c["plan"][(j + k * c["shift"]) % len(c["plan"])]
                src = srcs[i % len(srcs)]
                span = child_span_of(src) if kind == "child" else follows_span_from(src)
                res[k].append((kind, i % len(srcs), span))
        except Exception as e:
            errors.append(e)

    with Jitter(**c["jitter"]):
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
    check(not errors, "starting a span raised {!r}", errors[:1])
    check(not any(t.is_alive() for t in ts), "starting spans does not end")
    seen = {}
    for s in srcs:
        seen[ids(s.context)] = "an earlier span"
    for k, r in enumerate(res):
        for kind, i, span in r:
            trace, rid = ids(span.context)
            want = ids(srcs[i].context)
            check(trace == want[0], "{} of a span of trace {} got trace {}", kind, want[0], trace)
            head = want[1] if kind == "child" else want[1].rpartition(".")[0]
            check(rid.rpartition(".")[0] == head, "{} of {} got id {}", kind, want[1], rid)
            check((trace, rid) not in seen, "threads: two spans share the id {} ({} of {} by thread {}, and {})", rid, kind,
                  want[1], k, seen.get((trace, rid)))
            seen[trace, rid] = "%s of %s by thread %d" % (kind, want[1], k)
    return True, ["threads=%d" % n]


def run_deep(c):
    """long chains: each span refers to the one before"""
    steps = [dict(s, of=-1) for s in c["pattern"]]
    steps = [steps[k % len(steps)] for k in range(c["n"])] + c["then"]
    run(dict(steps=[dict(op="root", how="helper", name="root", tags=None, start=None)] + steps))
    return True, ["n=%d" % c["n"]]


DEEP = st.fixed_dictionaries(dict(
    pattern=st.lists(STEP.filter(lambda s: s["op"] in ("child", "follow")).map(lambda s: dict(s, more=None)), min_size=1, max_size=3),
    n=st.sampled_from([20, 33, 70, 130, 260]), then=st.lists(STEP, max_size=5)))
KIND = st.sampled_from(["child", "follow"])
THREADS = st.fixed_dictionaries(dict(
    threads=st.integers(2, 6), jitter=gen.JITTER, each=st.sampled_from([5, 50, 400]), srcs=st.lists(KIND, max_size=3), extracted=st.booleans(),
    plan=st.lists(st.tuples(st.integers(0, 3), KIND).map(list), min_size=1, max_size=4), shift=st.integers(0, 1)))

ASSUMPTIONS = ["when several references are given, the first one counts",
               gen.INTERLEAVINGS]
FACETS = [
    Facet("tree", CASE, run, quick=700, thorough=12000, batch=350,
          rule="histories of up to 40 span operations (root, extracted context, child, follower, baggage) over all API "
               "forms; ids checked for structure and uniqueness, all existing spans re-checked after each step; "
               "non-trivial = at least three spans"),
    Facet("deep", DEEP, run_deep, quick=30, thorough=500, rule="chains of 20-260 spans, each referring to the one before; every case counts"),
    Facet("threads", THREADS, run_threads, quick=60, thorough=1000, retries=20,
          rule="2-6 threads start children and followers of the same few spans"),
]
