"""C12: trace context survives injection, headers and the wire."""
import opentracing
from hypothesis import strategies as st

from anthunder.protocol import BoltRequest, SofaHeader
from mytracer import RpcId, SpanContext, TraceId, child_span_of, follows_span_from, tracer
from opentracing import Format, InvalidCarrierException, UnsupportedFormatException

from .. import gen, wire
from ..core import Facet, Violation, check

P = "rpc_trace_context."

SEG = st.one_of(st.integers(0, 12), st.integers(0, 2 ** 40),
                st.text("abcdefXYZ", min_size=1, max_size=4),
                st.sampled_from(["0x1f", "0b11", "0o17", "1e3", "1x", "-", "-1", "x-1", "inf", "nan", "1,0", "\u00b2", ""]))
RPCID = st.tuples(gen.mix(*[st.lists(SEG, max_size=5)] * 7, st.lists(SEG, min_size=40, max_size=80)), st.integers(0, 2 ** 33)).map(lambda t: ".".join(map(str, t[0] + [t[1]])))
TRACEID = st.one_of(st.text("0123456789abcdef", min_size=1, max_size=40), gen.TEXT)
# the two ids are not baggage items; any other name is, even one that the implementation uses for a parameter
BAGKEY = st.one_of(gen.NAME, st.sampled_from(["a.b", "", ".", "penAttrs", "sysPenAttrs", "samp", "rpc_trace_context.x",
                                              "callerAppName", "self", "reference", "expand", "prefix", "kwargs"]),
                   gen.TEXT).filter(lambda k: k not in ("sofaTraceId", "sofaRpcId"))
BAG = gen.bag(BAGKEY, 4)
OTHERKEY = st.one_of(gen.TEXT, st.sampled_from(["rpc_trace_context", "xrpc_trace_context.a", "Rpc_trace_context.a",
                                               "rpc_trace_contextXa", " rpc_trace_context.a", "sofaTraceId",
                                               "sofaRpcId", "service", "uid"])).filter(lambda k: not k.startswith(P))
OTHER = st.lists(st.tuples(OTHERKEY, gen.TEXT), max_size=4, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l])


def same(ctx, trace, rpc, bag, what):
    b = dict(ctx.baggage)
    check(str(b.pop("sofaTraceId", None)) == trace, "{}: trace id {!r}, want {!r}", what,
          str(ctx.baggage.get("sofaTraceId")), trace)
    check(str(b.pop("sofaRpcId", None)) == rpc, "{}: span id {!r}, want {!r}", what,
          str(ctx.baggage.get("sofaRpcId")), rpc)
    check(b == bag, "{}: baggage {!r}, want {!r}", what, b, bag)


def run_roundtrip(c):
    bag, other = dict(c["bag"]), dict(c["other"])
    carrier = dict(other)
    carrier.update({P + k: v for k, v in bag.items()})
    carrier[P + "sofaTraceId"] = c["trace"]
    carrier[P + "sofaRpcId"] = c["rpc"]
    before = dict(carrier)
    ctx = tracer.extract(Format.TEXT_MAP, carrier)
    check(carrier == before, "extracting changed the carrier: {!r}", carrier)
    same(ctx, c["trace"], c["rpc"], bag, "extracted")
    trace, rpc = c["trace"], c["rpc"]
    if c["derive"] == "child":
        ctx = tracer.start_span("op", child_of=ctx).context
        rpc += ".1"
    elif c["derive"] == "span":
        # a span's own baggage item travels too
        span = tracer.start_span("op", child_of=ctx)
        span.set_baggage_item("set.item", "é1")
        span.set_baggage_item("set.number", 5)
        ctx, bag, rpc = span.context, dict(bag, **{"set.item": "é1", "set.number": "5"}), rpc + ".1"
    elif c["derive"] == "new":
        ctx = tracer.start_span("op").context
        trace, rpc, bag = str(ctx.baggage["sofaTraceId"]), "1", {}
    ctx_items = {k: str(v) for k, v in ctx.baggage.items()}
    # a context replaces the one that a carrier already has, as when a request is sent on
    c3 = dict(other)
    c3.update({P + "sofaTraceId": "older", P + "sofaRpcId": "9.9"})
    c3.update({P + k: "older" for k in bag})
    tracer.inject(ctx, Format.TEXT_MAP, c3)
    same(tracer.extract(Format.TEXT_MAP, c3), trace, rpc, bag, "injected into a carrier with an older context and extracted")
    # injection: exactly the context's items are added, everything else stays
    c2 = dict(other)
    r = tracer.inject(ctx, Format.TEXT_MAP, c2)
    want = dict(other)
    want.update({P + k: v for k, v in bag.items()})
    want.update({P + "sofaTraceId": trace, P + "sofaRpcId": rpc})
    check(c2 == want, "injected carrier {!r}, want {!r}", c2, want)
    check(r is None or r == want, "inject returned {!r}", r)
    again = tracer.extract(Format.TEXT_MAP, c2)
    same(again, trace, rpc, bag, "injected and extracted")
    check(again.baggage["sofaTraceId"] == TraceId(trace), "trace ids do not compare equal")
    # through a header map, its bytes and a whole message
    extra = {k: v for k, v in other.items() if k and k not in ("service", "uid", "self", "cls", "spanctx", "interface",
                                                              "method_name", "target_app")
             and not k.startswith("sofa_head")}
    h = SofaHeader.build_header(ctx, "inf", "m", target_app=c["app"], uid=c["uid"], **extra)
    now = {k: str(v) for k, v in ctx.baggage.items()}
    check(now == ctx_items, "injecting changed the context: {!r}, was {!r}", now, ctx_items)
    wanth = dict(extra)
    wanth.update({k: v for k, v in want.items() if k.startswith(P)})
    wanth.update(dict(sofa_head_target_service="inf", sofa_head_method_name="m", sofa_head_target_app=c["app"],
                      service="inf", uid=c["uid"]))
    check(dict(h) == wanth, "header {!r}, want {!r}", dict(h), wanth)
    h2 = SofaHeader.from_bytes(h.to_bytes())
    same(tracer.extract(Format.TEXT_MAP, h2), trace, rpc, bag, "through header bytes")
    f = wire.parse_exact(BoltRequest.new_request(h, b"x", timeout_ms=5).to_stream(), "request")
    check(f.map == wanth, "header on the wire {!r}, want {!r}", f.map, wanth)
    m = BoltRequest.from_stream(wire.request(5, h.to_bytes(), b"x"))
    same(tracer.extract(Format.TEXT_MAP, m.header), trace, rpc, bag, "through a message")
    return bool(bag) or bool(other) or "." in rpc, [c["derive"], "bag=%d" % len(bag), "segs=%d" % (rpc.count(".") + 1)]


RT = st.fixed_dictionaries(dict(trace=TRACEID, rpc=RPCID, bag=BAG, other=OTHER, app=gen.TEXT, uid=gen.TEXT,
                                derive=st.sampled_from(["same", "same", "child", "span", "new"])))


def run_partial(c):
    """parts of the context missing or illegal"""
    carrier = dict(c["other"])
    bag = dict(c["bag"])
    carrier.update({P + k: v for k, v in bag.items()})
    if c["trace"] is not None:
        carrier[P + "sofaTraceId"] = c["trace"]
    if c["rpc"] is not None:
        carrier[P + "sofaRpcId"] = c["rpc"]
    illegal = False
    if c["rpc"] is not None:
        try:
            int(c["rpc"].split(".")[-1])
        except ValueError:
            illegal = True
    try:
        ctx = tracer.extract(Format.TEXT_MAP, carrier)
    except InvalidCarrierException:
        check(illegal, "a legal context was rejected: {!r}", carrier)
        return True, ["rejected"]
    check(not illegal, "an illegal span id {!r} was accepted: {}", c["rpc"], ctx)
    trace = c["trace"]
    if trace is None:
        trace = str(ctx.baggage["sofaTraceId"])
        other = str(tracer.extract(Format.TEXT_MAP, carrier).baggage["sofaTraceId"])
        check(trace and trace != other, "two new traces got the same id {!r}", trace)
    same(ctx, trace, c["rpc"] if c["rpc"] is not None else "1", bag, "extracted")
    # an unsupported format is refused, both ways
    for fmt in (Format.BINARY, Format.HTTP_HEADERS):
        for fn in (lambda: tracer.extract(fmt, dict(carrier)), lambda: tracer.inject(ctx, fmt, {})):
            try:
                fn()
            except UnsupportedFormatException:
                continue
            raise Violation("format {} was accepted".format(fmt))
    return True, ["accepted", "no trace" if c["trace"] is None else "trace", "no rpc" if c["rpc"] is None else "rpc"]


PARTIAL = st.fixed_dictionaries(dict(
    trace=st.one_of(st.none(), TRACEID),
    rpc=st.one_of(st.none(), RPCID, st.sampled_from(["", ".", "1.", "1.a", "a", "1.2.x", "1..", "1.2."])),
    bag=BAG, other=OTHER))


def run_rpcid(c):
    """span ids compare by value"""
    a, b = RpcId(*c["a"].split(".")), RpcId(*c["b"].split("."))
    check((a == b) == (c["a"] == c["b"]), "{} == {} is {}", a, b, a == b)
    check((str(a), str(b)) == (c["a"], c["b"]), "printed as {} {}, given {} {}", a, b, c["a"], c["b"])
    check(TraceId(c["a"]) == TraceId(c["a"]) and (TraceId(c["a"]) == TraceId(c["b"])) == (c["a"] == c["b"]),
          "trace ids compare wrongly")
    return True, ["equal" if c["a"] == c["b"] else "different"]


RP = RPCID.flatmap(lambda a: st.fixed_dictionaries(dict(a=st.just(a), b=st.one_of(
    st.just(a), RPCID, st.just(a + ".1"), st.just("1." + a)))))

FACETS = [
    Facet("roundtrip", RT, run_roundtrip, quick=2500, thorough=40000,
          rule="random contexts (trace id, dotted span id, baggage) among unrelated header entries, extracted, derived, "
               "injected, put into header maps and messages; non-trivial = baggage, foreign entries or a nested id"),
    Facet("partial", PARTIAL, run_partial, quick=1500, thorough=20000,
          rule="carriers with missing or illegal ids; verdict compared with the rule (last segment is a number)"),
    Facet("rpcid", RP, run_rpcid, quick=600, thorough=5000, rule="pairs of ids, equal or related"),
]
