"""C01: encoded messages have the documented layout and decode back to the same message."""
from hypothesis import strategies as st

from anthunder.command.fail_response import FailResponse
from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.constants import CMDCODE, CODEC, PROTO, PTYPE, RESPSTATUS, VER2
from anthunder.protocol.exceptions import ProtocolError

from .. import gen, wire
from ..core import Facet, Violation, check

ASSUMPTIONS = ["header keys and values are str without lone surrogates, content is bytes",
               "contents of 2^31 bytes and more are not generated"]

STATUS = sorted(wire.STATUS_NAME)


def build(c):
    hdr = SofaHeader(gen.to_map(c["header"]))
    content = gen.expand(c["content"])
    kw = dict(ptype=PTYPE(c["ptype"]), cmdcode=CMDCODE(c["cmdcode"]), request_id=c["id"], codec=CODEC(c["codec"]),
              proto=PROTO.BOLT, ver2=VER2.REMOTING)
    if c["kind"] == "request":
        return BoltRequest, BoltRequest(hdr, content, timeout=c["timeout"], **kw)
    return BoltResponse, BoltResponse(hdr, content, respstatus=RESPSTATUS(c["status"]), **kw)


def same(m, c, hdr, content):
    got = dict(ptype=m.ptype, cmdcode=m.cmdcode, id=m.request_id, codec=m.codec, proto=m.proto, ver2=m.ver2)
    want = dict(ptype=c["ptype"], cmdcode=c["cmdcode"], id=c["id"], codec=c["codec"], proto=1, ver2=1)
    if c["kind"] == "request":
        got["timeout"], want["timeout"] = m.timeout, c["timeout"]
    else:
        got["status"], want["status"] = m.respstatus, c["status"]
    check(got == want, "fields differ: got {} want {}", got, want)
    check(dict(m.header) == hdr, "header map differs: got {!r} want {!r}", dict(m.header), hdr)
    check(list(m.header) == list(hdr), "header order differs: {!r} {!r}", list(m.header), list(hdr))
    check(m.content == content, "content differs ({} bytes, want {})", len(m.content), len(content))
    check(isinstance(m.content, bytes), "content is {}", type(m.content))


def run_roundtrip(c):
    hdr, content = gen.to_map(c["header"]), gen.expand(c["content"])
    cls, m = build(c)
    same(m, c, hdr, content)
    if c["kind"] == "request":
        ref = wire.request(c["id"], hdr, content, c["ptype"], c["cmdcode"], c["timeout"], codec=c["codec"])
    else:
        ref = wire.response(c["id"], hdr, content, c["ptype"], c["cmdcode"], c["status"], codec=c["codec"])
    b = m.to_stream()
    check(b == ref, "encoding differs from the documented layout: got {!r}... want {!r}...", b[:60], ref[:60])
    check(m.to_stream() == b, "encoding the same message again gives other bytes")
    size = cls.bolt_header_size()
    check(size == (wire.REQ_SIZE if c["kind"] == "request" else wire.RESP_SIZE), "fixed header size is {}", size)
    check(m.body_len == len(b) - size, "body_len {} but {} bytes follow the fixed header", m.body_len, len(b) - size)
    check((m.header_len, m.content_len) == (len(wire.enc_map(hdr)), len(content)), "header_len/content_len wrong")
    d = cls.from_stream(b)
    same(d, c, hdr, content)
    check(d.to_stream() == b, "re-encoding the decoded message gives other bytes")
    # decoding in two steps, as done when reading from a connection
    h = cls.bolt_header_from_stream(b[:size])
    check(h["class_len"] + h["header_len"] + h["content_len"] == len(b) - size, "lengths in the fixed header: {}", h)
    check(h["request_id"] == c["id"], "request id in the fixed header: {}", h)
    same(cls.bolt_content_from_stream(b[size:], h), c, hdr, content)
    labels = [c["kind"], "big" if len(b) > 65535 else "small"]
    if any(ord(x) > 127 for k, v in hdr.items() for x in k + v):
        labels.append("non-ascii header")
    return bool(hdr) or bool(content), labels


# header maps of an exact encoded size around the limits of a 16-bit length
EDGEMAP = st.sampled_from([32767, 32768, 65534, 65535]).map(lambda n: [["k", ["rep", "a", n - 9]]])
MESSAGE = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["request", "response"]),
    header=gen.mix(gen.LONGMAP, gen.LONGMAP, gen.LONGMAP, EDGEMAP), content=gen.payload(), ptype=st.sampled_from([0, 1, 2]), cmdcode=st.sampled_from([0, 1, 2]),
    id=gen.INT32, codec=st.sampled_from([1, 2, 11]), timeout=gen.INT32, status=st.sampled_from(STATUS)))


def fits(c):
    return len(wire.enc_map(gen.to_map(c["header"]))) <= 65535


# ------------------------------------------------------------------------------------------------ factories
def run_factory(c):
    kind = c["kind"]
    hdr, content = gen.to_map(c["header"]), gen.expand(c["content"])
    if kind == "new_request":
        t = c["timeout_arg"]
        m = BoltRequest.new_request(SofaHeader(hdr), content, ptype=PTYPE(c["ptype"]), timeout_ms=t)
        check(isinstance(m.request_id, int) and 0 <= m.request_id <= 2 ** 31 - 1, "request id {!r}", m.request_id)
        b = m.to_stream()
        f = wire.parse_exact(b, "request")
        if not t:
            check(f.timeout == -1, "no timeout is sent as {}", f.timeout)
        else:
            check(t <= f.timeout < t + 1, "timeout {} sent as {}", t, f.timeout)
        ref = wire.request(m.request_id, hdr, content, c["ptype"], wire.CMD_REQUEST, f.timeout)
        again = BoltRequest.new_request(SofaHeader(hdr), content, ptype=PTYPE(c["ptype"]), timeout_ms=t)
        check(again.request_id != m.request_id, "two requests share the id {}", m.request_id)
    elif kind == "response_to":
        b = BoltResponse.response_to(content, request_id=c["id"]).to_stream()
        ref = wire.response(c["id"], {}, content)
    elif kind == "fail":
        b = FailResponse.response_to(c["id"], RESPSTATUS(c["status"])).to_stream()
        ref = wire.response(c["id"], {}, b"", status=c["status"])
    elif kind == "heartbeat":
        m = HeartbeatRequest.new_request()
        b = m.to_stream()
        f = wire.parse_exact(b, "request")
        ref = wire.request(m.request_id, b"", b"", wire.REQUEST, wire.CMD_HEARTBEAT, f.timeout, class_name=b"")
        d = HeartbeatRequest.from_stream(b)
        check(d.request_id == m.request_id and d.cmdcode == CMDCODE.HEARTBEAT, "heartbeat decodes to {!r}", d)
        b2 = HeartbeatResponse.response_to(c["id"]).to_stream()
        check(b2 == wire.heartbeat_ack(c["id"]), "heartbeat response encodes to {!r}", b2)
        d = BoltResponse.from_stream(b2)
        check((d.request_id, d.cmdcode, d.respstatus) == (c["id"], CMDCODE.HEARTBEAT, RESPSTATUS.SUCCESS),
              "heartbeat response decodes to {!r}", d)
    check(b == ref, "{} encodes to {!r}, the layout says {!r}", kind, b[:70], ref[:70])
    return True, [kind]


FACTORY = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["new_request", "new_request", "response_to", "response_to", "fail", "heartbeat"]),
    header=gen.MAP, content=gen.payload(), ptype=st.sampled_from([1, 2]), id=gen.INT32,
    timeout_arg=st.one_of(st.none(), st.sampled_from([-1, 0, 1, 500, 2 ** 31 - 1]), st.integers(1, 10 ** 7),
                          st.floats(0.01, 10 ** 6, allow_nan=False)),
    status=st.sampled_from(STATUS)))


# ------------------------------------------------------------------------------------------------ unrepresentable
BAD = ["long header", "id range", "id type", "content type", "timeout range", "header type"]


def run_bad(c):
    why = c["why"]
    m = dict(c["msg"])
    if why == "long header":
        # two ways to cross 65535: one long value, or its exact boundary
        m["header"] = [["k", ["rep", "a", 65536 - 9 + c["over"]]]]
    elif why == "id range":
        m["id"] = c["big"]
    elif why == "timeout range":
        m["kind"], m["timeout"] = "request", c["big"]
    hdr = SofaHeader(gen.to_map(m["header"]))
    content = gen.expand(m["content"])
    rid = m["id"]
    if why == "id type":
        rid = c["idobj"]
    if why == "content type":
        content = {"none": None, "str": "abc", "list": [1, 2], "int": 7}[c["obj"]]
    if why == "header type":
        hdr = {"none": None, "str": "abc", "list": [1, 2], "int": dict(hdr)}[c["obj"]]
    kw = dict(ptype=m["ptype"], cmdcode=m["cmdcode"], request_id=rid, codec=m["codec"])
    try:
        if m["kind"] == "request":
            b = BoltRequest(hdr, content, timeout=m["timeout"], **kw).to_stream()
        else:
            b = BoltResponse(hdr, content, respstatus=m["status"], **kw).to_stream()
    except ProtocolError:
        return True, [why]
    except (TypeError, AttributeError):
        if why != "header type":
            raise
        return True, [why]
    raise Violation("a message that does not fit the format ({}) was encoded as {!r}...".format(why, b[:60]))


BADCASE = st.fixed_dictionaries(dict(
    why=st.sampled_from(BAD), msg=MESSAGE.filter(fits), over=st.integers(0, 200),
    big=st.one_of(st.integers(2 ** 31, 2 ** 40), st.integers(-2 ** 40, -2 ** 31 - 1)),
    idobj=st.sampled_from([None, "1", 1.0, b"1"]), obj=st.sampled_from(["none", "str", "list", "int"])))

FACETS = [
    Facet("roundtrip", MESSAGE.filter(fits), run_roundtrip, quick=2500, thorough=40000,
          rule="random messages: every enum value, 32-bit ids and timeouts with boundaries, header maps up to 64 KiB, "
               "contents up to 100 KB; compared byte for byte with an independent encoder and decoded again; "
               "non-trivial = header or content not empty"),
    Facet("factory", FACTORY, run_factory, quick=2000, thorough=10000,
          rule="messages made by the library's own constructors (requests, responses, failures, heartbeats)"),
    Facet("unrepresentable", BADCASE, run_bad, quick=500, thorough=5000,
          rule="messages with one part that does not fit the format; must be refused with a protocol error"),
]
