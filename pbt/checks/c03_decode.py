"""C03: decoding arbitrary bytes is total and faithful."""
import struct

from hypothesis import strategies as st

from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.exceptions import DecodeError

from .. import gen, wire
from ..core import Facet, Violation, check

CLS = dict(request=BoltRequest, response=BoltResponse, hbrequest=HeartbeatRequest, hbresponse=HeartbeatResponse)


def decode(fn, b):
    try:
        return fn(b)
    except DecodeError:
        return None
    except RecursionError as e:
        raise Violation("RecursionError on {} bytes".format(len(b)))
    except Exception as e:
        raise Violation("decoding {!r} ({} bytes) raised {!r} instead of a decode error".format(b[:80], len(b), e))


def judge_message(kind, b):
    wk = "request" if kind in ("request", "hbrequest") else "response"
    try:
        ref = wire.parse_exact(b, wk)
    except wire.Bad as e:
        ref, why = None, e
    # the fixed part alone, as read from a connection
    h = decode(CLS[kind].bolt_header_from_stream, b)
    size = 22 if wk == "request" else 20
    check(CLS[kind].bolt_header_size() == size, "a {} needs {} bytes", kind, CLS[kind].bolt_header_size())
    check((h is None) == (len(b) < size), "the fixed part of {!r} ({} bytes, {} needed) decoded to {}", b[:30], len(b), size, h)
    if h is not None:
        got = (h["request_id"], h["class_len"], h["header_len"], h["content_len"])
        want = struct.unpack(">i", b[5:9]) + struct.unpack(">HHI", b[size - 8:size])
        check(got[0] == want[0] and [int(x) for x in got[1:]] == list(want[1:]),
              "the fixed part of {!r} decoded to (id, lengths) {}, want {}", b[:30], got, want)
    m = decode(CLS[kind].from_stream, b)
    if ref is None:
        check(m is None, "accepted invalid bytes ({}): {!r} -> {!r}", why, b[:80], m)
        return "rejected"
    check(m is not None, "rejected a valid message {!r}", b[:120])
    got = (m.proto, m.ptype, m.cmdcode, m.ver2, m.request_id, m.codec, m.content, dict(m.header))
    want = (ref.proto, ref.ptype, ref.cmdcode, ref.ver2, ref.request_id, ref.codec, ref.content, ref.map)
    check(got == want, "decoded {!r}, want {!r}", got, want)
    if wk == "request":
        check(m.timeout == ref.timeout, "timeout {} want {}", m.timeout, ref.timeout)
    else:
        check(m.respstatus == ref.status, "status {} want {}", m.respstatus, ref.status)
    return "accepted"


def judge_header(b):
    try:
        ref = wire.dec_map(b)
    except wire.Bad as e:
        ref, why = None, e
    h = decode(SofaHeader.from_bytes, b)
    if ref is None:
        check(h is None, "accepted an invalid header map ({}): {!r} -> {!r}", why, b[:80], h and dict(h))
        return "rejected"
    check(h is not None, "rejected a valid header map {!r}", b[:120])
    check(dict(h) == ref, "decoded {!r}, want {!r}", dict(h), ref)
    return "accepted"


def mutate(b, muts):
    b = bytearray(b)
    for m in muts:
        op, pos = m["op"], m["pos"]
        p = pos % (len(b) + 1)
        if op == "set" and p < len(b):
            b[p] = m["val"]
        elif op == "flip" and p < len(b):
            b[p] ^= 1 << (m["val"] % 8)
        elif op == "cut":
            del b[p:]
        elif op == "del":
            del b[p:p + 1 + m["val"] % 5]
        elif op == "ins":
            b[p:p] = bytes([m["val"]]) * (1 + m["pos"] % 4)
        elif op == "add":
            b += bytes([m["val"]]) * (1 + p % 3)
        elif op == "int32" and p + 4 <= len(b):
            b[p:p + 4] = (m["big"] & 0xffffffff).to_bytes(4, "big")
        elif op == "int16" and p + 2 <= len(b):
            b[p:p + 2] = (m["big"] & 0xffff).to_bytes(2, "big")
    return bytes(b)


def base(c):
    hdr = gen.to_map(c["header"])
    content = gen.expand(c["content"])
    if c["kind"] in ("request", "hbrequest"):
        cls = wire.REQ_CLASS if c["cls"] == "std" else c["cls"]
        return wire.request(c["id"], hdr, content, c["ptype"], c["cmdcode"], c["timeout"], class_name=cls,
                            codec=c["codec"])
    cls = wire.RESP_CLASS if c["cls"] == "std" else c["cls"]
    return wire.response(c["id"], hdr, content, c["ptype"], c["cmdcode"], c["status"], class_name=cls,
                         codec=c["codec"])


def run_mutated(c):
    b = mutate(base(c), c["muts"])
    r = judge_message(c["kind"], b)
    return True, [r, "muts=%d" % len(c["muts"])]


MUT = st.fixed_dictionaries(dict(
    op=st.sampled_from(["set", "flip", "cut", "del", "ins", "add", "int32", "int16"]),
    # most positions matter in the fixed header and in the length prefixes that follow the class name
    pos=st.one_of(st.integers(0, 25), st.integers(60, 130), st.integers(0, 400)),
    val=st.integers(0, 255),
    big=st.sampled_from([-1, -2, 0, 1, 2 ** 31 - 1, -2 ** 31, 255, 65535, 4, 8, 16])))

MUTATED = st.fixed_dictionaries(dict(
    kind=st.sampled_from(sorted(CLS)), header=gen.MAP, content=st.binary(max_size=20),
    ptype=st.sampled_from([0, 1, 2]), cmdcode=st.sampled_from([0, 1, 2]), id=gen.INT32,
    codec=st.sampled_from([1, 2, 11]), timeout=gen.INT32, status=st.sampled_from(sorted(wire.STATUS_NAME)),
    cls=gen.mix(st.just("std"), st.just("std"), st.binary(max_size=5)),
    muts=st.lists(MUT, max_size=3)))


def run_fields(c):
    """every value of one fixed-header field"""
    ref = bytearray(base(c))
    off, width = c["field"]
    ref[off:off + width] = (c["value"] & ((1 << 8 * width) - 1)).to_bytes(width, "big")
    r = judge_message(c["kind"], bytes(ref))
    return True, [r]


FIELDS = MUTATED.flatmap(lambda c: st.fixed_dictionaries(dict(
    {k: st.just(v) for k, v in c.items()},
    field=st.sampled_from([[0, 1], [1, 1], [2, 2], [4, 1], [5, 4], [9, 1]] +
                          ([[10, 4], [14, 2], [16, 2], [18, 4]] if c["kind"] in ("request", "hbrequest")
                           else [[10, 2], [10, 2], [12, 2], [14, 2], [16, 4]])),
    value=st.one_of(st.integers(-5, 40), st.sampled_from([255, 256, 32768, 65535, 2 ** 31, 2 ** 32 - 1])))))


def run_raw(c):
    b = c["bytes"]
    r = judge_message(c["kind"], b)
    h = judge_header(b)
    return len(b) > 0, [r, "header " + h]


RAW = st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(CLS)), bytes=st.binary(max_size=120)))

# header bytes built from pieces: good strings, bad lengths, invalid utf-8, truncation
KV = st.tuples(st.just("kv"), st.tuples(gen.KEYS, st.one_of(st.none(), gen.TEXT)).map(list)).map(list)
PIECE = st.one_of(
    st.tuples(st.just("many"), gen.MANYKEYS).map(list), KV, KV, KV, KV, KV, KV,
    st.tuples(st.just("str"), gen.TEXT).map(list),
    st.tuples(st.just("raw"), st.binary(max_size=8)).map(list),
    st.tuples(st.just("len"), st.sampled_from([-1, -1, -2, -2 ** 31, 0, 1, 2, 5, 2 ** 31 - 1])).map(list),
    st.tuples(st.just("utf8"), st.sampled_from([b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xe4\xb8", b"\xf5\x80\x80\x80",
                                               b"a\x80", b"\xc3\xa9"])).map(list))


def run_pieces(c):
    b = b""
    for what, v in c["pieces"]:
        if what == "kv":
            b += wire.enc_str(v[0]) + (b"\xff" * 4 if v[1] is None else wire.enc_str(v[1]))
        elif what == "many":
            b += wire.enc_map(gen.to_map([[v, "v"]]))
        elif what == "str":
            b += wire.enc_str(v)
        elif what == "raw":
            b += v
        elif what == "len":
            b += wire.i(4, v)
        else:
            b += wire.i(4, len(v)) + v
    b = b[:len(b) - c["cut"]] if c["cut"] else b
    r = judge_header(b)
    # the same header inside a message: the message is rejected with the header
    if len(b) < 65536:
        m = judge_message("request", wire.request(1, b, b"x"))
        check(m == r, "header map alone is {}, inside a message it is {}", r, m)
    return True, [r]


PIECES = st.fixed_dictionaries(dict(pieces=st.lists(PIECE, max_size=8), cut=st.sampled_from([0] * 12 + [1, 2, 3, 5])))

FACETS = [
    Facet("mutated", MUTATED, run_mutated, quick=4000, thorough=60000, hang_s=30,
          rule="valid messages with 0-3 byte-level mutations; verdict and values compared with a reference decoder; "
               "all cases count as non-trivial (unmutated ones check acceptance)"),
    Facet("fields", FIELDS, run_fields, quick=1500, thorough=20000, hang_s=30,
          rule="valid messages with one fixed-header field overwritten"),
    Facet("pieces", PIECES, run_pieces, quick=3000, thorough=60000, hang_s=30,
          rule="header maps assembled from good strings, lengths out of range, invalid UTF-8 and truncation, alone and "
               "inside a message"),
    Facet("raw", RAW, run_raw, quick=1500, thorough=30000, hang_s=30,
          rule="random bytes; non-trivial = not empty"),
]
