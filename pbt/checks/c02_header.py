"""C02: the header map codec."""
from hypothesis import strategies as st

from anthunder.protocol import SofaHeader

from .. import gen, wire
from ..core import Facet, Violation, check

ASSUMPTIONS = ["keys and values are str without lone surrogates"]


def run_map(c):
    m = gen.to_map(c["map"])
    ref = wire.enc_map(m)
    for how, h in (("from a dict", SofaHeader(m)), ("from pairs", SofaHeader(list(m.items()))),
                   ("from keywords", SofaHeader(**m))):
        b = h.to_bytes()
        check(b == ref, "{}: {!r} encodes to {!r}..., want {!r}...", how, m, b[:80], ref[:80])
        check(len(h) == len(b), "{}: reported length {} but {} bytes", how, len(h), len(b))
    d = SofaHeader.from_bytes(ref)
    check(isinstance(d, SofaHeader), "decodes to {}", type(d))
    check(list(d.items()) == list(m.items()), "decodes to {!r}, want {!r}", dict(d), m)
    check(d.to_bytes() == ref, "re-encoding differs")
    check(d == SofaHeader(m), "decoded header is not equal to the original")
    # read-only
    k, v = c["assign"]
    d[k] = v
    check(list(d.items()) == list(m.items()), "item assignment changed the header: {!r}", dict(d))
    check(d.to_bytes() == ref and len(d) == len(ref), "item assignment changed the encoding")
    # the encoding is that of the entries, also after others were put in by means that are left open
    h = SofaHeader(m)
    h.to_bytes(), len(h)
    for f in (lambda: h.update({k: v}), lambda: h.setdefault(v, k), lambda: h.pop(next(iter(m), None), None)):
        try:
            f()
        except Exception:
            continue
        now = wire.enc_map(dict(h.items()))
        check(h.to_bytes() == now and len(h) == len(now), "the encoding is not that of the entries after a change")
    return bool(m), ["n=%d" % min(len(m), 5) if len(m) < 100 else "n>=100", "bytes>64K" if len(ref) > 65535 else "bytes<=64K"]


MAPCASE = st.fixed_dictionaries(dict(
    map=gen.mix(gen.LONGMAP, gen.LONGMAP, gen.LONGMAP, st.tuples(gen.MANYKEYS, gen.TEXT).map(lambda t: [list(t)]), *[st.lists(st.tuples(gen.KEYS, gen.TEXT).map(list), max_size=30,
                                        unique_by=lambda t: t[0])] * 3),
    assign=st.tuples(gen.KEYS, gen.TEXT)))


def run_null(c):
    """strings on the wire are text or null; null reads as empty text"""
    b, want = b"", []
    for k, v in c["pairs"]:
        for s in (k, v):
            b += b"\xff\xff\xff\xff" if s is None else wire.enc_str(gen.text(s))
        want.append((gen.text(k or ""), gen.text(v or "")))
    d = SofaHeader.from_bytes(b)
    check(dict(d) == dict(want), "{!r} decodes to {!r}, want {!r}", b[:80], dict(d), dict(want))
    nulls = sum(x is None for p in c["pairs"] for x in p)
    return nulls > 0, ["nulls=%d" % min(nulls, 3)]


NULLCASE = st.fixed_dictionaries(dict(pairs=st.lists(
    st.tuples(st.one_of(st.none(), gen.KEYS), st.one_of(st.none(), gen.TEXT, gen.LONGTEXT)), max_size=6,
    unique_by=lambda t: t[0] or "").map(lambda l: [list(x) for x in l])))



KINDS = dict(none=lambda x: None, bool=bool, int=int, float=float, bytes=lambda x: str(x).encode(),
             bytearray=lambda x: bytearray(str(x).encode()), list=lambda x: [str(x)], tuple=lambda x: (str(x),),
             dict=lambda x: {str(x): "v"}, surrogate=lambda x: "a" + chr(0xd800 + x))


def run_foreign(c):
    """what is not text cannot come back as what it was: it is refused"""
    m = gen.to_map(c["map"])
    bad = KINDS[c["kind"]](c["n"])
    items = list(m.items())
    at = c["at"] % (len(items) + 1)
    if c["askey"] and c["kind"] in ("none", "bool", "int", "float", "bytes", "tuple", "surrogate"):
        items.insert(at, (bad, "v"))
    else:
        items.insert(at, ("the key of the foreign value", bad))
    h = SofaHeader(items)
    for what, f in (("encoded to", h.to_bytes), ("has the length", lambda: len(h))):
        try:
            r = f()
        except Exception:
            continue
        raise Violation("a header with {!r} {} {!r}".format(bad, what, r))
    return True, [c["kind"]]


FOREIGN = st.fixed_dictionaries(dict(
    map=st.lists(st.tuples(gen.KEYS, gen.TEXT).map(list), max_size=4, unique_by=lambda t: t[0]),
    kind=st.sampled_from(sorted(KINDS)), n=st.integers(0, 99), at=st.integers(0, 4), askey=st.booleans()))

FACETS = [
    Facet("map", MAPCASE, run_map, quick=2500, thorough=40000,
          rule="maps of text to text (all planes of Unicode, empty strings, values up to 84 KB, up to 30 entries, sometimes up to 1025) "
               "against an independent encoder; non-trivial = at least one entry"),
    Facet("null", NULLCASE, run_null, quick=1500, thorough=20000,
          rule="wire bytes with Java nulls among the strings; non-trivial = at least one null"),
    Facet("foreign", FOREIGN, run_foreign, quick=300, thorough=3000,
          rule="maps with one key or value that is not (encodable) text: refused, never altered"),
]
