"""Shared generators. Everything they produce is plain data (see core.enc)."""
import unicodedata

from hypothesis import strategies as st

INT32 = st.one_of(
    st.sampled_from([0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 31 - 2]),
    st.integers(-2 ** 31, 2 ** 31 - 1))
REQID = st.one_of(st.sampled_from([0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 24]),
                  st.integers(0, 2 ** 31 - 1))

_alphabet = st.one_of(
    st.characters(codec="utf-8"),
    st.sampled_from("abcXYZ019._-:\x00\n é中国￿𝄞\ufeff\u0800\u07ff\x7f\x80"))
# text that careless handling changes: byte order mark, blanks to strip, line ends, things to unescape or to normalise,
# characters whose upper or lower case differs in length, words that look like other values
SPECIAL = st.lists(st.sampled_from(
    ["\ufeff", " ", "\t", "\n", "\r\n", "\x00", "%41", "%", "+", "&", "=", ";", ",", "\\", "\"", "'", "{}", "{0}", "%s",
     "null", "None", "true", "0", "-1", "1.0", "e\u0301", "\u00e9", "\ufb01", "\u0130", "\u00df", "\u2028", "\x85",
     "A", "a", "x", "\u200b", "."]), min_size=1, max_size=3).map("".join)
TEXT = st.sampled_from(range(5)).flatmap(lambda k: SPECIAL if k == 0 else st.text(_alphabet, max_size=12))
NAME = st.text(st.sampled_from("abcdefghijklmnopqrstuvwxyzABC019_.:"), min_size=1, max_size=20)
KEYS = st.one_of(
    TEXT,
    st.sampled_from(["service", "uid", "sofa_head_target_service", "sofa_head_method_name", "sofa_head_target_app",
                     "rpc_trace_context.sofaRpcId", "rpc_trace_context.sofaTraceId", "rpc_trace_context.a.b"]))
# text with a length: short text, or one character repeated so that a boundary of the length fields is crossed
LONGTEXT = st.one_of(TEXT, st.tuples(st.sampled_from(["a", "é", "中", "𝄞"]),
                                     st.sampled_from([127, 128, 255, 256, 8000, 21000])).map(lambda t: ["rep", t[0], t[1]]))
MAP = st.lists(st.tuples(KEYS, TEXT), max_size=6, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l])
LONGMAP = st.lists(st.tuples(KEYS, LONGTEXT), max_size=4, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l])

SIZES = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000]


# contents that careless handling changes: blanks or padding to strip, line ends, marks, words, compressed data, messages
SPECIAL_BYTES = [b"\0", b"\0\0\0\0", b" ", b" a ", b"\n", b"a\r\n", b"a\n\n", b"\xef\xbb\xbfa", b"null", b"None", b"False",
                 b"0", b"\xff\xff\xff\xff", b"\x1f\x8b\x08\0", b"%s %(a)s {}", b"{}", b"[]", b'""', b"\x80abc",
                 b"b'x'", b"|", b"\x04\0", b"\x01\x01\0\x01\x01\0\0\0\x05\x0b\xff\xff\xff\xff\0\0\0\0\0\0\0\0"]
MORE_SIZES = [20, 22, 66, 1000, 1460, 4095, 4096, 4097, 8192, 16384]


def payload(sizes=SIZES, max_raw=40):
    """bytes, written as raw bytes, as ["pat", n, k]: n bytes of a pattern that starts at k, as ["rep", n, k]: n
    times the byte k, or as ["ends", n, i, j]: n bytes (or more) between two special ones"""
    k = st.integers(0, 250)
    pat = st.tuples(st.just("pat"), st.sampled_from(sizes), k)
    return mix(st.binary(max_size=max_raw), st.binary(max_size=max_raw), pat, pat, pat,
               st.sampled_from(SPECIAL_BYTES), st.sampled_from(SPECIAL_BYTES),
               st.tuples(st.just("pat"), st.one_of(st.sampled_from(MORE_SIZES), st.integers(0, 12000)), k),
               st.tuples(st.just("rep"), st.sampled_from(sizes + MORE_SIZES), st.sampled_from([0, 0, 10, 32, 255])),
               st.tuples(st.just("ends"), st.sampled_from(sizes + MORE_SIZES), st.integers(0, len(SPECIAL_BYTES) - 1),
                         st.integers(0, len(SPECIAL_BYTES) - 1))).map(lambda t: list(t) if isinstance(t, tuple) else t)


def expand(p):
    if isinstance(p, (bytes, bytearray)):
        return bytes(p)
    if p[0] == "ends":
        a, b = SPECIAL_BYTES[p[2]], SPECIAL_BYTES[p[3]]
        return a + expand(["pat", max(0, p[1] - len(a) - len(b)), 7]) + b
    kind, n, k = p
    if kind == "rep":
        return bytes([k]) * n
    # 251 is prime and coprime to every power of two: shifted or reordered blocks do not go unnoticed
    block = bytes((k + j) % 251 for j in range(251))
    return (block * (n // 251 + 1))[:n]


def text(t):
    if isinstance(t, str):
        return t
    return t[1] * t[2]


def to_map(pairs):
    """:param pairs: of a key (or ["keys", n, start], which stands for n entries) and a text"""
    m = {}
    for k, v in pairs:
        if isinstance(k, str):
            m[k] = text(v)
        else:
            m.update(("%s%d" % (k[2], i), text(v) + str(i)) for i in range(k[1]))
    return m


MANY = [9, 17, 33, 65, 129, 257, 300]
MANYKEYS = st.tuples(st.just("keys"), st.sampled_from(MANY + [1025]), NAME).map(list)
# baggage of a usual size, of many items, with long names, with long values
_LONG = st.sampled_from([65, 129, 257, 1025, 4097, 16000])


def bag(keys=None, max_size=3):
    keys = NAME if keys is None else keys
    usual = st.lists(st.tuples(keys, TEXT).map(list), max_size=max_size, unique_by=lambda t: t[0])
    return mix(*[usual] * 7, st.tuples(st.sampled_from(MANY), NAME).map(lambda t: [["%s%d" % (t[1], i), str(i)] for i in range(t[0])]),
               st.tuples(NAME, _LONG, st.sampled_from("aé中")).map(lambda t: [[t[0], t[2] * (t[1] - 1) + "."]]),
               st.tuples(_LONG, TEXT).map(lambda t: [["k" * t[0], t[1]]]))



def mix(*strategies):
    """one_of that keeps repeated strategies as weights (one_of drops them, and flattens nested ones)"""
    return st.sampled_from(range(len(strategies))).flatmap(lambda k: strategies[k])


# a name that is not, but with a careless comparison or normalisation is, the given one
_NEAR = [" %s", "%s ", "\t%s", "%s\n", "%s\r\n", "\x00%s", "%s\x00", "\u00a0%s", "\ufeff%s", "%s\u200b", "x.%s", ".%s", "%s.", "%s.x",
         "/%s", "%s/", "%s()", "self.%s", "_%s", "__%s__", "%s@DEFAULT", "%s:", "%s:1.0", "%s#", "%s?", "%s;", "%s,%s", "%s %s", "'%s'",
         "\"%s\"", "%%%s", "%s%%20", "%s*", "*"]
_NEAR_FNS = dict(swap=str.swapcase, upper=str.upper, lower=str.lower, title=str.title, dash=lambda s: s.replace("_", "-") if "_" in s else s + "-",
                 under=lambda s: s.replace(".", "_"), colon=lambda s: s.partition(":")[0] + "", last=lambda s: s.rpartition(".")[2],
                 first=lambda s: s.partition(".")[0], short=lambda s: s[:-1], tail=lambda s: s[1:], double=lambda s: s + s,
                 nfd=lambda s: unicodedata.normalize("NFD", s), wide=lambda s: "".join(chr(ord(x) + 0xfee0) if "!" <= x <= "~" else x for x in s),
                 dots=lambda s: s.replace(".", ".."), plus=lambda s: s.replace(":", "%3A"), hexed=lambda s: "".join("%%%02X" % b for b in s.encode()))


def near(names):
    """names that are easily mistaken for one of the given ones, but are not among them"""
    def make(t):
        name, how = t
        if how in _NEAR_FNS:
            return _NEAR_FNS[how](name)
        return how.replace("%%", "\x01").replace("%s", name).replace("\x01", "%")
    return st.tuples(st.sampled_from(names), st.sampled_from(sorted(_NEAR_FNS) + _NEAR)).map(make).filter(lambda s: s and s not in names)


def tagged(prefix, p):
    """the payload after a prefix; a pattern loses its start so that the whole has the length of the pattern (a boundary)"""
    b = expand(p)
    return prefix + (b if isinstance(p, (bytes, bytearray)) or len(prefix) >= len(b) else b[len(prefix):])

# how threads are interleaved (see jitter.Jitter)
JITTER = st.sampled_from([(0, False), (0.02, False), (0.1, False), (0.3, False), (0.01, True), (0.05, True)]).flatmap(
    lambda t: st.fixed_dictionaries(dict(rate=st.just(t[0]), opcodes=st.just(t[1]),
                                         seed=st.integers(0, 2 ** 16) if t[0] else st.just(0))))
INTERLEAVINGS = ("thread interleavings are those CPython produces with a switch interval of 1 microsecond and with pauses "
                 "at random lines or byte codes of the library")

RPC = mix(*[st.lists(st.integers(0, 999), min_size=1, max_size=4)] * 6, st.lists(st.integers(0, 2 ** 40), min_size=1, max_size=3),
          st.lists(st.integers(0, 9), min_size=60, max_size=60)).map(lambda l: ".".join(map(str, l)))
