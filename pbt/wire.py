"""Reference codec of the Bolt v1 wire format, written from the layout documented in anthunder/protocol/__init__.py
(and independent of the code under test)."""

REQ_CLASS = b"com.alipay.sofa.rpc.core.request.SofaRequest"
RESP_CLASS = b"com.alipay.sofa.rpc.core.response.SofaResponse"
REQ_SIZE, RESP_SIZE = 22, 20

PROTO, VER2 = 1, 1
RESPONSE, REQUEST, ONEWAY = 0, 1, 2
CMD_HEARTBEAT, CMD_REQUEST, CMD_RESPONSE = 0, 1, 2
CODECS = (1, 2, 11)
PROTOBUF = 11
STATUSES = dict(SUCCESS=0, ERROR=1, SERVER_EXCEPTION=2, UNKNOWN=3, SERVER_THREADPOOL_BUSY=4, ERROR_COMM=5,
                NO_PROCESSOR=6, TIMEOUT=7, CLIENT_SEND_ERROR=8, CODEC_EXCEPTION=9, CONNECTION_CLOSED=0x10,
                SERVER_SERIAL_EXCEPTION=0x11, SERVER_DESERIAL_EXCEPTION=0x12)
STATUS_NAME = {v: k for k, v in STATUSES.items()}


def i(n, v):
    return int(v).to_bytes(n, "big", signed=True)


def u(n, v):
    return int(v).to_bytes(n, "big", signed=False)


def enc_str(s):
    b = s.encode("utf-8")
    return i(4, len(b)) + b


def enc_map(pairs):
    if isinstance(pairs, dict):
        pairs = pairs.items()
    return b"".join(enc_str(k) + enc_str(v) for k, v in pairs)


class Bad(Exception):
    pass


def dec_map_pairs(b):
    out, pos = [], 0
    while pos < len(b):
        if len(b) - pos < 4:
            raise Bad("short length")
        n = int.from_bytes(b[pos:pos + 4], "big", signed=True)
        pos += 4
        if n == -1:
            n = 0
        if n < 0 or pos + n > len(b):
            raise Bad("bad length %d" % n)
        try:
            out.append(b[pos:pos + n].decode("utf-8"))
        except UnicodeDecodeError as e:
            raise Bad(e)
        pos += n
    if len(out) % 2:
        raise Bad("odd number of strings")
    return list(zip(out[::2], out[1::2]))


def dec_map(b):
    return dict(dec_map_pairs(b))


def request(request_id, header=b"", content=b"", ptype=REQUEST, cmdcode=CMD_REQUEST, timeout=-1, class_name=REQ_CLASS,
            proto=PROTO, ver2=VER2, codec=PROTOBUF):
    if not isinstance(header, bytes):
        header = enc_map(header)
    return (i(1, proto) + i(1, ptype) + i(2, cmdcode) + i(1, ver2) + i(4, request_id) + i(1, codec) + i(4, timeout) +
            u(2, len(class_name)) + u(2, len(header)) + u(4, len(content)) + class_name + header + content)


def response(request_id, header=b"", content=b"", ptype=RESPONSE, cmdcode=CMD_RESPONSE, status=0,
             class_name=RESP_CLASS, proto=PROTO, ver2=VER2, codec=PROTOBUF):
    if not isinstance(header, bytes):
        header = enc_map(header)
    return (i(1, proto) + i(1, ptype) + i(2, cmdcode) + i(1, ver2) + i(4, request_id) + i(1, codec) + i(2, status) +
            u(2, len(class_name)) + u(2, len(header)) + u(4, len(content)) + class_name + header + content)


def heartbeat(request_id):
    return request(request_id, ptype=REQUEST, cmdcode=CMD_HEARTBEAT, class_name=b"", timeout=0)


def heartbeat_ack(request_id, status=0):
    return response(request_id, cmdcode=CMD_HEARTBEAT, class_name=b"", status=status)


class Frame(object):
    """a parsed frame; size is the whole frame in bytes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        d = dict(self.__dict__)
        for k in ("content", "header_bytes"):
            if len(d[k]) > 60:
                d[k] = "%r...(%d)" % (d[k][:20], len(d[k]))
        return "Frame(%s)" % d

    @property
    def header(self):
        return dec_map(self.header_bytes)


def _s(b):
    return int.from_bytes(b, "big", signed=True)


def _u(b):
    return int.from_bytes(b, "big")


def parse(buf, kind):
    """:return: (Frame, rest) or None when buf holds no complete frame"""
    size = REQ_SIZE if kind == "request" else RESP_SIZE
    if len(buf) < size:
        return None
    f = Frame(proto=_s(buf[0:1]), ptype=_s(buf[1:2]), cmdcode=_s(buf[2:4]), ver2=_s(buf[4:5]),
              request_id=_s(buf[5:9]), codec=_s(buf[9:10]))
    if kind == "request":
        f.timeout = _s(buf[10:14])
        p = 14
    else:
        f.status = _s(buf[10:12])
        p = 12
    cl, hl, bl = _u(buf[p:p + 2]), _u(buf[p + 2:p + 4]), _u(buf[p + 4:p + 8])
    end = size + cl + hl + bl
    f.class_len, f.header_len, f.content_len, f.size = cl, hl, bl, end
    if len(buf) < end:
        return None
    f.class_name = bytes(buf[size:size + cl])
    f.header_bytes = bytes(buf[size + cl:size + cl + hl])
    f.content = bytes(buf[size + cl + hl:end])
    return f, buf[end:]


def parse_exact(b, kind):
    """a message is acceptable iff its lengths account for every byte, its enums are known and its header decodes"""
    r = parse(b, kind)
    if r is None or len(r[1]):
        raise Bad("length")
    f = r[0]
    if f.proto != 1 or f.ptype not in (0, 1, 2) or f.cmdcode not in (0, 1, 2) or f.ver2 != 1 or f.codec not in CODECS:
        raise Bad("enum")
    if kind == "response" and f.status not in STATUS_NAME:
        raise Bad("status")
    f.map = dec_map(f.header_bytes)
    return f


def parse_all(b, kind):
    out = []
    while b:
        r = parse(b, kind)
        if r is None:
            raise Bad("trailing %d bytes" % len(b))
        out.append(r[0])
        b = r[1]
    return out
