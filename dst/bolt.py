"""An independent codec for the bolt v1 wire format, used by scripted peers and
oracles only (the code under test never sees it)."""
import struct

RESPONSE, REQUEST, ONEWAY = 0, 1, 2          # ptype
HEARTBEAT, CMD_REQUEST, CMD_RESPONSE = 0, 1, 2   # cmdcode
CLASS_REQ = b"com.alipay.sofa.rpc.core.request.SofaRequest"
CLASS_RESP = b"com.alipay.sofa.rpc.core.response.SofaResponse"

SUCCESS, ERROR, SERVER_EXCEPTION, UNKNOWN, BUSY, ERROR_COMM, NO_PROCESSOR, TIMEOUT = range(8)
CLIENT_SEND_ERROR, CODEC_EXCEPTION = 8, 9
CONNECTION_CLOSED, SER_EXC, DESER_EXC = 0x10, 0x11, 0x12
FAILURES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 0x10, 0x11, 0x12]

REQ_FMT = ">bbhbIbiHHI"
RESP_FMT = ">bbhbIbhHHI"
REQ_SIZE = struct.calcsize(REQ_FMT)
RESP_SIZE = struct.calcsize(RESP_FMT)


def header_map(pairs):
    out = []
    items = pairs.items() if isinstance(pairs, dict) else pairs
    for k, v in items:
        for s in (k, v):
            b = s.encode("utf-8")
            out.append(struct.pack(">i", len(b)) + b)
    return b"".join(out)


def parse_map(b):
    out = []
    i = 0
    while i < len(b):
        if i + 4 > len(b):
            raise ValueError("bad header map")
        n, = struct.unpack(">i", b[i:i + 4])
        i += 4
        if n == -1:
            n = 0
        if n < 0 or i + n > len(b):
            raise ValueError("bad header map")
        out.append(b[i:i + n].decode("utf-8"))
        i += n
    return dict(zip(out[::2], out[1::2]))


def request(rid, content=b"", headers=b"", cls=CLASS_REQ, ptype=REQUEST, cmd=CMD_REQUEST, timeout=-1,
            proto=1, ver2=1, codec=11):
    if not isinstance(headers, bytes):
        headers = header_map(headers)
    return struct.pack(REQ_FMT, proto, ptype, cmd, ver2, rid, codec, timeout, len(cls), len(headers),
                       len(content)) + cls + headers + content


def response(rid, content=b"", headers=b"", cls=CLASS_RESP, ptype=RESPONSE, cmd=CMD_RESPONSE, status=0,
             proto=1, ver2=1, codec=11):
    if not isinstance(headers, bytes):
        headers = header_map(headers)
    return struct.pack(RESP_FMT, proto, ptype, cmd, ver2, rid, codec, status, len(cls), len(headers),
                       len(content)) + cls + headers + content


def heartbeat(rid):
    return request(rid, b"", b"", b"", REQUEST, HEARTBEAT)


def heartbeat_ack(rid, status=0):
    return response(rid, b"", b"", b"", RESPONSE, HEARTBEAT, status)


def rpc(rid, service, method, content, timeout=-1, ptype=REQUEST, extra=None, codec=11):
    h = [("service", service), ("sofa_head_target_service", service), ("sofa_head_method_name", method)]
    h += list((extra or {}).items())
    return request(rid, content, h, ptype=ptype, timeout=timeout, codec=codec)


class Frame:
    __slots__ = ("proto", "ptype", "cmd", "ver2", "rid", "codec", "timeout", "status", "cls", "hdr",
                 "content", "start", "end", "t")

    def headers(self):
        return parse_map(self.hdr)

    def __repr__(self):
        return "Frame(ptype=%s cmd=%s rid=%s status=%s timeout=%s cls=%r content=%r)" % (
            self.ptype, self.cmd, self.rid, self.status, self.timeout, self.cls[-20:], self.content[:40])


class Parser:
    """incremental frame parser; kind 'req' or 'resp'"""

    def __init__(self, kind):
        self.kind = kind
        self.fmt = REQ_FMT if kind == "req" else RESP_FMT
        self.size = struct.calcsize(self.fmt)
        self.buf = bytearray()
        self.pos = 0

    def feed(self, data):
        self.buf += data
        out = []
        while True:
            f = self._one()
            if f is None:
                return out
            out.append(f)

    def _one(self):
        if len(self.buf) < self.size:
            return None
        v = struct.unpack(self.fmt, self.buf[:self.size])
        cl, hl, nl = v[7:]
        total = self.size + cl + hl + nl
        if len(self.buf) < total:
            return None
        f = Frame()
        f.proto, f.ptype, f.cmd, f.ver2, f.rid, f.codec = v[:6]
        if self.kind == "req":
            f.timeout, f.status = v[6], None
        else:
            f.timeout, f.status = None, v[6]
        p = self.size
        f.cls = bytes(self.buf[p:p + cl])
        f.hdr = bytes(self.buf[p + cl:p + cl + hl])
        f.content = bytes(self.buf[p + cl + hl:total])
        f.start = self.pos
        f.end = self.pos + total
        f.t = None
        self.pos += total
        del self.buf[:total]
        return f


def frames(kind, data):
    p = Parser(kind)
    return p.feed(bytes(data)), bytes(p.buf)
