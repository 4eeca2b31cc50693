"""An independent reader and writer of the MessagePack format and of the published document layout."""
import struct


class Bad(Exception):
    pass


class Reader:
    def __init__(self, b, pos=0):
        self.b, self.p = b, pos

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad("short")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def num(self, f):
        return struct.unpack(">" + f, self.take(struct.calcsize(f)))[0]

    def value(self):
        t = self.take(1)[0]
        if t <= 0x7f:
            return ("int", t)
        if t >= 0xe0:
            return ("int", t - 256)
        if 0x80 <= t <= 0x8f:
            return self.map(t & 15)
        if 0x90 <= t <= 0x9f:
            return self.arr(t & 15)
        if 0xa0 <= t <= 0xbf:
            return self.str(t & 31)
        if t == 0xc0:
            return ("nil", None)
        if t in (0xc2, 0xc3):
            return ("bool", t == 0xc3)
        if t in (0xc4, 0xc5, 0xc6):
            return ("bin", bytes(self.take(self.num("BHI"[t - 0xc4]))))
        if t in (0xc7, 0xc8, 0xc9):
            n = self.num("BHI"[t - 0xc7])
            return ("ext", (self.num("b"), bytes(self.take(n))))
        if t == 0xca:
            return ("float", struct.unpack(">f", self.take(4))[0])
        if t == 0xcb:
            return ("float", struct.unpack(">d", self.take(8))[0])
        if 0xcc <= t <= 0xcf:
            return ("int", self.num("BHIQ"[t - 0xcc]))
        if 0xd0 <= t <= 0xd3:
            return ("int", self.num("bhiq"[t - 0xd0]))
        if 0xd4 <= t <= 0xd8:
            return ("ext", (self.num("b"), bytes(self.take(1 << (t - 0xd4)))))
        if t in (0xd9, 0xda, 0xdb):
            return self.str(self.num("BHI"[t - 0xd9]))
        if t in (0xdc, 0xdd):
            return self.arr(self.num("HI"[t - 0xdc]))
        if t in (0xde, 0xdf):
            return self.map(self.num("HI"[t - 0xde]))
        raise Bad("tag %x" % t)

    def str(self, n):
        return ("str", self.take(n).decode("utf-8"))

    def arr(self, n):
        return ("arr", [self.value() for _ in range(n)])

    def map(self, n):
        return ("map", [(self.value(), self.value()) for _ in range(n)])

    def want(self, kind):
        k, v = self.value()
        if k != kind:
            raise Bad("expected %s, got %s" % (kind, k))
        return v


def pack(v, wide=0):
    """MessagePack encoding of a Python value; wide selects larger than minimal forms."""
    if v is None:
        return b"\xc0"
    if v is True or v is False:
        return b"\xc3" if v else b"\xc2"
    if isinstance(v, int):
        if 0 <= v <= 0x7f and not wide:
            return bytes([v])
        if -32 <= v < 0 and not wide:
            return bytes([v + 256])
        for k, f in enumerate("BHIQ" if v >= 0 else "bhiq"):
            lo, hi = (0, 1 << (8 << k)) if v >= 0 else (-(1 << ((8 << k) - 1)), 1 << ((8 << k) - 1))
            if lo <= v < hi and k >= wide:
                return bytes([(0xcc if v >= 0 else 0xd0) + k]) + struct.pack(">" + f, v)
        raise Bad("int")
    if isinstance(v, float):
        return b"\xcb" + struct.pack(">d", v)
    if isinstance(v, str):
        e = v.encode("utf-8")
        n = len(e)
        if n < 32 and not wide:
            return bytes([0xa0 + n]) + e
        for k, f in enumerate("BHI"):
            if n < 1 << (8 << k) and k >= wide - 1:
                return bytes([0xd9 + k]) + struct.pack(">" + f, n) + e
    if isinstance(v, bytes):
        for k, f in enumerate("BHI"):
            if len(v) < 1 << (8 << k) and k >= wide - 1:
                return bytes([0xc4 + k]) + struct.pack(">" + f, len(v)) + v
    if isinstance(v, (list, tuple)):
        n = len(v)
        h = bytes([0x90 + n]) if n < 16 and not wide else b"\xdc" + struct.pack(">H", n) if n < 65536 and wide < 2 else b"\xdd" + struct.pack(">I", n)
        return h + b"".join(pack(x, wide) for x in v)
    if isinstance(v, dict):
        n = len(v)
        h = bytes([0x80 + n]) if n < 16 and not wide else b"\xde" + struct.pack(">H", n) if n < 65536 and wide < 2 else b"\xdf" + struct.pack(">I", n)
        return h + b"".join(pack(a, wide) + pack(b, wide) for a, b in v.items())
    raise Bad("type %s" % type(v))


def read_document(b):
    """The parts of an encoded document, in the published order."""
    r = Reader(b)
    out = dict(magic=bytes(r.take(4)) == b"DM_1")
    out["propsLen"] = r.want("int")
    p = r.p
    out["props"] = r.want("map")
    out["propsUsed"] = r.p - p
    names = [r_str(x) for x in r.want("arr")]
    out["layers"] = []
    for name in names:
        fields = []
        for _ in range(r.want("int")):
            f = r.want("str")
            has = r.want("bool")
            t = r.want("str")
            fields.append((f, t, has, r.want("map") if has else []))
        out["layers"].append(dict(name=name, fields=fields))
    out["textsLen"] = r.want("int")
    p = r.p
    out["texts"] = [(r_str(k), [r_str(s) for s in want(v, "arr")]) for k, v in r.want("map")]
    out["textsUsed"] = r.p - p
    for l in out["layers"]:
        l["len"] = r.want("int")
        p = r.p
        l["n"] = r.want("int")
        l["special"], l["cols"] = [], []
        for _ in l["fields"]:
            l["special"].append(r.want("bool"))
            l["cols"].append(r.want("arr"))
        l["used"] = r.p - p
    out["rest"] = len(b) - r.p
    return out


def want(tv, kind):
    if tv[0] != kind:
        raise Bad("expected " + kind)
    return tv[1]


def r_str(tv):
    return want(tv, "str")


def write_document(props, layers, texts, wide=0, special=()):
    """layers: [(name, [(field, type, args or None)], n, [column values])]; texts: [(name, [segments])]."""
    pr = pack(props, wide)
    out = b"DM_1" + pack(len(pr), wide) + pr + pack([l[0] for l in layers], wide)
    for name, fields, n, cols in layers:
        out += pack(len(fields), wide)
        for f, t, args in fields:
            out += pack(f, wide) + pack(args is not None) + pack(t, wide) + (pack(args, wide) if args is not None else b"")
    tx = pack(dict(texts), wide)
    out += pack(len(tx), wide) + tx
    for name, fields, n, cols in layers:
        c = pack(n, wide) + b"".join((b"\xc3" if f[0] in special else b"\xc2") + pack(col, wide) for f, col in zip(fields, cols))
        out += pack(len(c), wide) + c
    return out
