"""Independent reader, writer and reference model of TDAG traces (no repository code)."""
import os
import struct
from vlib import Violation

SRC, CF = 1 << 63, 1 << 62
M31 = (1 << 31) - 1
M54 = (1 << 54) - 1
U64 = (1 << 64) - 1
ALIGN = {1: 8, 2: 8, 3: 2, 4: 8, 5: 8, 6: 4, 7: 2, 8: 1}


def enc(rec):
    k, a, b, cf = rec
    c = CF if cf else 0
    if k == "S":
        return SRC | c | (b & M54) << 8 | a
    return c | a << 31 | b


def dec(v):
    """('S', idx, off, cf) | ('U', hi, lo, cf) | ('R', first, last, cf)"""
    cf = bool(v & CF)
    if v & SRC:
        return ("S", v & 255, (v >> 8) & M54, cf)
    a, b = (v >> 31) & M31, v & M31
    return ("U" if a > b else "R", a, b, cf)


class Trace:
    """Raw contents of a trace file."""

    def __init__(self, path):
        fd = os.open(path, os.O_RDONLY)
        try:
            self.file_size = os.fstat(fd).st_size
            self.blocks = os.fstat(fd).st_blocks * 512
            h = os.pread(fd, 8, 0)
            if h[:4] != b"TDAG":
                raise Violation("trace does not start with the TDAG magic")
            self.magic, n = struct.unpack("<HH", h[4:])
            self.meta = [struct.unpack("<IIQQ", os.pread(fd, 24, 8 + 24 * i)) for i in range(n)]
            self.header_end = 8 + 24 * n
            self.sec = {}
            for tag, align, off, size in self.meta:
                if size > 1 << 28:
                    raise Violation("section %d claims %d bytes" % (tag, size))
                d = bytearray()
                while len(d) < size:
                    b = os.pread(fd, size - len(d), off + len(d))
                    if not b:
                        raise Violation("section %d exceeds the file" % tag)
                    d += b
                self.sec[tag] = bytes(d)
        finally:
            os.close(fd)

    def string(self, off):
        d = self.sec[3]
        if off + 2 > len(d):
            raise Violation("string offset %d outside the string table" % off)
        n, = struct.unpack_from("<H", d, off)
        if off + 2 + n > len(d):
            raise Violation("string at %d exceeds the string table" % off)
        return d[off + 2:off + 2 + n]

    @property
    def sources(self):
        d = self.sec[1]
        if len(d) % 16:
            raise Violation("source section size %d" % len(d))
        return [(self.string(o), fd, size) for o, fd, size in struct.iter_unpack("<IiQ", d)]

    @property
    def labels(self):
        d = self.sec[2]
        if len(d) % 8:
            raise Violation("label section size %d" % len(d))
        return [v for v, in struct.iter_unpack("<Q", d)]

    @property
    def sinks(self):
        d = self.sec[4]
        if len(d) % 16:
            raise Violation("sink section size %d" % len(d))
        return [(off, lab, idx) for off, lab, idx in struct.iter_unpack("<qIB3x", d)]

    @property
    def index(self):
        d = self.sec[5]
        if len(d) % 8:
            raise Violation("source index size %d" % len(d))
        r = []
        for i, (w,) in enumerate(struct.iter_unpack("<Q", d)):
            while w:
                b = w & -w
                r.append(64 * i + b.bit_length() - 1)
                w ^= b
        return r

    @property
    def functions(self):
        return [self.string(o) for o, in struct.iter_unpack("<I", self.sec[6])]

    @property
    def events(self):
        return [(k, f) for k, f in struct.iter_unpack("<BxH", self.sec[7])]

    @property
    def cflog(self):
        d = self.sec[8]
        i = 0
        r = []

        def vi():
            nonlocal i
            v = s = 0
            while True:
                if i >= len(d):
                    raise Violation("control-flow log ends inside an entry")
                c = d[i]
                i += 1
                v |= (c & 127) << s
                s += 7
                if not c & 128:
                    return v
        while i < len(d):
            k = d[i]
            i += 1
            if k in (0, 1):
                r.append((k, vi()))
            elif k == 2:
                f = vi()
                r.append((2, f, vi()))
            else:
                raise Violation("unknown control-flow event %d" % k)
        return r


def reach_all(labels):
    """For every label the frozenset of (source, offset) pairs it stands for; validates the graph."""
    r = [frozenset()]
    for i, v in enumerate(labels):
        if i == 0:
            continue
        k, a, b, cf = dec(v)
        if k == "S":
            r.append(frozenset([(a, b)]))
        elif k == "U":
            if not 0 < b < a < i:
                raise Violation("label %d: union of (%d, %d)" % (i, a, b))
            r.append(r[a] | r[b])
        else:
            if not 0 < a < b < i:
                raise Violation("label %d: range [%d, %d]" % (i, a, b))
            r.append(frozenset().union(*r[a:b + 1]))
    return r


def bitset_reach(labels):
    """As reach_all with integer bit sets over the source labels; returns (sets, source key -> bit)."""
    keys = {}
    r = [0]
    for i, v in enumerate(labels):
        if i == 0:
            continue
        k, a, b, cf = dec(v)
        if k == "S":
            r.append(1 << keys.setdefault((a, b), len(keys)))
        elif k == "U":
            if not 0 < b < a < i:
                raise Violation("label %d: union of (%d, %d)" % (i, a, b))
            r.append(r[a] | r[b])
        else:
            if not 0 < a < b < i:
                raise Violation("label %d: range [%d, %d]" % (i, a, b))
            s = 0
            for j in range(a, b + 1):
                s |= r[j]
            r.append(s)
    return r, keys


def varint(v):
    o = bytearray()
    while True:
        b = v & 127
        v >>= 7
        if v:
            o.append(b | 128)
        else:
            o.append(b)
            return bytes(o)


def write(path, sources=(), labels=(0,), sinks=(), functions=(), events=(), cflog=b"", index=None, order=None, pad=0):
    """Writes a compact trace. labels are encoded values (entry 0 included)."""
    st = bytearray()

    def s(b):
        off = len(st)
        st.extend(struct.pack("<H", len(b)) + b)
        if len(st) % 2:
            st.append(0)
        return off
    src = b"".join(struct.pack("<IiQ", s(n), fd, size) for n, fd, size in sources)
    fns = b"".join(struct.pack("<I", s(n)) for n in functions)
    if index is None:
        index = [i for i, v in enumerate(labels) if v & SRC]
    words = [0] * ((max(index) // 64 + 1) if index else 0)
    for i in index:
        words[i // 64] |= 1 << (i % 64)
    sec = {1: src, 2: struct.pack("<%dQ" % len(labels), *labels), 3: bytes(st),
           4: b"".join(struct.pack("<qIB3x", o, l, i) for o, l, i in sinks),
           5: struct.pack("<%dQ" % len(words), *words), 6: fns,
           7: b"".join(struct.pack("<BxH", k, f) for k, f in events), 8: cflog}
    order = order or [1, 2, 3, 4, 5, 6, 7, 8]
    off = 8 + 24 * len(order)
    hdr = struct.pack("<4sHH", b"TDAG", (sum(order) ^ len(order)) & 0xffff, len(order))
    body = bytearray()
    for t in order:
        a = ALIGN[t]
        while (off + len(body)) % a or False:
            body.append(0)
        body.extend(b"\xee" * (pad * 8))
        hdr += struct.pack("<IIQQ", t, a, off + len(body), len(sec[t]))
        body.extend(sec[t])
    with open(path, "wb") as f:
        f.write(hdr + bytes(body))
