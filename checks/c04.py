from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, Violation, check, eq
from . import pt

ASSUMPTIONS = ["single-threaded use here; concurrent setting is decided by C15"]
CAPS = [1, 7, 8, 64, 65, 130, 192, 1000]


def build():
    return {"core": vbuild.build_core()}


@st.composite
def bm(draw):
    w = draw(st.sampled_from([8, 16, 32, 64, 64]))
    cap = draw(st.sampled_from(CAPS))
    edge = st.one_of(st.integers(0, cap - 1),
                     st.tuples(st.integers(0, cap // w + 1), st.integers(-2, 2)).map(lambda t: max(0, t[0] * w + t[1])))
    bit = st.one_of(edge, edge, edge, st.integers(cap - 1, cap + 3), st.sampled_from([2**32, 2**63, 2**64 - 1]))
    n = st.one_of(st.integers(0, 5), st.integers(0, cap + 2),
                  st.tuples(st.integers(0, cap // w + 1), st.integers(-2, 2)).map(lambda t: max(0, t[0] * w + t[1])),
                  st.sampled_from([2**32, 2**63, 2**64 - 1, 2**64 - 64]))
    ops = draw(st.lists(st.one_of(st.tuples(st.just("set"), bit), st.tuples(st.just("range"), bit, n),
                                  st.tuples(st.just("range"), edge, n).map(
                                      lambda t: ("range", min(t[1], cap - 1), min(t[2], cap - min(t[1], cap - 1)))),
                                  st.tuples(st.just("get"), bit), st.tuples(st.just("size"))).map(list),
                        min_size=1, max_size=25))
    return [w, cap, ops]


def run_bm(case, ctx):
    w, cap, ops = case
    lines = [" ".join(map(str, o)) for o in ops] + ["get %d" % i for i in range(cap)] + ["size", "dump"]
    ans = ctx.server("core").case("BM", [str(w), str(cap)], lines)
    bits = set()
    alloc = (cap + w - 1) // w * (w // 8)
    tags = set()

    def size():
        return (max(bits) // w + 1) * (w // 8) if bits else 0
    for o, a in zip(ops, ans):
        what = "%s on a %d-bit bitmap of capacity %d" % (o, w, cap)
        if o[0] == "set":
            if o[1] >= cap:
                eq(a, "ERR", what)
            else:
                eq(a, "1" if o[1] in bits else "0", what)
                bits.add(o[1])
        elif o[0] == "range":
            if o[2] == 0:
                check(a in ("ok", "ERR"), what + ": " + a)
            elif o[1] >= cap or o[1] + o[2] > cap:
                eq(a, "ERR", what)
                tags.add("refused")
            else:
                eq(a, "ok", what)
                bits.update(range(o[1], o[1] + o[2]))
                if o[1] // w != (o[1] + o[2] - 1) // w:
                    tags.add("several-buckets")
        elif o[0] == "get":
            eq(a, "ERR" if o[1] >= cap else "1" if o[1] in bits else "0", what)
        else:
            eq(a, str(size()), what)
    rest = ans[len(ops):]
    got = {i for i in range(cap) if rest[i] == "1"}
    if got != bits:
        raise Violation("bits differ: missing %s, unexpected %s" % (sorted(bits - got)[:10], sorted(got - bits)[:10]))
    eq(rest[cap], str(size()), "final size")
    hexd, al = rest[cap + 1].split()
    eq(int(al), alloc, "reserved bytes")
    check(size() <= int(al), "size exceeds the reserved space")
    mem = bytes.fromhex(hexd)
    inmem = {8 * i + j for i, b in enumerate(mem) for j in range(8) if b >> j & 1}
    eq(sorted(inmem), sorted(bits), "bits in memory, lowest bit first")
    return "several-buckets" in tags, sorted(tags)


def run_hist(case, ctx):
    m, t = pt.execute(case, ctx)
    labels = t.labels
    want = sorted(m.nsource)
    eq(sorted(i for i, v in enumerate(labels) if v & tdag.SRC), want, "labels recorded as input bytes")
    eq(t.index, want, "entries of the input-label index")
    d = t.sec[5]
    check(len(d) <= (1 << 31) // 8, "index size")
    from polytracker.taint_dag import TDSourceIndexSection

    class Hdr:
        offset, size = 16, len(d)
    eq(list(TDSourceIndexSection(b"\xff" * 16 + d + b"\xff" * 64, Hdr).enumerate_set_bits()), want,
       "index as enumerated by the Python reader")
    return len(want) < len(labels) - 1, ["over-64" if len(labels) > 64 else "small"]


def run_enum(case, ctx):
    """Python enumeration of arbitrary bitmaps."""
    import struct
    from polytracker.taint_dag import TDBitmapSection
    words, off, pad = case
    d = struct.pack("<%dQ" % len(words), *words)

    class Hdr:
        offset, size = off, len(d)
    got = list(TDBitmapSection(b"\xff" * off + d + b"\xff" * pad, Hdr).enumerate_set_bits())
    eq(got, [64 * i + j for i, w in enumerate(words) for j in range(64) if w >> j & 1], "enumerated bits")
    return len(got) > 1, []


WORD = st.one_of(st.just(0), st.integers(0, 2**64 - 1), st.integers(0, 63).map(lambda i: 1 << i),
                 st.integers(0, 64).map(lambda i: (1 << i) - 1))

SUBS = [
    Sub("bitmap", bm(), run_bm, 8000, 300000, "set/range/get/size sequences over 32 bitmap types against a Python set, on "
        "exact-size memory under AddressSanitizer; non-trivial: a range spans several buckets"),
    Sub("history", pt.history(), run_hist, 4000, 200000, "histories of reads and combinations; the index of the finished trace "
        "against the labels handed out for input bytes; non-trivial: some labels are not input bytes"),
    Sub("enumerate", st.tuples(st.lists(WORD, max_size=12), st.integers(0, 40), st.integers(0, 40)).map(list), run_enum,
        3000, 60000, "arbitrary bitmaps through the Python reader; non-trivial: more than one bit"),
]
