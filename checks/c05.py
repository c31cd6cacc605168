import os
import struct

from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, Violation, check, eq, hx
from . import pt

ASSUMPTIONS = ["alignments are powers of two up to the page size (mmap returns page-aligned memory)",
               "section types of the layouts are a pool of 96 per compile-time seed (OutputFile is a template)"]


def build():
    thorough = os.environ.get("VERIF_TIER_RUN") == "thorough"
    bins = {"core": vbuild.build_core()}
    for s in range(1, 5 if thorough else 2):
        bins["layout%d" % s] = vbuild.build_core(sanitize="address", main="layout.cpp", name="layout%d" % s, opt="-O0",
                                                 extra=["-DLAYOUT_SEED=%d" % s])
    return bins


def overlaps(regions):
    regions = sorted((o, n, w) for o, n, w in regions if n)
    for (o1, n1, w1), (o2, n2, w2) in zip(regions, regions[1:]):
        if o1 + n1 > o2:
            raise Violation("%s [%d, %d) overlaps %s [%d, %d)" % (w1, o1, o1 + n1, w2, o2, o2 + n2))


def run_layout(case, ctx):
    which, layout, amounts = case
    names = sorted(n for n in ctx.bins if n.startswith("layout"))
    p = ctx.path(".tdag")
    try:
        ans = ctx.server(names[which % len(names)]).case("L", [], ["%d %s %s" % (layout, hx(p.encode()), " ".join(map(str, amounts)))])[0]
        check(ans != "ERR", "layout %d could not be created", layout)
        check(ans.endswith(" ok"), "a section was given memory of another size or alignment: %s", ans)
        secs = [x.split() for x in ans[:-3].split(" | ")]
        n = int(secs[0][1])
        secs = secs[1:]
        eq(len(secs), n, "sections")
        d = open(p, "rb").read()
    finally:
        ctx.rm(p)
    check(d[:4] == b"TDAG", "magic")
    magic, cnt = struct.unpack_from("<HH", d, 4)
    eq(cnt, n, "section count in the header")
    eq(magic, (sum(int(s[0]) for s in secs) ^ n) & 0xffff, "magic number")
    regions = [(0, 8 + 24 * n, "header")]
    mask = bytearray(len(d))
    mask[:8 + 24 * n] = b"\1" * (8 + 24 * n)
    for i, s in enumerate(secs):
        tag, align, alloc, want, size = map(int, s[:5])
        htag, halign, hoff, hsize = struct.unpack_from("<IIQQ", d, 8 + 24 * i)
        what = "section %d of layout %d" % (i, layout)
        eq((htag, halign), (tag, align), what + ": tag and alignment in the header")
        eq(size, want, what + ": bytes in use")
        eq(s[5], "full", what + ": write beyond its end")
        eq(hsize, want, what + ": size in the header after closing")
        check(hoff % align == 0, what + ": offset %d is not aligned to %d", hoff, align)
        check(hoff + alloc <= len(d), what + ": [%d, %d) exceeds the file of %d bytes", hoff, hoff + alloc, len(d))
        regions.append((hoff, alloc, what))
        eq(d[hoff:hoff + want], bytes([i + 1]) * want, what + ": contents")
        mask[hoff:hoff + want] = b"\1" * want
    overlaps(regions)
    for i, (b, m) in enumerate(zip(d, mask)):
        if b and not m:
            raise Violation("byte %d of the file was written by nobody but is %d" % (i, b))
    return n > 1, ["sections-%d" % n]


def gran(ctx):
    """Bytes the scratch file system stores for one byte written through a mapping."""
    if not hasattr(ctx, "gran"):
        import mmap
        p = ctx.path()
        with open(p, "w+b") as f:
            f.truncate(1 << 30)
            m = mmap.mmap(f.fileno(), 1 << 30)
            m[1 << 29] = 1
            m.flush(1 << 29, 4096)
            m.close()
            ctx.gran = max(4096, os.fstat(f.fileno()).st_blocks * 512)
        ctx.rm(p)
    return ctx.gran


def run_real(case, ctx):
    m, t = pt.execute(case, ctx)
    regions = [(0, t.header_end, "header")]
    want = {1: 16 * len(m.sources), 2: 8 * len(m.sets), 4: 0, 6: 0, 7: 0, 8: 0,
            5: 8 * (max(m.nsource) // 64 + 1) if m.nsource else 0}
    seen = []
    for tag, align, off, size in t.meta:
        seen.append(tag)
        check(align in (1, 2, 4, 8, 16, 32, 64), "section %d: alignment %d", tag, align)
        check(off % align == 0, "section %d: offset %d not aligned to %d", tag, off, align)
        check(off % tdag.ALIGN[tag] == 0, "section %d: offset %d does not suit its entries", tag, off)
        check(off + size <= t.file_size, "section %d exceeds the file", tag)
        if tag in want:
            eq(size, want[tag], "recorded size of section %d" % tag)
        regions.append((off, size, "section %d" % tag))
    eq(sorted(seen), [1, 2, 3, 4, 5, 6, 7, 8], "section tags")
    eq(t.magic, (sum(seen) ^ len(seen)) & 0xffff, "magic number")
    overlaps(regions)
    used = sum(n for _, n, _ in regions)
    # every section may start and end inside a page of its own
    check(t.blocks <= used + 4 * gran(ctx) * len(regions), "the file stores %d bytes for %d bytes of records", t.blocks, used)
    return len(m.sets) > 2, []


AMT = st.one_of(st.integers(0, 40), st.integers(0, 400000), st.just(2**40 - 1))
SUBS = [
    Sub("layouts", st.tuples(st.integers(0, 3), st.integers(0, 95), st.lists(AMT, max_size=8)).map(list), run_layout, 1500, 20000,
        "generated section lists (count, sizes, alignments) filled with generated amounts; non-trivial: more than one section"),
    Sub("trace", pt.history(maxops=15), run_real, 1200, 30000, "the real trace layout after generated histories; non-trivial: "
        "labels were recorded"),
]
