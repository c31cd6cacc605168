import os
import struct

from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, Violation, check, eq, hx, unhx
from . import pt

ASSUMPTIONS = ["an error exit ends the program; the harness turns it into an exception to inspect the tables afterwards",
               "a full output log drops further entries (documented limit); dropping is a refusal"]


def build():
    return {"core": vbuild.build_core()}


NAME = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 70)).flatmap(
    lambda n: st.tuples(st.integers(0, 5), st.just(n)).map(list))
OP = st.one_of(
    st.tuples(st.just("str"), NAME), st.tuples(st.just("source"), NAME, st.integers(-1, 4), st.integers(0, 2**64 - 1)),
    st.tuples(st.just("source"), NAME, st.integers(-1, 4), st.integers(0, 2**64 - 1)),
    st.tuples(st.just("idx"), st.integers(0, 5)), st.tuples(st.just("fn"), NAME), st.tuples(st.just("fn"), NAME),
    st.tuples(st.just("lab"), st.integers(0, 255), st.integers(0, 2**54 - 1000),
              st.one_of(st.integers(1, 5), st.integers(1, 40), st.sampled_from([2**16, 2**32, 2**40]))),
    st.tuples(st.just("un"), st.integers(0, 40), st.integers(0, 40)),
    st.tuples(st.just("ev"), st.integers(0, 1), st.integers(0, 65535)),
    st.tuples(st.just("ent"), st.integers(0, 2**32 - 1)), st.tuples(st.just("lev"), st.integers(0, 300)),
    st.tuples(st.just("cf"), st.integers(0, 2**32 - 1), st.integers(0, 2**32 - 1)),
    st.tuples(st.just("cf"), st.integers(0, 100), st.integers(0, 100)),
    st.tuples(st.just("sink"), st.integers(0, 2**54 - 1), st.integers(1, 2**31 - 1), st.integers(0, 255)),
).map(list)
CAPS = st.tuples(st.integers(1, 120).map(lambda n: 2 * n), st.integers(1, 6), st.integers(1, 8), st.integers(2, 30), st.integers(1, 8),
                 st.integers(1, 40), st.integers(1, 8))
CASE = st.tuples(CAPS, st.one_of(st.lists(OP, min_size=5, max_size=30), st.lists(OP, min_size=20, max_size=90))).map(
    lambda t: [list(t[0]), t[1]])
T = ["strings", "sources", "functions", "labels", "events", "cflog", "sinks"]
ESZ = [None, 16, 4, 8, 4, None, 16]


def nm(n):
    return (b"abcdef"[n[0]:n[0] + 1] * n[1])


def run(case, ctx):
    caps, ops = case
    bytecap = [caps[0], caps[1] * 16, caps[2] * 4, caps[3] * 8, caps[4] * 4, caps[5], caps[6] * 16]
    lines = []
    for o in ops:
        if o[0] in ("str", "fn"):
            lines.append("%s %s" % (o[0], hx(nm(o[1]))))
        elif o[0] == "source":
            lines.append("source %s %d %d" % (hx(nm(o[1])), o[2], o[3]))
        else:
            lines.append(" ".join(map(str, o)))
    sendlines = []
    for l in lines:
        sendlines += [l, "sizes"]
    sendlines = ["sizes"] + sendlines + ["dump", "strings"]
    ans = ctx.server("core").case("SEC", [str(c) for c in caps], sendlines)
    check(ans[0] != "CTORERR", "sections of sizes %s could not be created", caps)
    sizes = list(map(int, ans[0].split()))
    eq(sizes, [0, 0, 0, 8, 0, 0, 0], "initial sizes")
    strs, srcs, fns, fnix, labs, evs, cfl, snk = {}, [], [], {}, [0], [], b"", []
    fd = {}
    full = set()

    def need(n):
        return (n + 2 + 1) // 2 * 2
    for i, l in enumerate(lines):
        a, s2 = ans[1 + 2 * i], list(map(int, ans[2 + 2 * i].split()))
        f = l.split()
        o = f[0]

        def grew(t, by):
            for k in range(7):
                eq(s2[k], sizes[k] + (by if k == t else 0), "bytes used by %s after %s" % (T[k], l))

        def same(but=()):
            for k in range(7):
                if k not in but:
                    eq(s2[k], sizes[k], "bytes used by %s after refused %s" % (T[k], l))

        def fits(t, n):
            return sizes[t] + n <= bytecap[t]
        if o == "str":
            b = unhx(f[1])
            if fits(0, need(len(b))):
                eq(a, str(sizes[0]), l)
                grew(0, need(len(b)))
                strs[int(a)] = b
            else:
                check(a in ("none", "ERR"), "%s succeeded (%s) although the table is full", l, a)
                same()
                full.add("strings")
        elif o == "source":
            b = unhx(f[1])
            if fits(0, need(len(b))) and fits(1, 16):
                eq(a, str(len(srcs)), l)
                strs[sizes[0]] = b
                srcs.append((sizes[0], int(f[2]), int(f[3])))
                fd[int(f[2])] = len(srcs) - 1
                eq(s2[0], sizes[0] + need(len(b)), "string bytes after " + l)
                eq(s2[1], sizes[1] + 16, "source bytes after " + l)
            else:
                check(a in ("none", "ERR"), "%s succeeded (%s) although a table is full", l, a)
                same(but=(0,))
                full.add("sources")
        elif o == "idx":
            w = fd.get(int(f[1]))
            eq(a, "none" if w is None else str(w), "source of descriptor " + f[1])
            same()
        elif o == "fn":
            b = unhx(f[1])
            if b in fnix:
                eq(a, str(fnix[b]), "index of a known function")
                same()
            elif fits(0, need(len(b))) and fits(2, 4):
                eq(a, str(len(fns)), l)
                fnix[b] = len(fns)
                strs[sizes[0]] = b
                fns.append(sizes[0])
            else:
                check(a in ("none", "ERR"), "%s succeeded (%s) although a table is full", l, a)
                same(but=(0,))
                full.add("functions")
        elif o == "lab":
            n = int(f[3])
            if fits(3, 8 * n):
                eq(a, "%d %d" % (len(labs), len(labs) + n - 1), l)
                grew(3, 8 * n)
                labs += [tdag.enc(("S", int(f[1]), int(f[2]) + k, False)) for k in range(n)]
            else:
                eq(a, "ERR", l)
                same()
                full.add("labels")
        elif o == "un":
            if len(labs) < 2:
                continue
            if a == "ERR":
                check(not fits(3, 8), "%s was refused although there is room", l)
                same()
                full.add("labels")
            else:
                r = int(a.split()[2])
                if r == len(labs):
                    check(fits(3, 8), "%s succeeded although the labels are full", l)
                    grew(3, 8)
                    labs.append(None)
                else:
                    check(0 < r < len(labs), "%s returned %d", l, r)
                    same()
        elif o in ("ev", "ent", "lev", "cf"):
            if o == "ev":
                t, rec = 4, struct.pack("<BxH", int(f[1]), int(f[2]))
            elif o == "cf":
                t, rec = 5, b"\2" + tdag.varint(int(f[2])) + tdag.varint(int(f[1]))
            else:
                t, rec = 5, bytes([o == "lev"]) + tdag.varint(int(f[1]))
            if fits(t, len(rec)):
                eq(a, "ok", l)
                grew(t, len(rec))
                if t == 4:
                    evs.append(rec)
                else:
                    cfl += rec
            else:
                eq(a, "ERR", l)
                same()
                full.add(T[t])
        elif o == "sink":
            if fits(6, 16):
                eq(a, "ok", l)
                grew(6, 16)
                snk.append((int(f[1]), int(f[2]), int(f[3])))
            else:
                same()
                full.add("sinks")
        sizes = s2
    d = ans[-2].split()
    used = [int(d[2 * k]) for k in range(7)]
    mem = [unhx(d[2 * k + 1]) for k in range(7)]
    eq(used, sizes, "final sizes")
    for k in range(7):
        eq(len(mem[k]), bytecap[k], "space of " + T[k])
        if any(mem[k][used[k]:]):
            raise Violation("memory of %s beyond the %d used bytes was written" % (T[k], used[k]))
    for off, b in strs.items():
        eq(mem[0][off:off + 2 + len(b)], struct.pack("<H", len(b)) + b, "string at %d" % off)
    eq(list(struct.iter_unpack("<IiQ", mem[1][:used[1]])), srcs, "sources in memory")
    eq([x for x, in struct.iter_unpack("<I", mem[2][:used[2]])], fns, "functions in memory")
    got = [x for x, in struct.iter_unpack("<Q", mem[3][:used[3]])]
    eq(len(got), len(labs), "labels in memory")
    for i, w in enumerate(labs):
        if w is not None:
            eq(got[i], w, "label %d" % i)
        else:
            k, x, y, _ = tdag.dec(got[i])
            check(k != "S" and max(x, y) < i, "label %d is %s", i, (k, x, y))
    ev = [(a, c) for a, c in struct.iter_unpack("<BxH", mem[4][:used[4]])]
    eq(ev, [struct.unpack("<BxH", r) for r in evs], "events in memory")
    eq(mem[5][:used[5]], cfl, "control-flow log in memory")
    eq(list(struct.iter_unpack("<qIB3x", mem[6][:used[6]])), snk, "outputs in memory")
    return bool(full), ["full-" + x for x in full]


# ---- limits of the real trace -------------------------------------------
def run_real(case, ctx):
    """Many sources or functions, close to and beyond the limits of the format."""
    kind, n, length, tail = case
    p = ctx.path(".tdag")
    lines = []
    if kind == "mk":
        lines = ["mk %s 1" % hx(b"m%d" % i) for i in range(n)]
    elif kind == "open":
        lines = ["open %d %s" % (3 + i % 7, hx(b"/nonexistent/%d" % i)) for i in range(n)]
    elif kind == "long":
        lines = ["open %d %s" % (3 + i % 7, hx((b"/nonexistent/%d" % i).ljust(length, b"x"))) for i in range(n)]
    elif kind == "fn":
        lines = ["fe %s" % hx((b"f%d" % i).ljust(length, b"y")) for i in range(n)]
    # after every refusal or at the end: the descriptors keep their sources
    probes = []
    lines = [l for x in [[l] + (["srcv %d %d 1" % (3 + t, 5 + t) for t in tail] if (i + 1) % 64 == 0 else []) for i, l in enumerate(lines)] for l in x]
    lines += ["srcv %d %d 2" % (3 + t, 100 + t) for t in tail]
    try:
        ans = ctx.server("core").case("PT", [hx(p.encode())], lines + ["end"])
        src, fdx, want, used, fnn, evn = [], {}, [0], 0, [], 0
        refused = False
        for l, a in zip(lines, ans):
            f = l.split()
            if f[0] in ("mk", "open"):
                b = unhx(f[1] if f[0] == "mk" else f[2])
                nd = (len(b) + 3) // 2 * 2
                if len(src) < 255 and used + nd <= 0x100000 and len(b) <= 65535:
                    check(a[:4] not in ("ERR", "none"), "%s... refused with %d sources and %d string bytes", l[:60], len(src), used)
                    src.append((b, -1 if f[0] == "mk" else int(f[1])))
                    used += nd
                    if f[0] == "open":
                        fdx[int(f[1])] = len(src) - 1
                    else:
                        eq(a, "%d %d | 0 %d 0" % (len(want), len(want), len(want)), l)
                        want.append((len(src) - 1, 0))
                else:
                    check(a in ("ERR", "none", "none | 0 0 0"), "source %d was accepted (%s)", len(src), a)
                    refused = True
                    if f[0] == "open":
                        break  # the program ends here
            elif f[0] == "fe":
                b = unhx(f[1])
                nd = (len(b) + 3) // 2 * 2
                if len(fnn) < 65535 and used + nd <= 0x100000 and len(b) <= 65535:
                    eq(a, str(len(fnn)), "index of function %d" % len(fnn))
                    fnn.append(b)
                    used += nd
                    evn += 1
                else:
                    check(a == "ERR", "function %d was accepted (%s)", len(fnn), a)
                    refused = True
                    break
            elif f[0] == "srcv":
                i = fdx.get(int(f[1]))
                if i is None:
                    eq(a, "none", "read of the untracked descriptor " + f[1])
                else:
                    k = int(f[3])
                    eq(a, "%d %d" % (len(want), len(want) + k - 1), l)
                    want += [(i, int(f[2]) + j) for j in range(k)]
        t = tdag.Trace(p)
        eq([(s[0], s[1]) for s in t.sources][:len(src)], src, "sources")
        eq(len(t.sources), len(src), "number of sources")
        eq(t.functions[:len(fnn)], fnn, "functions")
        eq(t.events[:evn], [(0, i) for i in range(evn)], "events")
        labs = t.labels
        for i, w in enumerate(want):
            if i:
                eq(tdag.dec(labs[i])[:3], ("S",) + w, "label %d" % i)
    finally:
        ctx.rm(p)
    return refused, [kind] + (["refused"] if refused else [])


def over(*c):
    return st.one_of(st.integers(1, 20), *[st.integers(x - 3, x + 5) for x in c])


REAL = st.one_of(
    st.tuples(st.sampled_from(["mk", "open"]), over(255, 255, 256), st.just(0), st.lists(st.integers(0, 7), max_size=4)),
    st.tuples(st.just("long"), st.integers(10, 40), st.sampled_from([40000, 65533, 65534, 65535, 65536, 70000]), st.lists(st.integers(0, 7), max_size=4)),
    st.tuples(st.just("fn"), st.integers(10, 40), st.sampled_from([30000, 65533, 65534, 65535, 65536]), st.just([])),
).map(list)
FNS = st.tuples(st.just("fn"), st.integers(65535, 65540), st.integers(0, 12), st.just([])).map(list)

SUBS = [
    Sub("tables", CASE, run, 6000, 300000, "operation sequences on tables of generated small capacities placed in exact-size "
        "memory under AddressSanitizer, against a model; non-trivial: some table filled up"),
    Sub("limits", REAL, run_real, 300, 8000, "real traces at and beyond 255 sources, 65535-byte names and a full string table; "
        "non-trivial: something was refused"),
    Sub("functions", FNS, run_real, 16, 100, "real traces at and beyond 65535 functions; non-trivial as above", workers=4),
]
