import os
from pathlib import Path

from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, check, eq, hx
from . import pt

ASSUMPTIONS = ["source names are paths: the reader reports them as pathlib paths",
               "names are valid UTF-8 without NUL (paths and C identifiers)"]


def build():
    return {"core": vbuild.build_core()}


TEXT = st.one_of(st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), max_size=12),
                 st.sampled_from(["", "a", "ab", "abc", "main", "operator<<", "\u00fc", "\u20ac", "\U0001f600", "x y"]))
NAME = st.one_of(TEXT, TEXT, st.tuples(st.sampled_from(["x", "\u00e9", "ab", "\u20ac"]),
                                       st.sampled_from([50, 126, 127, 128, 254, 255, 256, 257, 1000, 5000, 20000])).map(list))


def text(n):
    return n if isinstance(n, str) else n[0] * n[1]


FD = st.one_of(st.integers(0, 20), st.integers(0, 2**31 - 1))
SIZE = st.one_of(st.just(-1), st.integers(0, 5000), st.sampled_from([2**31, 2**32, 2**32 + 1, 2**40]))
OFFS = st.one_of(st.integers(0, 100), st.integers(0, 2**54 - 1), st.just(-1), st.sampled_from([2**32 - 1, 2**32, 2**53, 2**54 - 1]))
OP = st.one_of(
    st.tuples(st.just("open"), FD, NAME, SIZE), st.tuples(st.just("open"), FD, NAME, SIZE),
    st.tuples(st.just("mk"), NAME, st.integers(1, 5)),
    st.tuples(st.just("r"), st.integers(0, 9), pt.OFF, st.integers(1, 20)),
    st.tuples(st.just("u"), pt.ref(), pt.ref()), st.tuples(st.just("u"), pt.ref(), pt.ref()),
    st.tuples(st.just("m"), pt.ref()),
    st.tuples(st.just("sl"), st.integers(0, 9), OFFS, st.one_of(st.just(0), pt.ref()), st.integers(1, 5)),
    st.tuples(st.just("sm"), st.integers(0, 9), OFFS, st.lists(st.one_of(st.just(0), pt.ref()), min_size=1, max_size=6)),
    st.tuples(st.just("fe"), NAME), st.tuples(st.just("fe"), st.sampled_from(["main", "f", "g", "ff", ""])),
    st.tuples(st.just("fx"), st.integers(0, 30)),
).map(list)
CASE = st.one_of(st.lists(OP, min_size=1, max_size=15), st.lists(OP, min_size=12, max_size=60))


def fref(r, n):
    return "0" if r == 0 else pt.fmt(r, n)


def run(case, ctx):
    d = ctx.mkdir()
    p = os.path.join(d, "t.tdag")
    lines = []
    src = []  # (name, fd, size) expected
    opened = []
    fns, events = {}, []
    handlers = []
    nlab = 0
    for o in case:
        n = len(lines)
        if o[0] == "open":
            name = text(o[2])
            # a relative or odd name becomes a file inside the scratch directory
            b = name.encode()
            path = os.path.join(d, "s", str(len(src)) + name.replace("/", "_")) if len(b) < 200 else d + "/" + name
            size = 2**64 - 1
            if o[3] >= 0 and len(b) < 200:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.truncate(o[3])
                size = o[3]
            src.append((path, o[1], size))
            opened.append(o[1])
            lines.append("open %d %s" % (o[1], hx(path.encode())))
            handlers.append(None)
        elif o[0] == "mk":
            src.append((text(o[1]), -1, 2**64 - 1))
            lines.append("mk %s %d" % (hx(text(o[1]).encode()), o[2]))
        elif o[0] == "r":
            if not opened:
                continue
            lines.append("srcv %d %d %d" % (opened[o[1] % len(opened)], o[2], o[3]))
        elif o[0] == "u":
            lines.append("un %s %s" % (pt.fmt(o[1], n), pt.fmt(o[2], n)))
        elif o[0] == "m":
            lines.append("mark %s" % pt.fmt(o[1], n))
        elif o[0] in ("sl", "sm"):
            if not opened:
                continue
            fd = opened[o[1] % len(opened)]
            if o[0] == "sl":
                lines.append("sinkl %d %d %s %d" % (fd, o[2], fref(o[3], n), o[4]))
            else:
                lines.append("sinkm %d %d %s" % (fd, o[2], " ".join(fref(r, n) for r in o[3])))
        elif o[0] == "fe":
            lines.append("fe %s" % hx(text(o[1]).encode()))
        elif o[0] == "fx":
            if not fns:
                continue
            lines.append("fx %d" % (o[1] % len(fns)))
        if o[0] == "fe":
            fns.setdefault(text(o[1]), len(fns))
    lines.append("end")
    try:
        ans = ctx.server("core").case("PT", [hx(p.encode())], lines)
        # replay on the model
        m = pt.Model()
        sinks, wstream, fnidx, fdidx = [], {}, {}, {}
        events = []
        for l, a in zip(lines, ans):
            f = l.split()
            if f[0] in ("open", "mk", "srcv", "un", "mark"):
                m.apply(l, a)
            elif f[0] in ("sinkl", "sinkm"):
                idx = m.fdidx[int(f[1])]
                off = int(f[2])
                labs = [int(a)] * int(f[4]) if f[0] == "sinkl" else [int(x) for x in a.split()[1:]]
                if off < 0:
                    off = wstream.get(idx, 0)
                    wstream[idx] = off + len(labs)
                sinks += [(off + i, x, idx) for i, x in enumerate(labs) if x]
            elif f[0] == "fe":
                i = fnidx.setdefault(f[1], len(fnidx))
                eq(a, str(i), "index of function " + f[1])
                events.append((0, i))
            elif f[0] == "fx":
                events.append((1, int(f[1])))
        from polytracker.taint_dag import TDFile, TDEvent, TDRangeNode, TDSourceNode, TDUnionNode, TDUntaintedNode
        with open(p, "rb") as fh:
            td = TDFile(fh)
            got = [(str(x), h.fd, h.size) for x, h in td.fd_headers]
            eq(got, [(str(Path(a)), b, c) for a, b, c in src], "sources read back")
            for x, h in td.fd_headers:
                eq(h.invalid_fd(), h.fd == -1, "invalid_fd")
                eq(h.invalid_size(), h.size == 2**64 - 1, "invalid_size")
            eq(td.label_count, len(m.sets), "label count")
            want_marks = None
            raw = tdag.Trace(p).labels
            m.check_labels(raw)
            want_marks = m.check_marks(raw)
            # the reader's nodes must stand for what was recorded
            sets = [0]
            check(isinstance(td.decode_node(0), TDUntaintedNode), "label 0 is untainted")
            nodes = list(td.nodes)
            eq(len(nodes), len(m.sets) - 1, "number of nodes")
            for i, nd in enumerate(nodes, 1):
                nd2 = td.decode_node(i)
                eq(repr(nd2), repr(nd), "node %d read twice" % i)
                if isinstance(nd, TDSourceNode):
                    check((nd.idx, nd.offset) in m.keys, "label %d is read as source %d offset %d", i, nd.idx, nd.offset)
                    s = m.bit((nd.idx, nd.offset))
                elif isinstance(nd, TDUnionNode):
                    s = sets[nd.left] | sets[nd.right]
                else:
                    s = 0
                    for j in range(nd.first, nd.last + 1):
                        s |= sets[j]
                sets.append(s)
                if s != m.sets[i]:
                    check(False, "label %d read as %s: %s", i, nd, m.diff(s, m.sets[i]))
                eq(bool(nd.affects_control_flow), i in want_marks, "mark of label %d" % i)
            eq([(s.offset, s.label, s.fdidx) for s in td.sinks], sinks, "outputs read back")
            eq([x for x, _ in td.fn_headers], [bytes.fromhex(k if k != "-" else "").decode() for k in fnidx], "functions read back")
            eq([(e.kind, e.fnidx) for e in td.events], events, "function events read back")
            eq([TDEvent.Kind(e.kind).name for e in td.events], [("ENTRY", "EXIT")[k] for k, _ in events], "event kinds")
            eq(list(td.input_labels()), sorted(m.nsource), "input labels")
            td.buffer.close()
    finally:
        ctx.rm(d)
    kinds = {o[0] for o in case}
    return len(kinds) >= 4, ["sources" if src else "no-sources"] + (["sinks"] if sinks else []) + (
        ["events"] if events else []) + (["long-name"] if any(len(s[0]) > 250 for s in src) else []) + (
        ["over-255-names"] if len(src) > 255 else [])


# many sources and functions: indices beyond one byte, string offsets beyond 16 bits
def many(t):
    nsrc, nfn, pad, ops = t
    c = [["open", 3 + i, "s%d" % i, -1] for i in range(nsrc)]
    c += [["fe", ["f%d_" % i, pad]] for i in range(nfn)]
    return c + ops


MANY = st.tuples(st.integers(1, 250), st.integers(1, 400), st.integers(1, 60), st.lists(OP, max_size=10)).map(many)

SUBS = [
    Sub("history", CASE, run, 4000, 200000, "recording histories over names of all kinds, read back by the Python reader and "
        "compared with a model of what was recorded; non-trivial: at least four kinds of operation"),
    Sub("many", MANY, run, 200, 6000, "hundreds of sources and functions with long names; non-trivial as above"),
]
