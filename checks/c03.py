import os

from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, check, eq

ASSUMPTIONS = ["range records have first < last and union records two different labels (constructor contract)"]


def build():
    return {"core": vbuild.build_core()}


def bits(n):
    """All widths and boundary patterns of an n-bit field."""
    top = (1 << n) - 1
    return st.one_of(st.integers(0, top), st.integers(0, n - 1).map(lambda i: 1 << i),
                     st.integers(0, n).map(lambda i: (1 << i) - 1), st.integers(0, n - 1).map(lambda i: top ^ (1 << i)),
                     st.integers(0, 3), st.integers(0, 3).map(lambda i: top - i))


@st.composite
def record(draw):
    k = draw(st.sampled_from("SSRU"))
    cf = draw(st.booleans())
    if k == "S":
        return ["S", draw(bits(8)), draw(bits(54)), cf]
    a, b = draw(bits(31)), draw(bits(31))
    if a == b:
        b = a ^ (1 << draw(st.integers(0, 30)))
    a, b = min(a, b), max(a, b)
    if b == a + 1:
        k = "R"  # adjacent labels always form a range
    return [k, a, b, cf] if k == "R" else ["U", b, a, cf]


case = st.tuples(st.lists(record(), min_size=1, max_size=12), st.booleans()).map(list)


def show(r):
    return "%s %d %d %d" % (r[0], r[1], r[2], r[3])


def run(case, ctx):
    recs, swap = case
    lines = []
    for k, a, b, cf in recs:
        if k == "U" and swap:
            a, b = b, a  # the constructor orders them
        lines.append("%s %d %d %d" % (k, a, b, cf))
    ans = ctx.server("core").case("ENC", [], lines)
    vals = {}
    raw = [0]
    for rec, l, a in zip(recs, lines, ans):
        f = a.split()
        check(f[0] != "ERR", "encoding %s failed", rec)
        v = int(f[0])
        raw.append(v)
        eq(" ".join(f[1:5]), show(rec), "record decoded after encoding " + l)
        eq((f[5], f[6]), ("1" if rec[0] == "S" else "0", "1" if rec[3] else "0"), "kind and mark of encoded " + l)
        m = rec[:3] + [True]
        eq(" ".join(f[7:11]), show(m), "record decoded after adding the mark to " + l)
        eq((f[11], f[12]), ("1", "1"), "mark set and value otherwise equal for " + l)
        key = tuple(rec)
        if v in vals and vals[v] != key:
            check(False, "%s and %s share the encoding %d", vals[v], key, v)
        vals[v] = key
        eq(v, tdag.enc(rec), "documented encoding of " + l)
    # the Python reader on the same words
    from polytracker.taint_dag import TDFile, TDRangeNode, TDSourceNode, TDUnionNode
    p = ctx.path(".tdag")
    tdag.write(p, labels=raw, index=[])
    try:
        with open(p, "rb") as fh:
            td = TDFile(fh)
            for i, rec in enumerate(recs):
                n = td.decode_node(i + 1)
                if isinstance(n, TDSourceNode):
                    got = ["S", n.idx, n.offset, n.affects_control_flow]
                elif isinstance(n, TDUnionNode):
                    got = ["U", n.left, n.right, n.affects_control_flow]
                elif isinstance(n, TDRangeNode):
                    got = ["R", n.first, n.last, n.affects_control_flow]
                else:
                    got = [type(n).__name__]
                got[-1] = bool(got[-1]) if isinstance(got[-1], (bool, int)) else got[-1]
                eq(got, rec, "Python decoding of label %d" % (i + 1))
            eq(len(list(td.nodes)), len(recs), "number of nodes in Python")
            td.buffer.close()
    finally:
        ctx.rm(p)
    ks = {r[0] for r in recs}
    return len(ks) > 1, ["kind-" + k for k in ks] + (["marked"] if any(r[3] for r in recs) else [])


off = st.one_of(st.integers(-2**63, 2**63 - 1), st.integers(2**54 - 5, 2**54 + 5), st.integers(-5, 5), bits(54), bits(62))


def run_off(case, ctx):
    ans = ctx.server("core").case("ENC", [], ["off %d" % o for o in case])
    for o, a in zip(case, ans):
        want = "invalid" if o < 0 else "ERR" if o > tdag.M54 else str(o)
        eq(a, want, "offset %d" % o)
    return any(o > tdag.M54 for o in case), []


SUBS = [
    Sub("records", case, run, 6000, 400000, "records with boundary and random field values through both decoders; "
        "non-trivial: a case with records of several kinds"),
    Sub("offsets", st.lists(off, min_size=1, max_size=20), run_off, 2000, 50000,
        "file offsets of the whole 64-bit range; non-trivial: one that must be refused"),
]
