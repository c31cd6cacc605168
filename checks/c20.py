from hypothesis import strategies as st

from vlib import Sub, check, eq
from . import tg

ASSUMPTIONS = ["control-flow marks are closed under ancestry, as C02 establishes for recorded traces"]


def pairs(t):
    got = [(o.source.uid, o.source.path, o.offset) for o in t]
    check(len(got) == len(set(got)), "a byte is reported twice: %s", sorted(got)[:40])
    check(all(o.length == 1 for o in t), "a byte with a length other than 1")
    eq(len(t), len(got), "number of taints")
    return sorted(got)


def want(b, bits):
    return sorted({b.inp(s) + (o,) for s, o in b.bytes_of(bits)})


def run(case, ctx):
    from polytracker.taint_dag import TDProgramTrace
    from polytracker.tracing import ProgramTrace
    b, p = tg.build(case, ctx)
    tr = TDProgramTrace.load(p)
    fo = tr.taint_forest
    bits = 0
    for m in b.marks:
        if b.recs[m][0] == "S":
            bits |= 1 << m
    w = want(b, bits)
    eq(pairs(tr.inputs_affecting_control_flow()), w, "inputs affecting control flow")
    if len(b.recs) < 300:
        eq(pairs(ProgramTrace.inputs_affecting_control_flow(tr)), w, "inputs affecting control flow (from the forest)")
    n = len(b.recs)
    for q in case["queries"]:
        labs = [x % n for x in q]
        bits = 0
        for x in labs:
            bits |= b.reach[x]
        eq(pairs(tr.taints([fo.get_node(x) for x in labs])), want(b, bits), "taints of labels %s" % labs)
        eq(pairs(tr.taints(fo.get_node(x) for x in labs)), want(b, bits), "taints of an iterator of labels %s" % labs)
    eq(pairs(tr.inputs_affecting_control_flow()), w, "inputs affecting control flow (asked again)")
    t = b.tags()
    return bool(b.marks) or any(b.recs[x % n] and b.recs[x % n][0] != "S" for q in case["queries"] for x in q), t


CASE = st.tuples(tg.trace(), st.lists(st.lists(st.integers(0, 3000), max_size=6), min_size=1, max_size=4)).map(
    lambda t: dict(t[0], queries=t[1]))
SMALL = st.tuples(tg.SMALL, st.lists(st.lists(st.integers(0, 14), max_size=4), min_size=1, max_size=4)).map(
    lambda t: dict(t[0], queries=t[1]))
SUBS = [Sub("small", SMALL, run, 12000, 600000, "small worlds (up to 5 initial input bytes, up to 14 further records over few labels); "
            "non-trivial as below"),
        Sub("queries", CASE, run, 3000, 150000,
            "generated trace with marks and generated sets of nodes; non-trivial: a mark, or a query with a combined label")]
