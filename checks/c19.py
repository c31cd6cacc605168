import io

from hypothesis import strategies as st

from vlib import Sub, check, eq
from . import tg

ASSUMPTIONS = ["the trace's label graph is well formed (operands are older labels)"]


def run(case, ctx):
    from polytracker.taint_dag import TDProgramTrace
    b, p = tg.build(case, ctx)
    tr = TDProgramTrace.load(p)
    fo = tr.taint_forest
    n = len(b.recs)
    for q in case["pre"]:  # nodes may be asked for in any order before the enumeration
        fo.get_node(q % n)
    nodes = list(fo.nodes())
    labels = [x.label for x in nodes]
    check(all(a > c for a, c in zip(labels, labels[1:])), "labels are not enumerated in decreasing order: %s", labels[:50])
    real = [x for x in labels if x >= 0]
    eq(real, list(range(n - 1, -1, -1)), "enumerated labels")
    eq(len(fo), len(labels), "len(forest)")
    eq([x.label for x in fo], labels, "labels of a second enumeration")
    by = {x.label: x for x in nodes}
    edges = set()
    # ancestry of every node, parents first (iterative, cycles detected)
    reach, state = {}, {}
    for root in labels:
        todo = [root]
        while todo:
            x = todo[-1]
            if x in reach:
                todo.pop()
                continue
            node = by[x]
            eq(fo.get_node(x), node, "get_node(%d)" % x)
            one, two = node.parent_one, node.parent_two
            check((one is None) == (two is None), "node %d has exactly one parent", x)
            pl = node.parent_labels
            eq(pl, None if one is None else (one.label, two.label), "parent_labels of %d" % x)
            if one is None:
                check(node.is_canonical(), "node %d has no parents but is not canonical", x)
                reach[x] = 1 << x if x > 0 else 0
                todo.pop()
                continue
            check(not node.is_canonical(), "node %d has parents but is canonical", x)
            ps = [one.label, two.label]
            for q in ps:
                check(q in by, "parent %d of node %d is not enumerated", q, x)
            missing = [q for q in ps if q not in reach]
            if missing:
                check(state.get(x) != 1, "cycle through node %d", x)
                state[x] = 1
                todo += missing
                continue
            if node.affected_control_flow:
                check(all(by[q].affected_control_flow for q in ps if q != 0), "node %d affected control flow, its parents did not", x)
            edges |= {(q, x) for q in ps}
            reach[x] = reach[ps[0]] | reach[ps[1]]
            todo.pop()
    for x in range(1, n):
        k, a, c = b.recs[x]
        node = by[x]
        eq(node.affected_control_flow, x in b.marks, "control-flow mark of %d" % x)
        if k == "S":
            check(node.source is not None, "no source for input label %d", x)
            eq((node.source.uid, node.source.path), b.inp(a), "source of %d" % x)
            check(node.parent_one is None, "input label %d has parents", x)
            bo = tr.file_offset(node)
            eq((bo.source.uid, bo.source.path, bo.offset, bo.length), b.inp(a) + (c, 1), "file_offset of %d" % x)
        else:
            check(node.source is None, "combined label %d has a source", x)
        if reach[x] != b.reach[x]:
            eq(sorted(b.bytes_of(reach[x])), sorted(b.bytes_of(b.reach[x])), "input bytes of node %d" % x)
    check(by[0].source is None and by[0].parent_one is None and not by[0].affected_control_flow, "node 0 is not the untainted node")
    if n < 400:
        g = fo.to_graph()
        eq(sorted(g.nodes), sorted(labels), "nodes of the exported graph")
        eq(sorted(g.edges), sorted(edges), "edges of the exported graph")
    t = b.tags()
    if labels[-1] < 0:
        t.append("unfolded-range")
    return "has-U" in t or "has-R" in t, t


CASE = st.tuples(tg.trace(), st.lists(st.integers(0, 3000), max_size=8)).map(lambda t: dict(t[0], pre=t[1]))
SMALL = st.tuples(tg.SMALL, st.lists(st.integers(0, 14), max_size=6)).map(lambda t: dict(t[0], pre=t[1]))
SUBS = [Sub("small", SMALL, run, 12000, 600000, "small worlds (up to 5 initial input bytes, up to 14 further records over few labels); "
            "non-trivial as below"),
        Sub("forest", CASE, run, 3000, 150000,
            "generated label graph, nodes asked for in a generated order and then enumerated; non-trivial: at least one "
            "combined label")]
