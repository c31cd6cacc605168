import math

from hypothesis import strategies as st

from vlib import Sub, check, eq

ASSUMPTIONS = ["nodes are mutually comparable and the graph is not changed between queries",
               "depth is asked only of graphs with a root"]
EDGE = st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list)
G = st.fixed_dictionaries({
    "nodes": st.lists(st.integers(0, 9), max_size=4),
    "edges": st.one_of(st.lists(EDGE, max_size=16), st.lists(EDGE.map(sorted), max_size=20),
                       st.lists(st.integers(1, 9).flatmap(lambda i: st.integers(0, i - 1).map(lambda j: [j, i])), max_size=14)),
    "mask": st.one_of(st.just(1023), st.integers(0, 1023)), "big": st.booleans(), "roots": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=3))})


def reach(succ, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in succ[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def dist(succ, a):
    d, todo = {a: 0}, [a]
    for x in todo:
        for y in sorted(succ[x]):
            if y not in d:
                d[y] = d[x] + 1
                todo.append(y)
    return d


def run(case, ctx):
    from polytracker.graphs import DAG, DiGraph
    f = (lambda x: "node%d" % x) if case["big"] else (lambda x: x)
    g = DiGraph()
    nodes = list(dict.fromkeys(case["nodes"] + [x for e in case["edges"] for x in e]))
    for n in nodes:
        g.add_node(f(n))
    for a, b in case["edges"]:
        g.add_edge(f(a), f(b))
    inv = {f(n): n for n in nodes}
    edges = {tuple(e) for e in case["edges"]}
    succ = {n: {b for a, b in edges if a == n} for n in nodes}
    pred = {n: {a for a, b in edges if b == n} for n in nodes}
    roots = {n for n in nodes if not pred[n]}
    D = {n: dist(succ, n) for n in nodes}
    R = {n: reach(succ, n) for n in nodes}
    if case["roots"] and nodes:
        rs = [nodes[r % len(nodes)] for r in case["roots"]]
        rs = list(dict.fromkeys(rs))
        g.set_roots([f(r) for r in rs])
        roots = set(rs)
    eq(sorted(inv[r] for r in g.roots), sorted(roots), "roots")
    for a in nodes:
        for b in nodes:
            eq(g.path_length(f(a), f(b)), D[a].get(b, math.inf), "path_length(%d, %d)" % (a, b))
        if roots:
            eq(g.depth(f(a)), min(D[r].get(a, math.inf) for r in roots), "depth(%d)" % a)
        anc = [inv[x] for x in g.ancestors(f(a))]
        w = {n for n in nodes if n != a and a in R[n]}
        eq(sorted(anc), sorted(w), "ancestors(%d)" % a)
        eq([D[x][a] for x in anc], sorted(D[x][a] for x in anc), "distances of ancestors(%d)" % a)
        eq(sorted(inv[x] for x in g.descendants(f(a))), sorted(R[a] - {a}), "descendants(%d)" % a)
        eq(g.has_one_predecessor(f(a)), len(pred[a]) == 1, "has_one_predecessor(%d)" % a)
    # the dominator forest links a node to its immediate dominator with respect to each root
    want = set()
    for r in roots:
        inside = {r} | R[r]
        doms = {}
        for n in inside:
            ds = set()
            for d in inside:
                cut = {x: succ[x] - {d} for x in nodes}
                if d == n or d == r or n not in ({r} | reach(cut, r)):
                    ds.add(d)
            doms[n] = ds
        for n in inside:
            if n != r:
                strict = doms[n] - {n}
                idom = [d for d in strict if strict <= doms[d]]
                assert len(idom) == 1
                want.add((idom[0], n))
    eq(sorted((inv[a], inv[b]) for a, b in g.dominator_forest.edges), sorted(want), "edges of the dominator forest")
    # contraction, with nodes that remember what was merged into them
    h = DiGraph()
    for n in nodes:
        h.add_node(frozenset([n]))
    for a, b in edges:
        h.add_edge(frozenset([a]), frozenset([b]))
    c = h.contract(lambda a, b: a | b)
    eq(sorted(x for s in c.nodes for x in s), sorted(nodes), "nodes merged into the contracted graph")
    cs = {s: set(c.successors(s)) for s in c.nodes}
    for s in c.nodes:
        rs = reach(cs, s)
        for t in c.nodes:
            if s != t:
                eq(t in rs, any(y in R[x] for x in s for y in t), "reachability %s -> %s after contraction" % (sorted(s), sorted(t)))
        for n in s:
            ps = pred[n]
            if len(ps) == 1:
                check(next(iter(ps)) in s, "%d was not merged with its only predecessor %d", n, next(iter(ps)))
    d = g.contract()
    check({inv[x] for x in d.nodes} <= set(nodes), "contraction invented nodes")
    ds = {inv[s]: {inv[t] for t in d.successors(s)} for s in d.nodes}
    for s in ds:
        rs = reach(ds, s)
        for t in ds:
            if s != t:
                eq(t in rs, t in R[s], "reachability %d -> %d after contraction" % (s, t))
    eq(sorted((inv[a], inv[b]) for a, b in g.edges), sorted(edges), "edges of the original graph")
    # the drawing has exactly the selected nodes and edges, roots apart from the others
    keep = [n for n in nodes if case["mask"] >> n & 1]
    kw = {}
    if case["mask"] != 1023:
        kw["node_filter"] = lambda x: inv[x] in keep
    if case["mask"] & 1:
        kw["labeler"] = lambda x: "<%s>" % inv[x]
    dot = g.to_dot(**kw)
    drawn, es, part = {}, [], None
    for line in dot.source.split("\n"):
        t = line.strip()
        if t.startswith(("subgraph", "digraph")):
            part = t.split()[1].strip("{")
        elif t == "}":
            part = ""
        elif "->" in t and part != "roots":
            a, b = t.split(" -> ")
            es.append((a, b))
        elif " [label=" in t:
            n, lab = t[:-1].split(" [label=")
            check(n not in drawn, "node %s is drawn twice", n)
            drawn[n] = (lab.strip('"'), part)
    sel = keep if "node_filter" in kw else nodes
    lab = (lambda n: "<%s>" % n) if "labeler" in kw else (lambda n: str(f(n)))
    eq(drawn, {str(f(n)): (lab(n), "roots" if n in roots else "inner") for n in sel}, "nodes of the drawing")
    eq(sorted(es), sorted((str(f(a)), str(f(b))) for a, b in edges if a in sel and b in sel), "edges of the drawing")
    tags = ["cyclic" if any(n in R[n] for n in nodes) else "acyclic", "%d-roots" % min(len(roots), 3)]
    return len(edges) > 2, tags


SUBS = [Sub("graphs", G, run, 6000, 300000, "generated directed graph with up to ten nodes; non-trivial: more than two edges")]
