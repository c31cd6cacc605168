"""C31: a parse tree or grammar extracted from a trace reproduces the traced input."""
import os

from hypothesis import strategies as st

import mocktrace as mt
from vlib import Sub, check, eq

os.environ.setdefault("TQDM_DISABLE", "1")


ASSUMPTIONS = ["the trace is of a parser that reads its input front to back, looking at most one byte ahead (other traces may be refused)",
               "as in C30 for the events"]


def build():
    return {}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 14))
    # a recursive descent parser: every block looks at some bytes from the current position on and moves past some of them
    pos = [0]

    def walk(f):
        for it in f[2]:
            if it[0] == "c":
                walk(it[1])
            elif it[0] == "b":
                look, take = it[2]
                it[2] = list(range(pos[0], min(n, pos[0] + take + (look > 1))))
                pos[0] = min(n, pos[0] + take)
    fr = draw(mt.frames(n, depth=2, extra=False, bytes_=st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list)))
    import json
    fr = json.loads(json.dumps(fr))
    walk(fr)
    return {"content": draw(st.lists(st.integers(97, 99), min_size=n, max_size=n)), "frame": fr,
            "cut": None}


def spell(t):
    from polytracker.parsing import Terminal
    if isinstance(t.value, Terminal):
        check(not t.children, "a terminal with children")
        return t.value.terminal
    return b"".join(spell(c) for c in t.children)


def spans(t, at, out):
    """(node, begin, end) of every node, from the text its terminals spell."""
    from polytracker.parsing import Terminal
    b = at
    if isinstance(t.value, Terminal):
        at += len(t.value.terminal)
    for c in t.children:
        at = spans(c, at, out)
    out.append((t, b, at))
    return at


def accepts(g, w):
    try:
        return bool(g.match(w))
    except ValueError:
        return False


def run(case, ctx):
    from polytracker.grammars import extract, parse_tree_to_grammar
    from polytracker.parsing import Start, Terminal, trace_to_non_generalized_tree
    from polytracker.tracing import FunctionInvocation
    content = bytes(case["content"])
    tr, seq, roots, source = mt.make([case["frame"]], [], content, accesses=[e.bytes for e in mt.flatten(case["frame"])[1] if e.bytes])
    t = trace_to_non_generalized_tree(tr)
    eq(spell(t), content, "input spelled by the tree")
    eq(t.matches(), content, "input matched by the tree")
    check(isinstance(t.value, Start), "the root of the tree is %s", t.value)
    t.verify(content)
    touched = {e.uid: e.frame.all_bytes() for e in seq if e.kind == "entry"}
    touched.update((e.uid, set(e.bytes)) for e in seq if e.kind == "block")
    ns = []
    spans(t, 0, ns)
    calls = 0
    for n, b, e in ns:
        eq((n.begin_offset, n.end_offset), (b, e), "offsets of a node spelling input bytes %d to %d" % (b, e))
        if isinstance(n.value, (Terminal, Start)):
            continue
        calls += isinstance(n.value, FunctionInvocation)
        s = touched[n.value.uid]
        check(s and min(s) <= b and e <= max(s) + 1, "the node of event %d spans bytes %d to %d, the event touched %s", n.value.uid, b, e, sorted(s))
    # the order of siblings is the order of events
    for n, _, _ in ns:
        u = [c.value.uid for c in n.children if not isinstance(c.value, Terminal)]
        check(u == sorted(u) or isinstance(n.value, Terminal), "children out of order: events %s", u)
    g = parse_tree_to_grammar(t)
    eq(accepts(g, content), True, "the extracted grammar accepts the input")
    g.simplify()
    eq(accepts(g, content), True, "the simplified grammar accepts the input")
    c = t.clone()
    eq(spell(c), content, "input spelled by a copy of the tree")
    t.simplify()
    eq(spell(t), content, "input spelled by the simplified tree")
    eq(accepts(parse_tree_to_grammar(t), content), True, "the grammar of the simplified tree accepts the input")
    for simple in (False, True):
        eq(accepts(extract([tr], simplify=simple), content), True, "extract() gives a grammar that accepts the input")
    return calls > 1 and len(ns) > 8, []


TREE = st.recursive(st.tuples(st.integers(0, 5), st.just([])).map(list),
                    lambda c: st.tuples(st.integers(0, 5), st.lists(c, max_size=4)).map(list), max_leaves=14)
TCASE = st.fixed_dictionaries({"tree": TREE, "cls": st.integers(0, 1), "deep": st.sampled_from([0] * 9 + [2000]),
                               "edit": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3), TREE).map(list), max_size=2),
                               "term": st.lists(st.lists(st.one_of(st.integers(0, 255), st.sampled_from([9, 10, 13, 34, 92, 126, 127])), max_size=8).map(bytes).map(list), min_size=2, max_size=3)})


def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            k = s[i + 1]
            if k == "x":
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out += {"n": b"\n", "t": b"\t", "r": b"\r", '"': b'"', "\\": b"\\"}[k]
            i += 2
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


def fresh(m):
    return [m[0], [fresh(c) for c in m[1]]]


def trees(case, ctx):
    from polytracker.parsing import ImmutableParseTree, MutableParseTree, Terminal
    cls = [ImmutableParseTree, MutableParseTree][case["cls"]]
    model = case["tree"]
    for _ in range(case["deep"]):
        model = [0, [model]]

    def make(m):
        stack, made = [(m, False)], []
        while stack:
            x, done = stack.pop()
            if done:
                k = len(x[1])
                kids = made[len(made) - k:] if k else []
                del made[len(made) - k:]
                made.append(cls(x[0], kids))
            else:
                stack.append((x, True))
                stack.extend((c, False) for c in reversed(x[1]))
        return made[0]

    def orders(m):
        pre, post, stack = [], [], [(m, False)]
        while stack:
            x, done = stack.pop()
            if done:
                post.append(x)
                continue
            pre.append(x)
            stack.append((x, True))
            stack.extend((c, False) for c in reversed(x[1]))
        return pre, post

    def same(t, what):
        pre, post = orders(model)
        eq([(n.value, len(n), len(n.children)) for n in t.preorder_traversal()], [(x[0], len(x[1]), len(x[1])) for x in pre], what + ": nodes, parents first")
        eq([n.value for n in t.postorder_traversal()], [x[0] for x in post], what + ": nodes, children first")
        eq([n.value for n in t.leaves()], [x[0] for x in pre if not x[1]], what + ": leaves")
        ids = [id(n) for n in t.preorder_traversal()]
        eq(sorted(map(id, t.postorder_traversal())), sorted(ids), what + ": the same nodes in both orders")
        eq(t.is_leaf(), not model[1], what + ": whether it is a leaf")
        eq([c.value for c in t], [c[0] for c in model[1]], what + ": children")
        return set(ids)
    t = make(model)
    ids = same(t, "tree")
    pre, _ = orders(model)
    eq(t.descendants, len(pre) - 1, "number of descendants")
    c = t.clone()
    check(type(c) is cls, "the copy is a %s", type(c).__name__)
    check(not same(c, "copy") & ids, "the copy shares nodes with the tree")
    dag = t.to_dag()
    eq(len(dag), len(pre), "nodes of the graph of the tree")
    eq(sorted((id(a), id(b)) for a, b in dag.edges), sorted((id(n), id(k)) for n in t.preorder_traversal() for k in n.children), "edges of the graph of the tree")
    if not case["deep"]:
        def text(m):
            return "%d" % m[0] if not m[1] else "%d [%s]" % (m[0], " ".join(map(text, m[1])))
        eq(str(t), text(model), "text of the tree")
        if cls is MutableParseTree:
            model = fresh(model)
            for where, how, sub in case["edit"]:
                ns, ms = list(c.preorder_traversal()), orders(model)[0]
                n, m = ns[where % len(ns)], ms[where % len(ms)]
                sub = fresh(sub)
                if how and m[1]:
                    n[how % len(m[1])] = make(sub)
                    m[1][how % len(m[1])] = sub
                else:
                    n.add_child(make(sub))
                    m[1].append(sub)
            same(c, "edited copy")
            model = case["tree"]
            same(t, "tree after its copy was edited")
    a, b = bytes(case["term"][0]), bytes(case["term"][1])
    ta, tb = Terminal(a), Terminal(b)
    eq((ta + tb).terminal, a + b, "joined terminals")
    eq((ta + b).terminal, a + b, "terminal joined with bytes")
    eq((ta == tb, hash(ta) == hash(Terminal(a))), (a == b, True), "equality of terminals")
    for x, y in ((a, ta), (b, tb)):
        s = str(y)
        check(len(s) >= 2 and s[0] == s[-1] == '"', "text of a terminal: %s", s)
        eq(unescape(s[1:-1]), x, "bytes named by the text of a terminal")
        check(all(32 <= ord(ch) < 127 for ch in s), "the text of a terminal has unprintable characters: %r", s)
    return len(pre) > 4, [cls.__name__] + (["deep"] if case["deep"] else [])


SUBS = [Sub("extract", cases(), run, 2000, 100000, "generated recursive descent parses (blocks that read and look one byte ahead, calls, "
            "recursion, unread bytes) of generated inputs; non-trivial: more than one call in the tree and eight nodes"),
        Sub("trees", TCASE, trees, 2500, 100000, "generated trees (some 2000 levels deep): orders of traversal, leaves, counts, copies, edits of copies, "
            "graphs, texts; terminals joined, compared and printed; non-trivial: more than four nodes")]
