"""C24: grammar parsing accepts exactly the language and reproduces its input."""
import os

from hypothesis import strategies as st

from vlib import Sub, Violation, check, eq

os.environ.setdefault("TQDM_DISABLE", "1")
ASSUMPTIONS = ["no empty rules or terminals, every production derives some sentence (the parser treats the others as empty)",
               "parse trees: of grammars in which no production derives just itself; the tree is the one the match reports, "
               "further trees of ambiguous sentences are not enumerated",
               "the start production is marked as not removable before simplifying, as extracted grammars mark it",
               "a sentence is rejected by a match that is false or by a ValueError naming the unexpected byte"]
MAX = 7
ALPHA = ["a", "b", "ab", "ba", "aa", "\u00e9", "b\u00e9"]


def build():
    return {}


def names(k):
    return ["<S>", "<A>", "<B>", "<C>", "<D>"][:k]


@st.composite
def grammars(draw):
    k = draw(st.integers(1, 5))
    alpha = draw(st.sampled_from([ALPHA[:2], ALPHA[:5], ALPHA, ["a"], ["a", "aa"]]))
    sym = st.one_of(st.integers(0, k - 1), st.sampled_from(alpha))
    g = {}
    for i, n in enumerate(names(k)):
        if i > 1 and draw(st.integers(0, 5)) == 0:
            g[n] = [list(r) for r in g[names(k)[draw(st.integers(1, i - 1))]]]   # another name for the same rules
            continue
        rules = draw(st.lists(st.lists(sym, min_size=1, max_size=3), min_size=1, max_size=3))
        if draw(st.booleans()):
            rules.append([draw(st.sampled_from(alpha))])
        g[n] = [[s if isinstance(s, str) else names(k)[s] for s in r] for r in rules]
    return g


CASE = st.fixed_dictionaries({"g": grammars(), "pick": st.lists(st.integers(0, 2 ** 16), min_size=1, max_size=5),
                              "words": st.lists(st.lists(st.sampled_from(ALPHA[:2] + ["\u00e9"]), min_size=1, max_size=6).map("".join),
                                                max_size=3),
                              "mutate": st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["a", "b", ""])).map(list), max_size=3),
                              "bytes": st.booleans(), "other": st.integers(0, 4)})


def enc(s):
    return s.encode() if isinstance(s, str) else s


def language(g, start=None):
    """The sentences of up to MAX bytes each nonterminal derives; rules are sequences of names and bytes."""
    L = {x: set() for x in g}
    changed = True
    while changed:
        changed = False
        for x, rules in g.items():
            for rule in rules:
                cur = {b""}
                for s in rule:
                    nxt = L[s] if isinstance(s, str) else {s}
                    cur = {a + b for a in cur for b in nxt if len(a) + len(b) <= MAX}
                    if not cur:
                        break
                if not cur <= L[x]:
                    L[x] |= cur
                    changed = True
    return L


def productive(g):
    ok = set()
    while True:
        new = {x for x, rules in g.items() if any(all(not isinstance(s, str) or s in ok for s in r) for r in rules)}
        if new == ok:
            return len(ok) == len(g)
        ok = new


def cyclic(g):
    r = {x: {q[0] for q in rules if len(q) == 1 and isinstance(q[0], str)} for x, rules in g.items()}
    for _ in g:
        for x in r:
            for y in list(r[x]):
                r[x] = r[x] | r[y]
    return any(x in r[x] for x in r)


def spell(t):
    from polytracker.parsing import Terminal
    if isinstance(t.value, Terminal):
        return t.value.terminal
    return b"".join(spell(c) for c in t.children)


def derivation(t, g, top):
    """Checks a node against the rules; returns the name of the production it stands for.

    A node lists a childless marker of the production (or rule) it expands, then one child per symbol."""
    from polytracker.grammars import Production, Rule
    from polytracker.parsing import Terminal
    kids = list(t.children)
    check(kids, "a childless node in place of an expanded production")
    mark = kids[0]
    body = kids[1:]
    check(not mark.children and isinstance(mark.value, (Production, Rule)), "node does not start with the production it expands")
    seq = []
    for c in body:
        if isinstance(c.value, Terminal):
            check(not c.children, "a terminal with children")
            seq.append(c.value.terminal)
        else:
            seq.append(derivation(c, g, False))
    if isinstance(mark.value, Production):
        name = mark.value.name
        check(name in g, "unknown production %s in the tree", name)
        check(merge(seq) in [merge(r) for r in g[name]], "the tree expands %s to %s, which is not one of its rules %s", name, seq, g[name])
        return name
    eq(merge(seq), merge([s if isinstance(s, str) else s.terminal for s in mark.value.sequence]), "expansion of a rule")
    owner = [n for n in g if merge(seq) in [merge(r) for r in g[n]]]
    check(owner, "the tree uses a rule %s the grammar lacks", seq)
    return owner[0] if len(owner) == 1 else None


def merge(seq):
    out = []
    for s in seq:
        if out and not isinstance(s, str) and not isinstance(out[-1], str):
            out[-1] = out[-1] + s
        else:
            out.append(s)
    return out


def rules_of(gr, start):
    """The rules held by the grammar object, for the language after a simplification."""
    from polytracker.parsing import Terminal
    g = {}

    def conv(p):
        return [[s.terminal if isinstance(s, Terminal) else s for s in r.sequence] for r in p.rules]
    for n, p in gr.productions.items():
        g[n] = conv(p)
    g["\0start"] = conv(start)
    for rules in g.values():
        for r in rules:
            for s in r:
                if isinstance(s, str):
                    check(s in g, "a rule refers to the production %s, which no longer exists", s)
    return g


def run(case, ctx):
    from polytracker.grammars import Grammar
    raw = {x: [list(r) for r in rs] for x, rs in case["g"].items()}
    g = {x: [[s if s in raw else enc(s) for s in r] for r in rs] for x, rs in raw.items()}
    if not productive(g):
        return False, ["unproductive"]
    L = language(g)
    cyc = cyclic(g)
    start = names(len(g))[case["other"] % len(g)] if case["other"] >= 3 else "<S>"

    def make():
        gr = Grammar()
        gr.load(raw)
        gr.start = gr["<S>"]
        return gr
    gr = make()
    gr.verify(test_disconnection=False)
    lang = L[start]
    words = [w.encode() for w in case["words"]]
    if lang:
        o = sorted(lang)
        words += [o[p % len(o)] for p in case["pick"]]
    for (i, c) in case["mutate"]:
        if words:
            w = words[i % len(words)]
            j = i % (len(w) + 1)
            words.append(w[:j] + c.encode() + w[j + 1:])
    tags = {"cyclic"} if cyc else set()
    hits = 0
    for w in words:
        if not w or len(w) > MAX:
            continue
        s = w
        if not case["bytes"]:
            try:
                s = w.decode()
            except UnicodeDecodeError:
                continue
        want = w in lang
        m = gr.match(s) if start == "<S>" else gr.match(s, gr[start])
        try:
            got = bool(m)
            err = None
        except ValueError as e:
            got, err = False, e
        eq(got, want, "%s matches %r" % (start, s) + (" (%s)" % str(err).split("\n")[0] if err else ""))
        eq(bool(m), want, "%s matches %r, asked again" % (start, s))
        if got:
            hits += 1
            tags.add("match")
        else:
            tags.add("reject")
        if got and not cyc:
            for again in range(2):
                t = m.parse_tree
                check(t is not None, "%s matches %r but has no tree", start, s)
                eq(spell(t), w, "sentence spelled by the parse tree")
                derivation(t, g, True)
            first = next(iter(m))
            eq(spell(first), w, "sentence spelled by the first enumerated tree")
            tags.add("tree")
    # simplification
    gs = make()
    gs.start.removable = False      # as grammars extracted from traces set it
    st_ = gs.start
    gs.simplify()
    after = rules_of(gs, gs.start)
    eq(language(after)["\0start"], L["<S>"], "sentences after simplifying")
    eq(gs.start is st_, True, "start production after simplifying")
    if len(gs.productions) < len(g):
        tags.add("simplified")
    for w in words[:3]:
        if w and len(w) <= MAX:
            try:
                got = bool(gs.match(w))
            except ValueError:
                got = False
            eq(got, w in L["<S>"], "the simplified grammar matches %r" % w)
    if any(g[x] == g[y] for x in g for y in g if x < y):
        tags.add("same-rules")
    if len(L["<S>"]) > 20:
        tags.add("large-language")
    return hits > 0 and len(g) > 1, sorted(tags)


SUBS = [Sub("match", CASE, run, 4000, 150000, "generated grammars (recursion, alternatives, shared and duplicated productions) and "
            "sentences (derived, mutated, arbitrary): membership, tree, simplification; non-trivial: more than one production "
            "and a derived sentence was matched")]
