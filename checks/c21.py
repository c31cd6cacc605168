import os

from hypothesis import strategies as st

from vlib import Sub, check, eq

ASSUMPTIONS = ["inputs are identified by descriptor and path; their content is available; searched sequences are not empty"]
# bytes as latin-1 text: two letters, the two bytes of an e with acute accent, a zero byte, a newline, 255
ALPHA = "ab"
WIDE = "ab\xc3\xa9\x00\n\xff"
INP = st.tuples(st.integers(-1, 2), st.sampled_from(["p", "q", "r"]),
                st.one_of(st.text(st.sampled_from(ALPHA), min_size=1, max_size=30),
                          st.text(st.sampled_from(WIDE), min_size=1, max_size=30),
                          st.tuples(st.text(st.sampled_from(WIDE), min_size=1, max_size=9), st.one_of(st.integers(20, 90), st.integers(500, 700))).map(lambda t: t[0] * t[1])))
OFF = st.one_of(st.integers(0, 40), st.integers(-20, -1), st.integers(0, 6300))
PICK = st.tuples(st.integers(0, 3), OFF).map(list)
RUN = st.tuples(st.integers(0, 3), OFF, st.one_of(st.integers(1, 15), st.integers(100, 700))).map(list)
SET = st.lists(st.one_of(PICK, RUN), max_size=12)
BND = st.one_of(st.none(), st.integers(-20, 40))
CASE = st.fixed_dictionaries({
    "inputs": st.lists(INP.map(list), min_size=1, max_size=4),
    "a": SET, "b": SET, "perm": st.integers(0, 1000),
    "find": st.lists(st.text(st.sampled_from(ALPHA + "c"), min_size=1, max_size=4) | st.text(st.sampled_from(WIDE), min_size=1, max_size=3), max_size=3),
    "cut": st.lists(st.tuples(st.integers(0, 3), OFF, st.integers(1, 4)).map(list), max_size=2),  # searched for as well
    "onfile": st.booleans(),
    "slices": st.lists(st.tuples(BND, BND).map(list), max_size=3)})


def key(i):
    return (i.uid, i.path)


def bk(o):
    return (o.source.uid, o.source.path, o.offset)


def expand(s, inputs):
    out = []
    for p in s:
        k = p[0] % len(inputs)
        n = inputs[k].size
        for i in range(p[2] if len(p) == 3 else 1):
            if len(p) == 3 and p[1] % n + i >= n:
                break
            out.append((k, p[1] % n + i))
    return out


def runs(bytes_):
    """maximal runs of a set of (uid, path, off)"""
    out = []
    for u, p, o in sorted(bytes_):
        if out and out[-1][:2] == (u, p) and out[-1][2] + out[-1][3] == o:
            out[-1] = (u, p, out[-1][2], out[-1][3] + 1)
        else:
            out.append((u, p, o, 1))
    return out


def rk(r):
    return (r.source.uid, r.source.path, r.offset, r.length)


def run(case, ctx):
    from polytracker.inputs import Input
    from polytracker.tracing import ByteOffset, TaintedRegion, Taints
    inputs, seen, real = [], {}, {}
    for uid, path, content in case["inputs"]:
        if case["onfile"]:  # the content was not stored with the input: it is read from the path
            path = os.path.join(ctx.dir, path)
            content = real.setdefault(path, content)
        if (uid, path) not in seen:
            seen[(uid, path)] = content
            inputs.append(Input(uid, path, len(content), content=None if case["onfile"] else content.encode("latin-1")))
    for path, content in real.items():
        with open(path, "wb") as f:
            f.write(content.encode("latin-1"))

    def copy(i):  # an equal but different object
        j = inputs[i]
        return Input(j.uid, j.path, j.size, content=j.stored_content)
    import random
    sets, taints = [], []
    for name in ("a", "b"):
        lst = [ByteOffset(copy(k), o) for k, o in expand(case[name], inputs)]
        random.Random(case["perm"]).shuffle(lst)
        t = Taints(iter(lst))
        w = {bk(o) for o in lst}
        sets.append(w)
        taints.append(t)
        got = [bk(o) for o in t]
        eq(sorted(got), sorted(w), "bytes of the set")
        eq(len(t), len(w), "len")
        eq(bool(t), bool(w), "truth value")
        order = []
        for g in got:
            if not order or order[-1] != g[:2]:
                order.append(g[:2])
        check(len(order) == len(set(order)), "bytes are not grouped by source: %s", got)
        for s in order:
            offs = [g[2] for g in got if g[:2] == s]
            check(offs == sorted(offs), "offsets of %s are not in order: %s", s, offs)
        eq(sorted(map(key, t.sources())), sorted({g[:2] for g in got}), "sources")
        eq(sorted(rk(r) for r in t.regions()), runs(w), "regions")
        # to_regions of an unsorted list without duplicates
        uniq, have = [], set()
        for o in lst:
            if bk(o) not in have:
                have.add(bk(o))
                uniq.append(o)
        eq(sorted(rk(r) for r in Taints.to_regions(uniq)), runs(w), "regions of an unordered list")
        for i in range(len(inputs)):
            f = t.from_source(copy(i))
            eq(sorted(bk(o) for o in f), sorted(x for x in w if x[:2] == key(inputs[i])), "bytes from source %s" % (key(inputs[i]),))
            eq([rk(r) for r in f.regions()], runs({x for x in w if x[:2] == key(inputs[i])}), "regions from one source")
        cuts = []
        for k, o, n in case["cut"]:
            c = seen[key(inputs[k % len(inputs)])]
            cuts.append((c * 2)[o % len(c):][:n])
        for seq in case["find"] + cuts:
            exp = []
            for u, p, off, n in runs(w):
                c = seen[(u, p)][off:off + n]
                for i in range(0, n - len(seq) + 1):
                    if c[i:i + len(seq)] == seq:
                        exp.append((u, p, off + i, len(seq)))
            forms = [seq.encode("latin-1")] + ([ord(seq)] if len(seq) == 1 else [])
            try:
                forms.append(seq.encode("latin-1").decode("utf-8"))
            except UnicodeDecodeError:
                pass
            for f in forms:
                got, it = [], iter(t.find(f))
                for r in it:
                    got.append(rk(r))
                    check(bytes(r) == seq.encode("latin-1"), "found region holds %r, not %r", bytes(r), seq)
                    if len(got) > len(exp) + 5:
                        break
                eq(sorted(got), sorted(exp), "matches of %r" % (f,))
                eq(f in t, bool(exp), "%r in taints" % (f,))
        for r in t.regions():
            full = list(range(r.offset, r.offset + r.length))
            eq(r.value, seen[key(r.source)].encode("latin-1")[r.offset:r.offset + r.length], "value of a region")
            for i in range(r.length):
                eq(rk(r[i]), (r.source.uid, r.source.path, r.offset + i, 1), "region[%d]" % i)
            try:
                r[r.length]
                check(False, "index beyond the region is accepted")
            except IndexError:
                pass
            for a, z in case["slices"]:
                s = r[a:z]
                e = full[a:z]
                eq(s.length, len(e), "length of region[%s:%s] of a region of %d" % (a, z, r.length))
                if e:
                    eq(rk(s), (r.source.uid, r.source.path, e[0], len(e)), "region[%s:%s]" % (a, z))
    d = taints[0].diff(taints[1])
    one, two = sets[0] - sets[1], sets[1] - sets[0]
    eq([bk(o) for o in d.bytes_only_in_first], sorted(one), "bytes only in the first set")
    eq([bk(o) for o in d.bytes_only_in_second], sorted(two), "bytes only in the second set")
    eq(sorted(rk(r) for r in d.regions_only_in_first), runs(one), "regions only in the first set")
    eq(sorted(rk(r) for r in d.regions_only_in_second), runs(two), "regions only in the second set")
    eq(bool(d), bool(one or two), "truth value of a diff")
    tags = []
    if len({x[0] for x in sets[0]}) < len({x[:2] for x in sets[0]}):
        tags.append("same-descriptor-two-paths")
    if any(r[3] > 1 for r in runs(sets[0])):
        tags.append("long-region")
    return len(sets[0]) > 1, tags


SUBS = [Sub("sets", CASE, run, 12000, 500000,
            "two generated sets of tainted bytes over up to four inputs in generated order, with searches and slices; "
            "non-trivial: at least two bytes")]
