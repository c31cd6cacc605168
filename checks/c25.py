from hypothesis import strategies as st

from vlib import Sub, check, eq

ASSUMPTIONS = ["an entry is used by storing it, looking it up, testing for it and reaching it in an iteration"]
K = st.integers(0, 9)
V = st.integers(0, 99)
OP = st.one_of(
    st.tuples(st.just("set"), K, V), st.tuples(st.just("set"), K, V), st.tuples(st.just("set"), K, V),
    st.tuples(st.just("get"), K), st.tuples(st.just("getd"), K), st.tuples(st.just("geterr"), K),
    st.tuples(st.just("in"), K), st.tuples(st.just("del"), K),
    st.tuples(st.just("iter"), st.integers(0, 11)), st.tuples(st.just("list")), st.tuples(st.just("len")),
    st.tuples(st.just("pop"), K), st.tuples(st.just("setdefault"), K, V), st.tuples(st.just("update"), st.lists(st.tuples(K, V), max_size=4)),
    st.tuples(st.just("items")), st.tuples(st.just("itermut"), st.lists(K, max_size=3)), st.tuples(st.just("clear")),
).map(list)
LRU = st.fixed_dictionaries({"max": st.one_of(st.none(), st.integers(0, 6), st.integers(1, 3)),
                             "ops": st.one_of(st.lists(OP, min_size=1, max_size=20), st.lists(OP, min_size=15, max_size=80))})


def mk(k):
    return ("key", k, "x" * k)  # a new, equal object each time


class Model:
    def __init__(self, m):
        self.max, self.o, self.d = m, [], {}

    def use(self, k):
        self.o.remove(k)
        self.o.append(k)

    def set(self, k, v):
        if k in self.d:
            self.o.remove(k)
        self.o.append(k)
        self.d[k] = v
        while self.max is not None and len(self.o) > self.max:
            del self.d[self.o.pop(0)]
            self.evicted = True

    def rm(self, k):
        self.o.remove(k)
        del self.d[k]
    evicted = False


def run_lru(case, ctx):
    from polytracker.cache import LRUCache
    c = LRUCache(max_size=case["max"])
    m = Model(case["max"])
    for i, o in enumerate(case["ops"]):
        at = "after step %d %s: " % (i, o)
        op = o[0]
        if op == "set":
            c[mk(o[1])] = o[2]
            m.set(o[1], o[2])
        elif op in ("get", "geterr"):
            try:
                got = (c[mk(o[1])] if op == "get" else c.get(mk(o[1])),)
            except KeyError:
                got = None
            if o[1] in m.d:
                m.use(o[1])
            eq(got, (m.d[o[1]],) if o[1] in m.d else None, at + "value")
        elif op == "getd":
            d = None if i % 2 else -5
            eq(c.get(mk(o[1]), d), m.d.get(o[1], d), at + "value")
            if o[1] in m.d:
                m.use(o[1])
        elif op == "in":
            eq(mk(o[1]) in c, o[1] in m.d, at + "membership")
            if o[1] in m.d:
                m.use(o[1])
        elif op == "del":
            try:
                del c[mk(o[1])]
                ok = True
            except KeyError:
                ok = False
            eq(ok, o[1] in m.d, at + "deleted")
            if ok:
                m.rm(o[1])
        elif op == "iter":
            n = 0
            order = list(m.o)
            for k in c:
                if n == o[1]:
                    # reached, hence used
                    eq(k, mk(order[n]), at + "key %d of the iteration" % n)
                    m.use(order[n])
                    break
                eq(k, mk(order[n]), at + "key %d of the iteration" % n)
                m.use(order[n])
                n += 1
        elif op == "list":
            eq(list(c), [mk(k) for k in m.o], at + "order of keys")
        elif op == "len":
            eq(len(c), len(m.o), at + "length")
        elif op == "items":
            eq(list(c.items()), [(mk(k), m.d[k]) for k in m.o], at + "items")
            eq(list(c.values()), [m.d[k] for k in m.o], at + "values")
        elif op == "pop":
            got = c.pop(mk(o[1]), -7)
            eq(got, m.d.get(o[1], -7), at + "popped")
            if o[1] in m.d:
                m.rm(o[1])
        elif op == "setdefault":
            if m.max == 0:
                continue
            got = c.setdefault(mk(o[1]), o[2])
            if o[1] in m.d:
                m.use(o[1])
            else:
                m.set(o[1], o[2])
            eq(got, m.d.get(o[1], o[2]), at + "setdefault")
        elif op == "update":
            c.update([(mk(k), v) for k, v in o[1]])
            for k, v in o[1]:
                m.set(k, v)
        elif op == "itermut":
            # keys already reached are deleted and stored again while iterating: every key is still reached exactly once
            seen, vals = [], dict(m.d)
            for k in c:
                seen.append(k[1])
                check(len(seen) <= len(vals), at + "more keys than entries: %s", seen)
                if k[1] in o[1]:
                    v = vals[k[1]]
                    del c[mk(k[1])]
                    c[mk(k[1])] = v
            eq(sorted(seen), sorted(vals), at + "keys reached while storing some again")
            m.o = [k[1] for k in list(c)]
            eq(sorted(m.o), sorted(vals), at + "keys")
        elif op == "clear":
            c.clear()
            m.o, m.d = [], {}
        check(m.max is None or len(c) <= m.max, at + "%d entries, at most %s allowed", len(c), m.max)
        eq(len(c), len(m.o), at + "length")
    eq(list(c), [mk(k) for k in m.o], "keys at the end, least recently used first")
    eq([c[k] for k in list(c)], [m.d[k] for k in m.o], "values at the end")
    return m.evicted, ["unbounded" if case["max"] is None else "max-%d" % case["max"]]


SOP = st.one_of(
    st.tuples(st.just("add"), K), st.tuples(st.just("add"), K), st.tuples(st.just("discard"), K), st.tuples(st.just("remove"), K),
    st.tuples(st.just("in"), K), st.tuples(st.just("pop")), st.tuples(st.sampled_from(["|", "&", "-", "^", "|=", "&=", "-=", "^=", "cmp"]), st.lists(K, max_size=6)),
    st.tuples(st.just("clear"))).map(list)
SETS = st.fixed_dictionaries({"init": st.lists(K, max_size=8), "ops": st.lists(SOP, max_size=30)})


def uniq(xs):
    return list(dict.fromkeys(xs))


def run_set(case, ctx):
    from polytracker.cache import OrderedSet
    s = OrderedSet(*map(mk, case["init"]))
    m = uniq(case["init"])
    ident = lambda: [k[1] for k in s]
    for i, o in enumerate(case["ops"]):
        at = "after step %d %s: " % (i, o)
        op = o[0]
        if op == "add":
            s.add(mk(o[1]))
            if o[1] not in m:
                m.append(o[1])
        elif op == "discard":
            s.discard(mk(o[1]))
            m = [x for x in m if x != o[1]]
        elif op == "remove":
            try:
                s.remove(mk(o[1]))
                ok = True
            except KeyError:
                ok = False
            eq(ok, o[1] in m, at + "removed")
            m = [x for x in m if x != o[1]]
        elif op == "in":
            eq(mk(o[1]) in s, o[1] in m, at + "membership")
        elif op == "pop":
            try:
                k = s.pop()[1]
                check(k in m, at + "popped %s, not a member", k)
                m.remove(k)
            except KeyError:
                check(not m, at + "pop failed on a set with %d members", len(m))
        elif op == "clear":
            s.clear()
            m = []
        elif op == "cmp":
            t = OrderedSet(*map(mk, o[1]))
            a, b = set(m), set(o[1])
            eq([s == t, s <= t, s < t, s >= t, s > t, s.isdisjoint(t), s != t],
               [a == b, a <= b, a < b, a >= b, a > b, a.isdisjoint(b), a != b], at + "comparisons")
        else:
            t = OrderedSet(*map(mk, o[1]))
            a, b = set(m), set(o[1])
            w = {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op[0]]
            if op.endswith("="):
                if op == "|=":
                    s |= t
                elif op == "&=":
                    s &= t
                elif op == "-=":
                    s -= t
                else:
                    s ^= t
                # members that stay keep their order; new ones follow
                got = ident()
                eq(sorted(got), sorted(w), at + "members")
                eq([x for x in got if x in a], [x for x in m if x in w], at + "order of the members kept")
                m = got
            else:
                r = {"|": lambda: s | t, "&": lambda: s & t, "-": lambda: s - t, "^": lambda: s ^ t}[op]()
                got = [k[1] for k in r]
                eq(sorted(got), sorted(w), at + "members of the result")
                if op in "|-":
                    eq(got, [x for x in uniq(m + (o[1] if op == "|" else [])) if x in w], at + "order of the result")
                eq([k[1] for k in t], uniq(o[1]), at + "other operand")
        eq(ident(), m, at + "members in order")
        eq(len(s), len(m), at + "length")
    return len(case["ops"]) > 2, []


SUBS = [Sub("lru", LRU, run_lru, 12000, 600000, "operation history on a cache of generated size; non-trivial: an entry was evicted"),
        Sub("set", SETS, run_set, 8000, 400000, "operation history on an ordered set; non-trivial: more than two operations")]
