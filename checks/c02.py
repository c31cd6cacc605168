from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, eq
from . import pt

ASSUMPTIONS = ["only existing labels are branched on"]


def build():
    return {"core": vbuild.build_core()}


def run(case, ctx):
    m, t = pt.execute(case, ctx)
    labels = t.labels
    m.check_labels(labels)
    want = m.check_marks(labels)
    tags = []
    if len(want) > 32:
        tags.append("over-32-marked")
    if len(set(m.marked)) > 1:
        tags.append("several-branches")
    shared = [l for l in want if tdag.dec(labels[l])[0] != "S"]
    if shared:
        tags.append("branch-on-combined")
    if any(i not in want for i in range(1, len(labels))) and want:
        tags.append("partly-marked")
    return bool(shared), tags


# Wide and layered graphs: a row of n inputs, a row of pairs over it, more rows, then branches.
wide = st.tuples(
    st.integers(2, 220),
    st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 3), st.integers(0, 5), st.integers(2, 110)), min_size=1, max_size=5),
    st.lists(st.one_of(
        st.tuples(st.just("m"), pt.ref()).map(list), st.tuples(st.just("fold"), pt.ref(), st.integers(2, 60)).map(list),
        st.tuples(st.just("tree"), pt.ref(), st.integers(2, 60)).map(list), pt.union()), min_size=1, max_size=12),
).map(lambda t: [["r", 0, 0, t[0], 0]] + [["zip", ["~", k], a, ["~", k + 2], b, n] for a, b, k, n in t[1]] + t[2]
      + [["m", ["~", 0]]])


# A range over labels most of which are themselves combinations (fills the queue past its array part).
nested = st.tuples(st.integers(6, 150), st.integers(2, 5), st.integers(2, 140), st.lists(pt.union(), max_size=5),
                   st.lists(pt.ref(), max_size=3)).map(
    lambda t: [["r", 0, 0, t[0], 1], ["zip", ["$", 4, 0], 1, ["$", 4, t[1]], 1, max(1, t[0] - t[1])],
               ["fold", ["~", min(t[2], t[0] - 1)], t[2]]] + t[3] + [["m", ["~", 0]]] + [["m", r] for r in t[4]])


def run_queue(case, ctx):
    n, ops = case
    lines = []
    model = []
    want = []
    biggest = 0
    for o in ops:
        if o[0] == 0:
            for i in range(o[2]):
                lines.append("push %d" % (o[1] + i))
                model.append(o[1] + i)
                want.append("ok")
            biggest = max(biggest, len(model))
        elif o[0] == 1:
            for i in range(o[1]):
                lines.append("pop")
                want.append(str(model.pop(0)) if model else "empty")
        else:
            lines.append("e")
            want.append("0" if model else "1")
    lines += ["pop"] * (len(model) + 1)
    want += [str(x) for x in model] + ["empty"]
    eq(ctx.server("core").case("DQ", [str(n)], lines), want, "queue contents")
    return biggest >= n, ["grew-past-array"] if biggest >= n else []


def run_large(case, ctx):
    """Thousands of labels: what a branch reaches is read off the label table."""
    n, ops = case
    lines = pt.expand([["r", 0, 0, n, 1]] + ops + [["m", ["~", 0]]]) + ["end"]
    path = ctx.path(".tdag")
    try:
        ans = ctx.server("core").case("PT", [pt.hx(path.encode())], lines)
        eq(ans[-1], "ok", "closing the trace")
        t = tdag.Trace(path)
    finally:
        ctx.rm(path)
    m = pt.Model()
    m.marked = [int(a.split()[0]) for l, a in zip(lines, ans) if l.startswith("mark ") and a != "skip"]
    want = m.check_marks(t.labels)
    return len(want) > 4096, (["over-4096-marked"] if len(want) > 4096 else []) + (["over-65536-labels"] if n > 65536 else [])


bigref = st.one_of(pt.ref(), st.tuples(st.just("%"), st.integers(0, 600000)).map(list))
large = st.tuples(
    st.one_of(st.integers(5100, 7000), st.integers(5100, 7000), st.integers(65536, 72000), st.integers(524280, 526000)),
    st.one_of(st.just([]), st.tuples(st.integers(0, 40), st.integers(4000, 5000)).map(lambda t: [["fold", ["%", t[0]], t[1]]])),
    st.lists(st.one_of(
        st.tuples(st.just("fold"), bigref, st.integers(2, 40)), st.tuples(st.just("u"), bigref, bigref),
        st.tuples(st.just("u"), bigref, st.just(["~", 0])),
        st.tuples(st.just("zip"), bigref, st.integers(1, 3), bigref, st.integers(1, 40), st.integers(2, 30)),
        st.tuples(st.just("m"), bigref)).map(list), min_size=1, max_size=8)).map(lambda t: [t[0], t[1] + t[2]])
queue = st.tuples(st.sampled_from([2, 5, 32]), st.lists(st.one_of(
    st.tuples(st.just(0), st.integers(1, 2**31 - 1000), st.integers(1, 40)),
    st.tuples(st.just(1), st.integers(1, 40)), st.tuples(st.just(2))).map(list), min_size=1, max_size=25)).map(list)

SUBS = [
    Sub("history", pt.history(), run, 6000, 300000,
        "history of reads, combinations and branches; non-trivial: a branch depended on a combined label"),
    Sub("wide", wide, run, 2500, 150000, "layered graphs with hundreds of labels; non-trivial as above"),
    Sub("nested", nested, run, 2000, 100000, "ranges over combined labels; non-trivial as above"),
    Sub("large", large, run_large, 200, 6000, "histories with many thousand labels; non-trivial: more than 4096 labels marked"),
    Sub("queue", queue, run_queue, 3000, 60000, "push/pop sequences of the traversal queue against a list; non-trivial: "
        "the queue outgrew its array"),
]
