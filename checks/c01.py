from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, check, eq
from . import pt

ASSUMPTIONS = ["the two operands of a combination are existing, non-zero labels (DFSan's contract for the callback)"]


def build():
    return {"core": vbuild.build_core()}


def run(case, ctx):
    m, t = pt.execute(case, ctx)
    labels = t.labels
    m.check_labels(labels)
    kinds = {tdag.dec(v)[0] for v in labels[1:]}
    tags = ["has-" + k for k in sorted(kinds)]
    if m.reused:
        tags.append("reused-label")
    if len(labels) > 150:
        tags.append("over-150-labels")
    return "U" in kinds or "R" in kinds, tags


def run_huge(case, ctx):
    """Label numbers beyond 16 and 19 bits, combinations of labels a power of two apart."""
    n, ops = case
    lines = pt.expand([["r", 0, 0, n, 1]] + ops) + ["end"]
    path = ctx.path(".tdag")
    try:
        ans = ctx.server("core").case("PT", [pt.hx(path.encode())], lines)
        eq(ans[-1], "ok", "closing the trace")
        labels = tdag.Trace(path).labels
    finally:
        ctx.rm(path)
    eq([int(x) for x in ans[4].split()[:2]], [1, n], "labels handed out by the read")
    sets = {}  # combined label -> the source labels it stands for; the labels 1..n stand for themselves

    def of(l):
        return frozenset([l]) if l <= n else sets[l]
    for line, a in zip(lines, ans):
        if not line.startswith("un ") or a == "skip":
            continue
        r = a.split()
        check(r[0] != "ERR", "%s failed", line)
        l, rr, x = map(int, r)
        want = of(l) | of(rr)
        if x == n + len(sets) + 1:
            sets[x] = want
        else:
            check(0 < x <= n + len(sets), "combining %d and %d returned the label %d, which was never created", l, rr, x)
            check(of(x) == want, "combining %d and %d returned label %d standing for %s instead of %s", l, rr, x,
                  sorted(of(x))[:9], sorted(want)[:9])
    eq(len(labels), n + len(sets) + 1, "number of labels in the trace")
    eq(labels[0], 0, "entry of the untainted label")
    for i in range(1, n + 1):
        if labels[i] != tdag.enc(("S", 0, i - 1, False)):
            eq(tdag.dec(labels[i]), ("S", 0, i - 1, False), "label %d" % i)
    for x, want in sets.items():
        k, a, b, _ = tdag.dec(labels[x])
        check(k != "S" and 0 < a < x and 0 < b < x, "label %d is recorded as %s", x, (k, a, b))
        got = frozenset().union(*map(of, (a, b) if k == "U" else range(a, b + 1)))
        check(got == want, "label %d, recorded as %s, stands for %s instead of %s", x, (k, a, b), sorted(got)[:9], sorted(want)[:9])
    return len(sets) > 2, ["over-%d-labels" % (1 << (n.bit_length() - 1))]


STEP = st.one_of(st.sampled_from([1, 2, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 131072]), st.integers(1, 200000))
PAIR = st.tuples(st.integers(0, 600000), STEP)
huge = st.tuples(
    st.one_of(st.integers(65530, 67000), st.integers(131000, 140000), st.integers(524280, 526000)),
    st.lists(PAIR, min_size=1, max_size=25),
    st.lists(st.one_of(pt.union(), pt.adj(), st.tuples(st.just("fold"), pt.ref(), st.integers(2, 30)).map(list),
                       st.tuples(pt.ref(), st.integers(0, 600000)).map(lambda t: ["u", t[0], ["%", t[1]]])), max_size=15)).map(
    lambda t: [t[0], [["u", ["$", 4, a % max(1, t[0] - d)], ["$", 4, a % max(1, t[0] - d) + d]] for a, d in t[1]] + t[2]])
SUBS = [Sub("history", pt.history(), run, 8000, 500000,
            "history of reads and label combinations; non-trivial: at least one combined label was created"),
        Sub("huge", huge, run_huge, 300, 8000,
            "histories over a hundred thousand labels; non-trivial: more than two combined labels were created")]
