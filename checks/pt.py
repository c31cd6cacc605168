"""Generator and reference model for histories of the PolyTracker class (shared by several checks)."""
import os
from hypothesis import strategies as st

import tdag
from vlib import Violation, check, eq, hx

# A history is a list of operations:
#  ["r", file, offset or -1, length, how]     how 0: into memory, 1: labels only
#  ["u", ref, ref], ["m", ref], ["mk", length]
#  ["fold", ref, n]                  combine a label with its n successors one by one
#  ["zip", ref, sa, ref, sb, n]      n pairs a+i*sa, b+i*sb
#  ["tree", ref, n]                  balanced combination of n consecutive labels
# A ref is [kind, ...]: ["%", n] any, ["~", n] n-th latest, ["$", k, j] result of op k (modulo) plus j


def ref():
    return st.one_of(
        st.tuples(st.just("%"), st.integers(0, 2000)),
        st.tuples(st.just("~"), st.one_of(st.integers(0, 6), st.integers(0, 150))),
        st.tuples(st.just("$"), st.integers(0, 60), st.integers(-2, 4)),
    ).map(list)


OFF = st.one_of(st.integers(0, 40), st.sampled_from([-1, -1, 2**31 - 2, 2**32 - 1, 2**40, 2**53, 2**54 - 300]),
                st.integers(0, 2**54 - 300))
LEN = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 80), st.sampled_from([31, 32, 33, 63, 64, 65, 128, 200]))


def read():
    return st.tuples(st.just("r"), st.integers(0, 3), OFF, LEN, st.integers(0, 1)).map(list)


def union():
    return st.tuples(st.just("u"), ref(), ref()).map(list)


def adj():  # combinations of neighbours of one result: exercises range growth
    return st.tuples(st.integers(0, 60), st.integers(-3, 5), st.integers(0, 60), st.integers(-3, 5)).map(
        lambda t: ["u", ["$", t[0], t[1]], ["$", t[2], t[3]]])


def mark():
    return st.tuples(st.just("m"), ref()).map(list)


def bulk():
    return st.one_of(
        st.tuples(st.just("fold"), ref(), st.integers(2, 120)),
        st.tuples(st.just("zip"), ref(), st.integers(-2, 3), ref(), st.integers(-2, 3), st.integers(2, 130)),
        st.tuples(st.just("tree"), ref(), st.integers(2, 130)),
    ).map(list)


def history(marks=True, maxops=45, first=None):
    alts = [union(), union(), union(), adj(), adj(), read(), bulk(), st.tuples(st.just("mk"), st.integers(1, 9)).map(list)]
    if marks:
        alts += [mark(), mark()]
    alts = st.one_of(alts)
    return st.tuples(st.lists(read() if first is None else first, min_size=1, max_size=3),
                     st.one_of(st.lists(alts, max_size=10), st.lists(alts, min_size=6, max_size=maxops),
                               st.lists(alts, min_size=15, max_size=maxops))).map(
        lambda t: t[0] + t[1])


def fmt(r, nops):
    if r[0] == "$":
        return "$%d.%d" % (r[1] % max(1, nops), r[2])
    return "%s%d" % (r[0], r[1])


def expand(case, nfiles=4):
    """Operation lines for the executor: opens first, then the history."""
    lines = []
    for i in range(nfiles):
        lines.append("open %d %s" % (i + 3, hx(b"/nonexistent/f%d" % i)))
    for op in case:
        n = len(lines)
        k = op[0]
        if k == "r":
            lines.append("%s %d %d %d" % ("srcv" if op[4] else "src", 3 + op[1], op[2], op[3]))
        elif k == "mk":
            lines.append("mk %s %d" % (hx(b"mem%d" % n), op[1]))
        elif k == "u":
            lines.append("un %s %s" % (fmt(op[1], n), fmt(op[2], n)))
        elif k == "m":
            lines.append("mark %s" % fmt(op[1], n))
        elif k == "fold":
            a = fmt(op[1], n)
            lines.append("un %s %s" % (a, a))
            base = n
            for i in range(1, op[2]):
                lines.append("un $%d.0 $%d.%d" % (len(lines) - 1, base, i))
        elif k == "zip":
            lines.append("un %s %s" % ((fmt(op[1], n),) * 2))
            lines.append("un %s %s" % ((fmt(op[3], n + 1),) * 2))
            for i in range(op[5]):
                lines.append("un $%d.%d $%d.%d" % (n, i * op[2], n + 1, i * op[4]))
        elif k == "tree":
            lines.append("un %s %s" % ((fmt(op[1], n),) * 2))
            layer = ["$%d.%d" % (n, i) for i in range(op[2])]
            while len(layer) > 1:
                nxt = []
                for i in range(0, len(layer) - 1, 2):
                    nxt.append("$%d.0" % len(lines))
                    lines.append("un %s %s" % (layer[i], layer[i + 1]))
                if len(layer) % 2:
                    nxt.append(layer[-1])
                layer = nxt
    return lines


class Model:
    """What every label stands for, as a bit set over (source, offset) pairs."""

    def __init__(self):
        self.sets = [0]
        self.keys = {}
        self.sources = []
        self.stream = {}
        self.fdidx = {}
        self.marked = []
        self.nsource = set()  # labels that directly are input bytes
        self.reused = self.ranges = 0

    def bit(self, key):
        return 1 << self.keys.setdefault(key, len(self.keys))

    def apply(self, line, ans):
        a = line.split()
        r = ans.split()
        o = a[0]
        if o == "open":
            eq(ans, "ok", line)
            self.fdidx[int(a[1])] = len(self.sources)
            self.sources.append(a)
        elif o in ("src", "srcv", "mk"):
            if o == "mk":
                idx, off, n = len(self.sources), 0, int(a[2])
                self.sources.append(a)
            else:
                idx, off, n = self.fdidx[int(a[1])], int(a[2]), int(a[3])
                if off < 0:
                    off = self.stream.get(idx, 0)
                    self.stream[idx] = off + n
            check(r[0] not in ("none", "ERR"), "%s was refused: %s", line, ans)
            lo, hi = int(r[0]), int(r[1])
            eq((lo, hi), (len(self.sets), len(self.sets) + n - 1), "labels handed out by " + line)
            for i in range(n):
                self.sets.append(self.bit((idx, off + i)))
                self.nsource.add(lo + i)
            if o != "srcv":
                eq([int(x) for x in r[3:]], [0] + list(range(lo, hi + 1)) + [0], "labels of the memory around the data of " + line)
        elif o == "un":
            if ans == "skip":
                return
            check(r[0] != "ERR", "%s failed", line)
            l, rr, x = map(int, r)
            want = self.sets[l] | self.sets[rr]
            if x == len(self.sets):
                self.sets.append(want)
            else:
                check(0 < x < len(self.sets), "combining %d and %d returned the label %d, which was never created (latest is %d)", l, rr, x, len(self.sets) - 1)
                self.reused += x not in (l, rr)
                if self.sets[x] != want:
                    raise Violation("combining %d and %d returned label %d standing for other inputs: %s" % (
                        l, rr, x, self.diff(self.sets[x], want)))
        elif o == "mark":
            if ans != "skip":
                check(r[0] != "ERR", "%s failed", line)
                self.marked.append(int(r[0]))

    def diff(self, got, want):
        names = {v: k for k, v in self.keys.items()}

        def show(b):
            out = []
            i = 0
            while b and len(out) < 8:
                if b & 1:
                    out.append(names[i])
                b >>= 1
                i += 1
            return out
        return "lost %s, invented %s" % (show(want & ~got), show(got & ~want))

    def check_labels(self, labels):
        eq(len(labels), len(self.sets), "number of labels in the trace")
        eq(labels[0], 0, "entry of the untainted label")
        got, keys = tdag.bitset_reach(labels)
        # translate to the model's bits
        perm = {}
        for k, b in keys.items():
            if k not in self.keys:
                raise Violation("the trace has an input byte that was never read: source %d offset %d" % k)
            perm[b] = self.keys[k]
        ident = all(a == b for a, b in perm.items())
        for i, g in enumerate(got):
            if not ident:
                t = 0
                j = 0
                while g:
                    if g & 1:
                        t |= 1 << perm[j]
                    g >>= 1
                    j += 1
                g = t
            if g != self.sets[i]:
                raise Violation("label %d (%s) stands for other inputs: %s" % (i, tdag.dec(labels[i]), self.diff(g, self.sets[i])))

    def check_marks(self, labels):
        want = set()
        todo = [l for l in self.marked]
        while todo:
            l = todo.pop()
            if l in want:
                continue
            want.add(l)
            k, a, b, cf = tdag.dec(labels[l])
            if k == "U":
                todo += [a, b]
            elif k == "R":
                todo += [x for x in range(a, b + 1) if x not in want]
        got = {i for i, v in enumerate(labels) if v & tdag.CF}
        if got != want:
            raise Violation("control-flow marks: missing on %s, unexpected on %s" % (
                sorted(want - got)[:10], sorted(got - want)[:10]))
        return want


def execute(case, ctx, extra=(), server="core"):
    path = ctx.path(".tdag")
    lines = expand(case) + list(extra) + ["end"]
    try:
        ans = ctx.server(server).case("PT", [hx(path.encode())], lines)
        m = Model()
        for l, a in zip(lines, ans):
            m.apply(l, a)
        eq(ans[-1], "ok", "closing the trace")
        t = tdag.Trace(path)
    finally:
        ctx.rm(path)
    return m, t
