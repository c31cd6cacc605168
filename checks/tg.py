"""Generated traces (label graphs with sources, marks and output entries) and their reference meaning."""
import os
from pathlib import Path

from hypothesis import strategies as st

import tdag

NAMES = ["a", "b", "/tmp/in.bin", "dir/c", "argv[1]", "/dev/stdin", "out", "\u00fcml\u00e4ut", "a b"]
INV = 2**64 - 1
big = st.sampled_from([0, 1, 62, 63, 64, 65, 255, 256, 257, 1000, 4095])
OFF = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 70), big)
REF = st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 60), st.integers(0, 5000))
SRC = st.tuples(st.integers(0, len(NAMES) - 1) | st.integers(0, 1), st.integers(-1, 6), st.one_of(st.just(-1), st.integers(0, 40), big))
SIDX = st.integers(0, 7)
OP = st.one_of(
    st.tuples(st.just("s"), SIDX, OFF, st.one_of(st.integers(1, 8), st.integers(1, 70))),
    st.tuples(st.just("u"), REF, REF), st.tuples(st.just("u"), REF, REF), st.tuples(st.just("u"), REF, REF),
    st.tuples(st.just("r"), REF, st.integers(1, 12)),
    st.tuples(st.just("r"), REF, st.one_of(st.integers(1, 2), st.integers(1, 2), st.sampled_from([20, 45, 63, 64, 65, 130, 300, 1000]))),
    st.tuples(st.just("b"), REF),
    st.tuples(st.just("w"), SIDX, st.one_of(OFF, st.integers(0, 2**40)), REF),
    st.tuples(st.just("w"), SIDX, OFF, REF),
    st.tuples(st.just("w"), SIDX, OFF, REF),
).map(list)
LONG = st.tuples(st.just("chain"), st.integers(50, 1500), SIDX).map(list)


def trace(maxops=25, long=True):
    ops = st.one_of(st.lists(OP, min_size=2, max_size=maxops), st.lists(OP, min_size=10, max_size=3 * maxops))
    if long:
        ops = st.one_of(ops, ops, ops, ops, st.tuples(ops, LONG, ops).map(lambda t: t[0] + [t[1]] + t[2]))
    return st.tuples(st.lists(SRC, min_size=1, max_size=5), ops).map(
        lambda t: {"src": [list(s) for s in t[0]], "ops": [["s", 0, 0, 4]] + t[1]})


# Small worlds: few bytes and labels, referred to by number, so that coincidences are likely.
AL = st.one_of(st.integers(-3, 6), st.integers(1, 12))
SOP = st.one_of(
    st.tuples(st.just("s"), st.integers(0, 1), st.integers(0, 4), st.integers(1, 2)),
    st.tuples(st.just("U"), AL, AL), st.tuples(st.just("R"), AL, AL), st.tuples(st.just("R"), AL, AL),
    st.tuples(st.just("B"), AL),
    st.tuples(st.just("W"), st.integers(0, 1), st.integers(0, 3), AL),
    st.tuples(st.just("W"), st.integers(0, 1), st.integers(0, 3), AL),
).map(list)
SMALL = st.tuples(st.lists(st.tuples(st.integers(0, 1), st.integers(3, 4), st.sampled_from([-1, 0, 3, 4, 6])), min_size=1, max_size=2),
                  st.integers(2, 5), st.lists(SOP, min_size=4, max_size=14)).map(
    lambda t: {"src": [list(s) for s in t[0]], "ops": [["s", 0, 0, t[1]]] + t[2]})


class Built:
    """A trace: src [(name, fd, size)], recs [None, (kind, a, b)], marks set, sinks [(off, label, idx)]"""

    def __init__(self, case, base=None):
        self.src = [(NAMES[n], fd, INV if size < 0 else size) for n, fd, size in case["src"]]
        self.recs = [None]
        self.marks = set()
        self.sinks = []
        R = self.recs
        for o in case["ops"]:
            n = len(R) - 1  # newest label
            if o[0] == "s":
                for i in range(o[3]):
                    R.append(("S", o[1] % len(self.src), o[2] + i))
            elif o[0] == "u":
                # references count back from the newest label
                a, b = (n - o[1] % n, n - o[2] % n) if n else (0, 0)
                if a != b:
                    R.append(("U", max(a, b), min(a, b)))
            elif o[0] == "r":
                if n:
                    b = n - o[1] % n
                    a = max(1, b - o[2])
                    if a < b:
                        R.append(("R", a, b))
            elif o[0] == "b":
                if n:
                    self.mark(n - o[1] % n)
            elif o[0] == "w":
                if n:
                    self.sinks.append((o[2], n - o[3] % n, o[1] % len(self.src)))
            elif o[0] == "U":
                a, b = (1 + (x - 1) % n for x in o[1:3])
                if a != b:
                    R.append(("U", max(a, b), min(a, b)))
            elif o[0] == "R":
                a, b = sorted(1 + (x - 1) % n for x in o[1:3])
                if a < b:
                    R.append(("R", a, b))
            elif o[0] == "B":
                self.mark(1 + (o[1] - 1) % n)
            elif o[0] == "W":
                self.sinks.append((o[2], 1 + (o[3] - 1) % n, o[1] % len(self.src)))
            elif o[0] == "chain":
                for i in range(o[1]):
                    n = len(R) - 1
                    if i % 2 or not n:
                        R.append(("S", o[2] % len(self.src), i))
                        if n:
                            R.append(("U", n + 1, n))
                    else:
                        m = 1 + (i * 7) % n
                        if m != n:
                            R.append(("U", n, m))
        self._reach = None

    def mark(self, lab):
        todo = [lab]
        while todo:
            x = todo.pop()
            if x in self.marks:
                continue
            self.marks.add(x)
            k, a, b = self.recs[x]
            if k == "U":
                todo += [a, b]
            elif k == "R":
                todo += range(a, b + 1)

    @property
    def reach(self):
        """For each label an integer bit set of the source labels it is made of."""
        if self._reach is None:
            r = [0]
            for i in range(1, len(self.recs)):
                k, a, b = self.recs[i]
                if k == "S":
                    r.append(1 << i)
                elif k == "U":
                    r.append(r[a] | r[b])
                else:
                    s = 0
                    for j in range(a, b + 1):
                        s |= r[j]
                    r.append(s)
            self._reach = r
        return self._reach

    def bytes_of(self, bits):
        """{(source index, offset)} of a bit set of source labels"""
        out = set()
        while bits:
            low = bits & -bits
            _, s, o = self.recs[low.bit_length() - 1]
            out.add((s, o))
            bits ^= low
        return out

    def write(self, path):
        labels = [0]
        for i in range(1, len(self.recs)):
            k, a, b = self.recs[i]
            labels.append(tdag.enc((k, a, b, i in self.marks)))
        tdag.write(path, [(n.encode(), fd, size) for n, fd, size in self.src], labels, self.sinks)

    def path(self, idx):
        return Path(self.src[idx][0])

    def inp(self, idx):
        return (self.src[idx][1], str(self.path(idx)))

    def tags(self):
        t = []
        kinds = {r[0] for r in self.recs[1:]}
        t += ["has-" + k for k in kinds]
        if self.marks:
            t.append("marks")
        if self.sinks:
            t.append("outputs")
        if len(self.recs) > 300:
            t.append("over-300-labels")
        if len({s[0] for s in self.src}) < len(self.src):
            t.append("file-opened-twice")
        return t


def build(case, ctx):
    b = Built(case)
    p = os.path.join(ctx.mkdir(), "t.tdag")
    b.write(p)
    return b, p
