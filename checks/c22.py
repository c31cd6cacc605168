"""C22: end to end, each output byte maps to exactly the inputs that formed it."""
import contextlib
import io
import os
import random
import sys

from hypothesis import strategies as st

from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["strict_data_dependencies=0 (as PolyTracker's images set it)",
               "programs are sequences of intercepted calls and label unions, as instrumentation emits for straight-line code: the "
               "instrumenting compiler itself (LLVM passes) does not build here and is not part of the run"]
INS = ["in0", "in1", "a dir/in2"]


class Prog:
    def __init__(self, case):
        self.mem = bytearray(rt.ASIZE)
        self.tt = {}              # arena offset -> frozenset of (path, offset)
        self.lines = ["start"]
        self.flow = {}            # (in path, off) -> set of (out path, off)
        self.branch = set()
        self.read = set()
        self.tags = set()
        self.data = []
        r = random.Random(case["seed"])
        for i, n in enumerate(INS):
            self.data.append(bytes(r.choice([r.randrange(256), 65 + r.randrange(3)]) for _ in range(case["sizes"][i])))
        self.stdin = bytes(r.randrange(256) for _ in range(case["stdin"][0]))
        self.ropen = {}           # slot -> [kind, path, data, pos]
        if case["stdin"][1]:
            self.ropen["i"] = ["stdin", "/dev/stdin", self.stdin, 0]
        self.wopen = {}           # slot -> [kind, path, pos]
        for s in case["steps"]:
            self.step(*s)

    def of(self, a):
        return self.tt.get(a, frozenset())

    def deliver(self, o, dst, n):
        for i in range(n):
            key = (o[1], o[3] + i)
            self.mem[dst + i] = o[2][o[3] + i]
            self.tt[dst + i] = frozenset([key])
            self.read.add(o[1])
        o[3] += n

    def emit(self, line):
        self.lines.append(line)

    def step(self, k, x, y, z, w):
        A, B = x % 500, y % 500
        if k == "open":
            s = x % 6
            if s in self.ropen or len(self.ropen) > 6:
                return
            f = y % 3
            if z % 2:
                self.emit("fopen %d %s r -" % (s, hx(INS[f].encode())))
                self.ropen[s] = ["file", INS[f], self.data[f], 0]
            else:
                self.emit("open %d %s 0 0 -" % (s, hx(INS[f].encode())))
                self.ropen[s] = ["fd", INS[f], self.data[f], 0]
        elif k == "close":
            c = [s for s in self.ropen if s != "i"]
            if c:
                s = c[x % len(c)]
                self.emit("%s %d" % ("close" if self.ropen[s][0] == "fd" else "fclose", s))
                del self.ropen[s]
                self.tags.add("close")
        elif k == "seek":
            c = [s for s in self.ropen if s != "i"]
            if c:
                s = c[x % len(c)]
                o = self.ropen[s]
                o[3] = y % (len(o[2]) + 1)
                self.emit("lseek %d %d 0" % (s, o[3]) if o[0] == "fd" else "fseek %d %d 0" % (s, o[3]))
                self.tags.add("seek")
        elif k == "read":
            if not self.ropen:
                return
            s = list(self.ropen)[x % len(self.ropen)]
            o = self.ropen[s]
            n = min(z % 24, len(o[2]) - o[3])
            if o[0] == "stdin":
                self.emit("read #0 a%d %d" % (B, n))
            elif o[0] == "fd" and w % 3 == 0 and len(o[2]):
                at = w * 7 % len(o[2])
                n = min(z % 24, len(o[2]) - at)
                self.emit("pread %d a%d %d %d -" % (s, B, n, at))
                keep, o[3] = o[3], at
                self.deliver(o, B, n)
                o[3] = keep
                self.tags.add("pread")
                return
            elif o[0] == "fd":
                self.emit("read %d a%d %d" % (s, B, n))
            else:
                self.emit("fread %d a%d 1 %d %s" % (s, B, n, "u" if w % 2 else "-"))
                self.tags.add("fread")
            self.deliver(o, B, n)
        elif k == "copy":
            n = z % 60
            self.emit("memmove a%d a%d %d 0 0 0" % (A, B, n) if w % 2 or abs(A - B) < n else "memcpy a%d a%d %d 0 0 0" % (A, B, n))
            t = [self.of(B + i) for i in range(n)]
            self.mem[A:A + n] = bytes(self.mem[B:B + n])
            for i in range(n):
                self.tt[A + i] = t[i]
        elif k == "fill":
            n = z % 30
            self.emit("memset a%d %d %d 0" % (A, w, n))
            self.mem[A:A + n] = bytes([w & 255]) * n
            for i in range(n):
                self.tt[A + i] = frozenset()
        elif k == "comb":
            C = z * 3 % 500
            self.emit("comb %d %d %d" % (A, B, C))
            v = (self.mem[B] + self.mem[C]) & 255
            self.tt[A] = self.of(B) | self.of(C)
            self.mem[A] = v
            self.tags.add("combine")
        elif k == "chain":  # a running combination, as a checksum loop makes
            n = 1 + z % 40
            for i in range(n):
                self.emit("comb %d %d %d" % (A, A, B + i))
                v = (self.mem[A] + self.mem[B + i]) & 255
                self.tt[A] = self.of(A) | self.of(B + i)
                self.mem[A] = v
            self.tags.add("chain")
        elif k == "fold":
            n = 1 + z % 16
            self.emit("fold %d %d %d" % (A, B, n))
            u = frozenset().union(*[self.of(B + i) for i in range(n)])
            v = sum(self.mem[B:B + n]) & 255
            self.mem[A] = v
            self.tt[A] = u
            self.tags.add("fold")
        elif k == "br":
            self.emit("br %d %s" % (A, "w" if w % 2 else "-"))
            self.branch |= self.of(A)
        elif k == "cmpbr":
            n = z % 20
            self.emit("cmpbr a%d a%d %d" % (A, B, n))
            for i in range(n):
                self.branch |= self.of(A + i) | self.of(B + i)
                if self.mem[A + i] != self.mem[B + i]:
                    break
            self.tags.add("compare")
        elif k == "out":
            s = 8 + x % 4
            if s not in self.wopen:
                p = "out%d" % (s - 8)
                if s % 2:
                    self.emit("fopen %d %s w -" % (s, hx(p.encode())))
                    self.wopen[s] = ["file", p, 0]
                else:
                    self.emit("open %d %s %d 420 -" % (s, hx(p.encode()), os.O_CREAT | os.O_TRUNC | os.O_WRONLY))
                    self.wopen[s] = ["fd", p, 0]
            o = self.wopen[s]
            n = z % 40
            if o[0] == "fd":
                self.emit("write %d a%d %d" % (s, B, n))
            elif w % 4 == 0 and n:
                n = 1
                self.emit("mput %d a%d" % (s, B))
            else:
                self.emit("fwrite %d a%d 1 %d" % (s, B, n))
            for i in range(n):
                for key in self.of(B + i):
                    self.flow.setdefault(key, set()).add((o[1], o[2] + i))
            o[2] += n
        elif k == "wseek":
            c = list(self.wopen)
            if c:
                o = self.wopen[c[x % len(c)]]
                s = c[x % len(c)]
                o[2] += z % 50
                self.emit("lseek %d %d 0" % (s, o[2]) if o[0] == "fd" else "fseek %d %d 0" % (s, o[2]))


def run(case, ctx):
    from polytracker.mapping import InputOutputMapping
    from polytracker.taint_dag import TDFile
    p = Prog(case)
    d = ctx.mkdir()
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "a dir"))
        for n, c in zip(INS, p.data):
            rt.paint(d, n, c)
        env = {"POLYTRACKER_STDIN_SOURCE": "1"} if case["stdin"][1] else {}
        r = rt.Run(ctx, d, p.lines + ["exit %s 0" % ["ret", "dexit", "nested"][case["seed"] % 3]], env=env,
                   stdin="p:" + hx(p.stdin))
        if r.status != "0" or len(r.ans) != len(p.lines) + 1:
            raise Violation("program ended with %s after %d of %d operations" % (r.status, len(r.ans), len(p.lines) + 1))
        with contextlib.redirect_stderr(io.StringIO()):
            with open(r.trace_path, "rb") as f:
                m = InputOutputMapping(TDFile(f))
                got = m.mapping()
                cav = m.file_cavities()
    finally:
        os.chdir(cwd)
        ctx.rm(d)
    g = {(str(k[0]), k[1]): {(str(a), b) for a, b in v} for k, v in got.items() if v}
    if g != p.flow:
        k = min(set(k for k in set(g) | set(p.flow) if g.get(k) != p.flow.get(k)))
        raise Violation("input byte %s is reported to reach %s, in the program it reaches %s" % (
            k, sorted(g.get(k, ())), sorted(p.flow.get(k, ()))))
    used = set(p.flow) | p.branch
    lens = dict(zip(INS, map(len, p.data)))
    cav = {str(k): [tuple(x) for x in v] for k, v in cav.items()}
    check(set(cav) <= p.read, "cavities reported for %s, files read are %s", sorted(cav), sorted(p.read))
    for f in p.read:
        n = lens.get(f)
        if n is None:  # standard input has no recorded size: as far as it was read
            n = p.ropen["i"][3]
        want, a = [], None
        for o in range(n + 1):
            free = o < n and (f, o) not in used
            if free and a is None:
                a = o
            elif not free and a is not None:
                want.append((a, o))
                a = None
        eq(cav.get(f, []), want, "cavities of %s" % f)
    return bool(p.flow) and bool({"combine", "chain", "fold"} & p.tags), sorted(p.tags)


KINDS = ["open", "open", "close", "seek", "read", "read", "read", "copy", "copy", "fill", "comb", "comb", "chain", "fold", "br", "cmpbr",
         "out", "out", "out", "wseek"]
V = st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 40), st.integers(0, 499))
STEP = st.tuples(st.sampled_from(KINDS), V, V, st.integers(0, 120), st.integers(0, 60)).map(list)
BEGIN = [["open", 0, 0, 0, 1], ["open", 1, 1, 1, 1], ["read", 0, 0, 23, 1], ["read", 1, 20, 17, 1]]
END = [["out", 0, 0, 39, 1]]
CASE = st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "sizes": st.lists(st.one_of(st.integers(0, 60), st.integers(10, 60), st.integers(10, 60)), min_size=3, max_size=3),
    "stdin": st.tuples(st.integers(0, 40), st.booleans()).map(list),
    "steps": st.one_of(st.lists(STEP, max_size=30), st.lists(STEP, min_size=15, max_size=90)).map(lambda l: BEGIN + l + END)})

SUBS = [Sub("programs", CASE, run, 4000, 150000, "programs of opens, seeks, reads (descriptor, stream, positioned, stdin), copies, fills, "
            "additions, checksum loops, wide loads, branches, comparisons and writes, run with the real runtime; the Python analysis of "
            "the trace (mapping, file cavities) is compared with a byte-precise reference execution; non-trivial: a combined byte "
            "exists and an input byte reaches an output")]
