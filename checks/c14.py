"""C14: every orderly termination leaves a complete, readable trace."""
import os
import sys

from hypothesis import strategies as st

import tdag
from checks import rt
from checks.rt import build  # noqa: F401
from vlib import REPO, Sub, Violation, check, eq, hx

ASSUMPTIONS = ["the program is not killed by a signal other than the assertion's abort, and does not call _exit or exec",
               "the table capacities are not reached (C16)"]
NAMES = [b"main", b"f", b"ns::g(int)", b"", b"x" * 300, "h\u00e9".encode()]
WAYS = ["end", "ret", "dexit", "nested", "assert", "thread"]
FS = 40


class Model:
    """What was recorded, following the executed operations."""

    def __init__(self, tracked_out):
        self.on = False
        self.sources = []
        self.fd = {}         # slot -> [source index or None, position, file]
        self.byte = {}       # arena offset -> frozenset
        self.sinks = []
        self.marked = set()
        self.fns = []
        self.events = []
        self.cf = []
        self.delivered = []
        self.out = tracked_out
        self.outpos = 0
        self.busy = False

    def apply(self, op, ans):
        k = op[0]
        if k == "start":
            self.on = True
            if self.out:
                self.sources.append(b"/dev/stdout")
        elif k == "open":
            _, s, f = op
            self.fd[s] = [None, 0, f]
            if self.on:
                self.sources.append(b"in%d" % f)
                self.fd[s][0] = len(self.sources) - 1
        elif k == "oopen":
            self.fd[9] = [None, 0, "out"]
            if self.on:
                self.sources.append(b"out")
                self.fd[9][0] = len(self.sources) - 1
        elif k == "close":
            self.fd.pop(op[1], None)
        elif k == "read":
            _, s, off, n = op
            o = self.fd.get(s)
            want = max(0, min(n, FS - o[1])) if o else -1
            eq(ans.r, str(want), "result of %s" % (op,))
            for i in range(max(0, want)):
                if o[0] is None:
                    self.byte[off + i] = frozenset()
                else:
                    self.byte[off + i] = frozenset([(o[0], o[1] + i)])
                    self.delivered.append((o[0], o[1] + i))
            if o:
                o[1] += max(0, want)
        elif k == "comb":
            self.byte[op[1]] = self.byte.get(op[2], frozenset()) | self.byte.get(op[3], frozenset())
        elif k == "write":
            _, s, off, n = op
            if s == "out":
                o = [0 if self.out and self.on else None, self.outpos, None]
            else:
                o = self.fd.get(s)
            eq(ans.r, str(n if o else -1), "result of %s" % (op,))
            if o:
                if o[0] is not None:
                    for i in range(n):
                        b = self.byte.get(off + i)
                        if b:
                            self.sinks.append((o[0], o[1] + i if s != "out" else None, b))
                o[1] += n
        elif k == "busy":
            self.busy = True
            self.maybe = self.byte.get(0, frozenset()) - self.marked
            self.marked |= self.maybe
        elif k == "br":
            if self.on:
                self.marked |= self.byte.get(op[1], frozenset())
        elif k == "fent":
            if self.on:
                n = NAMES[op[1]]
                if n not in self.fns:
                    self.fns.append(n)
                eq(ans.r, str(self.fns.index(n)), "index of function %r" % n)
                self.events.append((0, self.fns.index(n)))
        elif k == "fexit":
            if self.on:
                self.events.append((1, op[1]))
        elif k in ("enter", "leave"):
            if self.on:
                self.cf.append((k, op[1]))
        elif k == "tcf":
            eq(ans.r, "7", "value returned by the branch hook")
            if self.on and self.byte.get(op[1]):
                self.cf.append(("branch", op[2], self.byte[op[1]]))


def line(op):
    k = op[0]
    if k == "open":
        return "open %d %s 0 0 -" % (op[1], hx(b"in%d" % op[2]))
    if k == "oopen":
        return "open 9 %s %d 420 -" % (hx(b"out"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    if k == "read":
        return "read %d a%d %d" % op[1:]
    if k == "write":
        return "write %s a%d %d" % ("#1" if op[1] == "out" else op[1], op[2], op[3])
    if k == "fent":
        return "fent %s" % hx(NAMES[op[1]])
    if k == "br":
        return "br %d %s" % (op[1], op[2])
    if k == "tcf":
        return "tcfb 7 %d a%d" % (op[2], op[1])
    return " ".join(str(x) for x in op)


def expand(steps, st_):
    """Concrete operations of abstract steps; st_ holds what is open."""
    r = []
    for k, x, y, z in steps:
        if k == 0:
            s = x % 4
            if s not in st_:
                st_.add(s)
                r.append(("open", s, y % 3))
        elif k == 1:
            if st_ & {0, 1, 2, 3}:
                s = sorted(st_ & {0, 1, 2, 3})[x % len(st_ & {0, 1, 2, 3})]
                r.append(("read", s, y % 200, z % 20))
        elif k == 2:
            r.append(("comb", x % 220, y % 220, z % 220))
        elif k == 3:
            if 9 not in st_:
                st_.add(9)
                r.append(("oopen",))
            r.append(("write", 9, y % 200, z % 30))
        elif k == 4:
            r.append(("write", "out", y % 200, z % 30))
        elif k == 5:
            r.append(("br", x % 220, "w" if y % 2 else "-"))
        elif k == 6:
            r.append(("fent", x % len(NAMES)))
        elif k == 7:
            r.append(("fexit", 0))
        elif k == 8:
            r.append(("enter" if x % 3 else "leave", y * 7 % 300))
        elif k == 9:
            r.append(("tcf", x % 220, y))
        elif k == 10:
            s = x % 4
            if s in st_:
                st_.discard(s)
                r.append(("close", s))
    return r


def run(case, ctx):
    st_ = set()
    pre = [o for o in expand(case["pre"], st_)]
    body = expand(case["body"], st_)
    if case["early"] is not None:  # the program ends before start-up
        body = None
    handlers = []
    hst = set(st_)
    for h in case["handlers"]:
        handlers.append(expand(h, hst))
    way = WAYS[case["way"]]
    code = case["code"]
    ops, order = [], []
    busy = case.get("busy")
    started = False
    for o in pre:
        ops.append(line(o))
        order.append(o)
    if body is not None:
        ops.append("start")
        order.append(("start",))
        # handlers are registered at chosen points of the body; they run last registered first
        at = sorted((p % (len(body) + 1), i) for i, p in enumerate(case["at"][:len(handlers)]))
        reg = []
        for j in range(len(body) + 1):
            for p, i in at:
                if p == j:
                    ops.append("atexit %d" % len(handlers[i]))
                    order.append(("skip",))
                    ops += [line(o) for o in handlers[i]]
                    reg.append(handlers[i])
            if busy is not None and j == min(busy, len(body)):
                ops.append("busy")
                order.append(("busy",))
            if j < len(body):
                ops.append(line(body[j]))
                order.append(body[j])
        started = True
    if way != "end":
        ops.append("exit %s %d" % (way, code))
        order.append(("skip",))
    if started and way != "assert":
        for h in reversed(reg):
            order += h
    status = "s6" if way == "assert" else str(code & 255) if way != "end" else "0"
    d = ctx.mkdir()
    try:
        for i in range(3):
            rt.paint(d, "in%d" % i, bytes((i * 50 + j + 1) & 255 for j in range(FS)))
        env = {"POLYTRACKER_STDOUT_SINK": "1"} if case["sink"] else {}
        kw = {"stdout": "f:" + hx(os.path.join(d, "stdout").encode())} if case["outfile"] else {}
        r = rt.Run(ctx, d, ops, env=env, **kw)
        if r.status != status or len(r.ans) != len(order):
            raise Violation("the program ended with %s after %d operations, want %s after %d (%s, last %s)" % (
                r.status, len(r.ans), status, len(order), way, ops[min(len(r.ans), len(ops) - 1)]))
        m = Model(case["sink"])
        for o, a in zip(order, r.ans):
            if a.r == "unknown-op":
                raise RuntimeError("unknown op " + repr(o))
            m.apply(o, a)
        if not started:
            check(not os.path.exists(r.trace_path), "a trace was written before start-up")
            return False, ["before-start:" + way]
        n = verify(m, r.trace_path)
        if case["lib"]:
            library(m, r.trace_path, n)
    finally:
        ctx.rm(d)
    tags = [way] + ["handlers"] * bool(case["handlers"]) + ["pre"] * bool(pre)
    return bool(m.delivered or m.events or m.cf), tags


def busy_mark(m, marks):
    """The byte the other thread branches on, if it got to run."""
    return m.maybe


def verify(m, path):
    t = tdag.Trace(path)
    eq([s[0] for s in t.sources], m.sources, "sources in the trace")
    labels = t.labels
    reach = tdag.reach_all(labels)
    leaf, marks = [], set()
    for i, v in enumerate(labels):
        if i:
            k, a, b, cf = tdag.dec(v)
            if k == "S":
                leaf.append((a, b))
                if cf:
                    marks.add((a, b))
    eq(leaf, m.delivered, "input bytes recorded, in order")
    if m.busy:
        marks |= m.marked & busy_mark(m, marks)
    eq(marks, m.marked, "input bytes marked as affecting control flow")
    idx = [i for i, v in enumerate(labels) if i and tdag.dec(v)[0] == "S"]
    eq(sorted(t.index), idx, "index of input labels")
    got = [(s, o if m.sources[s] != b"/dev/stdout" else None, reach[l]) for o, l, s in t.sinks]
    eq(got, m.sinks, "output bytes recorded")
    eq([n for n in t.functions], m.fns, "function names")
    eq([(e[0], e[1]) for e in t.events], m.events, "function events")
    if m.busy:  # the other thread may have been stopped inside its last entry
        return len(labels)
    cf = []
    for e in t.cflog:
        cf.append(("branch", e[1], reach[e[2]]) if e[0] == 2 else (["enter", "leave"][e[0]], e[1]))
    eq(cf, m.cf, "control-flow log")
    return len(labels)


def library(m, path, n):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from polytracker.taint_dag import TDFile
    with open(path, "rb") as f:
        td = TDFile(f)
        eq(td.label_count, n, "number of labels read by the library")
        eq([str(p) for p, _ in td.read_fd_headers()], [s.decode() for s in m.sources], "sources read by the library")
        eq(len(list(td.sinks)), len(m.sinks), "outputs read by the library")


STEP = st.tuples(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10]), st.integers(0, 250), st.integers(0, 250),
                 st.integers(0, 250)).map(list)
CASE = st.fixed_dictionaries({
    "pre": st.one_of(st.just([]), st.just([]), st.lists(STEP, max_size=6)),
    "early": st.sampled_from([None] * 15 + [1]),
    "body": st.lists(STEP, max_size=40),
    "handlers": st.lists(st.lists(STEP, max_size=5), max_size=3),
    "at": st.lists(st.integers(0, 60), min_size=3, max_size=3),
    "way": st.integers(0, len(WAYS) - 1),
    "code": st.sampled_from([0, 1, 2, 42, 127, 255]),
    "sink": st.booleans(), "outfile": st.booleans(), "lib": st.sampled_from([False, False, True])})
BUSY = CASE.flatmap(lambda c: st.integers(0, 40).map(lambda b: dict(c, busy=b, early=None)))
SUBS = [Sub("ends", CASE, run, 4000, 150000, "recording histories (reads, combinations, branches, outputs, function and control-flow "
            "events) ended after any operation by return, exit, exit from deep calls or another thread, or a failed assertion, "
            "with exit handlers that record more, and operations before start-up; the trace is decoded independently and "
            "compared with a model of everything recorded; non-trivial: something was recorded"),
        Sub("busy", BUSY, run, 800, 20000, "the same while another thread keeps recording branches and control-flow events; its "
            "own log entries are not compared; non-trivial: something was recorded")]
