"""Generated programs, instrumented with the repository's passes (see lib/irgen.py, lib/irrun.py)."""
import os
import random

from hypothesis import strategies as st

import irgen
import irrun
import tdag
from vlib import HarnessError, Violation, eq

build = irrun.build

ARITY = {"bin": 4, "cmp": 4, "fp": 3, "select": 4, "cast": 3, "intr": 4, "vec": 4, "agg": 4, "load": 3, "store": 4, "ptr": 2,
         "slot": 2, "mem": 5, "out": 2, "call": 3, "local": 1, "scal": 2, "scalop": 3, "in": 2, "exit": 2, "lib": 2,
         "freeze": 2, "fneg": 1, "vsel": 4, "vgep": 3, "ret": 2, "ovf": 4, "red": 3, "atomic": 4}


COMMON = ["in", "in", "in", "out", "out", "out", "bin", "store", "load", "call", "cmp", "select", "mem"]
NEST = ["if", "if", "loop", "switch"]


def statement(r, ops, depth, nest=.2):
    o = r.choice(COMMON) if r.random() < .35 else r.choice(ops)
    if depth < 3 and r.random() < nest:
        o = r.choice(NEST)
        body = lambda n: [statement(r, ops, depth + 1, nest) for _ in range(r.randrange(n))]
        s = [o] + [r.randrange(256) for _ in range(3 if o == "switch" else 4)]
        if o == "if":
            return s + [body(4), body(4)]
        if o == "loop":
            return s + [body(5)]
        return s + [[body(3) for _ in range(1 + r.randrange(4))]]
    return [o] + [r.randrange(256) for _ in range(ARITY[o])]


def programs(ops=None, nest=.2):
    """A generator of programs: a function of a random.Random."""
    ops = ops or [o for o in ARITY if o != "atomic"]

    def make(r):
        ints = lambda k: [r.randrange(256) for _ in range(k)]
        alpha = r.choice([range(256), range(256), range(1, 256), [10, 65, 66, 32, 48, 255, 0, 1]])
        size = r.choice([4, 12, 20, 30])
        some = ops
        if r.random() < .7:     # few kinds of statement, often
            some = r.sample(ops, r.randrange(2, 8))

        io = ints(r.randrange(12, 40))
        hot = random.Random(io[0] * 256 + io[1]).sample(irgen.ALLT, 4)      # as in irgen

        def body(n):
            # values of several types that depend on input come first
            res = [["in", t, r.randrange(256)] for t in r.sample(range(4 * len(irgen.LOADT)), r.randrange(2, 12))]
            for t in hot:
                if t in irgen.LOADT:
                    continue
                for _ in range(r.randrange(1, 4)):
                    if t == "ptr":
                        res += [["in", 4 * r.choice([0, 2, 3]), r.randrange(256)], ["ptr", 1 + 3 * r.randrange(80), 1 + r.randrange(3)]]
                    elif t == "double":
                        res += [["in", 4 * r.choice([0, 1, 2]), r.randrange(256)], ["fp", r.randrange(2), 1 + r.randrange(3), r.randrange(3)]]
                    else:
                        res += [["cmp"] + ints(4)]
            res += [["cmp"] + ints(4) for _ in range(r.randrange(3))]
            res += [statement(r, some, 0, nest) for _ in range(n)]
            return res + [["out", t, 1 + r.randrange(6)] for t in r.sample(range(4 * len(irgen.MEMT)), r.randrange(5))]
        return [[[ints(12), body(r.randrange(1, 16))] for _ in range(r.randrange(4))], body(r.randrange(2, size + 2)),
                bytes(r.choice(alpha) for _ in range(irgen.INLEN)).hex(), io]
    return make


def simpler_body(body):
    """Statement lists with less in them."""
    n = len(body)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if i < n:
                yield body[:i] + body[i + k:]
        k //= 2
    for i, s in enumerate(body):
        for t in simpler_statement(s):
            yield body[:i] + t + body[i + 1:]


def simpler_statement(s):
    """Replacements (lists of statements) for a statement."""
    if s[0] in NEST:
        k = next(j for j, x in enumerate(s) if isinstance(x, list))
        parts = s[k:] if s[0] != "switch" else s[k]
        for x in parts:
            yield x
        for j, x in enumerate(parts):
            for y in simpler_body(x):
                p = parts[:j] + [y] + parts[j + 1:]
                yield [s[:k] + (p if s[0] != "switch" else [p])]
        if s[0] == "switch" and len(parts) > 1:
            for j in range(len(parts)):
                yield [s[:k] + [parts[:j] + parts[j + 1:]]]


def simpler_program(c):
    fns, main, data, io = c
    for i in range(len(fns)):
        yield [fns[:i] + fns[i + 1:], main, data, io]
    for b in simpler_body(main):
        yield [fns, b, data, io]
    for i, f in enumerate(fns):
        for b in simpler_body(f[1]):
            yield [fns[:i] + [[f[0], b]] + fns[i + 1:], main, data, io]
    for k in range(2, len(io) - 1, 2):
        yield [fns, main, data, io[:k] + io[k + 2:]]
    for i, f in enumerate(fns):
        if f[0][1] % 9:
            yield [fns[:i] + [[[f[0][0], f[0][1] % 9 - 1] + f[0][2:], f[1]]] + fns[i + 1:], main, data, io]


def program(case, atomics=False, uninstrumented=lambda p: (), **kw):
    """(program, its interpretation); None when it would run too long"""
    p = irgen.Program(case, atomics, **kw)
    try:
        return p, irgen.Interp(p, uninstrumented=uninstrumented(p))
    except irgen.TooLong:
        return p, None


def write(p, d):
    with open(os.path.join(d, "x.ll"), "wb") as f:
        f.write(p.emit().encode("latin1"))
    with open(os.path.join(d, "x.in"), "wb") as f:
        f.write(p.input)


def execute(p, exe, d, trace=False, env=None):
    """Runs a program: result with .data, what it wrote"""
    e = {"POLYTRACKER_STDIN_SOURCE": "1", "POLYTRACKER_TAINT_ARGV": "1" if p.mode == "argv" else "0"}
    e.update(env or {})
    out = os.path.join(d, "x.out")
    if os.path.exists(out):
        os.unlink(out)
    r = irrun.run(exe, [p.input] if p.mode == "argv" else [], d, env=e,
                  stdin=os.path.join(d, "x.in") if p.mode == "stdin" else None, trace=trace)
    r.data = None
    if os.path.exists(out):
        with open(out, "rb") as f:
            r.data = f.read()
    return r


def check_native(p, i, d):
    """Interpreter and uninstrumented program must agree, or the case says nothing."""
    irrun.native("x.ll", os.path.join(d, "xn"), d, ["h.c"] if p.helper else [])
    r = execute(p, os.path.join(d, "xn"), d)
    want = bytes(i.mem["@out"][:max(p.outpos, 1)])
    if (r.rc, r.data) != (i.code, want):
        raise HarnessError("interpreter and plain program disagree: exit %s/%s, data %s/%s\n%s" % (
            r.rc, i.code, r.data, want, r.err[-500:]))


def behaves(p, i, r, what, d):
    want = bytes(i.mem["@out"][:max(p.outpos, 1)])
    if (r.rc, r.data) == (i.code, want):
        return
    check_native(p, i, d)
    eq(r.rc, i.code, what + ": exit status (%s)" % r.err[-300:])
    eq(r.data, want, what + ": output")


def source_name(p):
    return {"argv": "argv[1]", "stdin": "stdin"}.get(p.mode, "x.in")


def sink_taints(p, i, t):
    """{output offset: input offsets} of the trace, checking that sources and sinks are the right ones"""
    r = tdag.reach_all(t.labels)
    got, src = {}, t.sources
    for off, lab, idx in t.sinks:
        for s, o in r[lab]:
            n = src[s][0].decode("latin1")
            if not n.endswith(source_name(p)):
                raise Violation("output offset %d depends on offset %d of source %s, the program reads %s" % (
                    off, o, n, source_name(p)))
        got.setdefault(off, set()).update(o for _, o in r[lab])
    return {k: frozenset(v) for k, v in got.items()}
