import os

import tdag
from vlib import Sub, Violation, eq, short

from . import ir

ASSUMPTIONS = ["the repository's passes are compiled for LLVM 18 after renaming the interfaces LLVM changed since 13 (lib/port18.py)",
               "selections and address computations on vectors are not logged (documented limitation of pt-tcf)",
               "programs are instrumented as written: the log call is declared free of side effects, so optimising afterwards may "
               "merge equal entries"]


def build():
    return ir.build()


def run(case, ctx):
    ign, prog = case
    p, i = ir.program(prog)
    if i is None:
        return False, ["too long"]
    d = ctx.mkdir()
    try:
        ir.write(p, d)
        names = ["pt-tcf", "pt-taint", "pt-ftrace", "pt-dfsan", "pt-rm-fn-attr"]
        ignored = {f.name for k, f in enumerate(p.fns) if ign >> k & 1 and "discard" not in f.name and f.name.isidentifier()}
        if ign & 8:
            ignored.add("finish")
        lists = []
        if ignored:
            with open(d + "/list.txt", "w") as f:
                f.write("# functions not to be logged\n\n")
                for n in sorted(ignored):
                    f.write("fun:%s=uninstrumented\nfun:%s=discard\n" % (n, n))
                f.write("fun:main=discard\n")
                for n in sorted({g.name for g in p.fns if g.name.isidentifier()} - ignored):
                    f.write("fun:%s=custom\n" % n)
            lists = [d + "/list.txt"]
        args = ir.irrun.passes_args(names)
        args += ["-pt-taint-ignore-list=" + x for x in lists] + ["-pt-ftrace-ignore-list=" + x for x in lists]
        so = ctx.bins["pass"]
        ir.irrun.tool([ir.irrun.BINDIR + "/opt", "-load", so, "-load-pass-plugin", so] + args + ["x.ll", "-o", "i.bc"], d,
                      "instrumenting", True)
        ir.irrun.lower(ctx, "i.bc", d + "/x", d)
        r = ir.execute(p, d + "/x", d, trace=True)
        ir.behaves(p, i, r, "instrumented program", d)
        t = r.trace
        labels = t.labels
        reach = tdag.reach_all(labels)
        try:
            ids = ir.irrun.function_ids(d)
        except ValueError as e:
            raise Violation("functionid.json cannot be read: %s" % e)
        eq(sorted(ids), sorted([f.name for f in p.fns_in_order] + ["finish"]), "functions named in functionid.json")
        got = []
        for e in t.cflog:
            if e[1] >= len(ids):
                raise Violation("the log mentions function %d of %d" % (e[1], len(ids)))
            got.append((("enter", "leave", "branch")[e[0]], ids[e[1]]) + (
                (frozenset(o for _, o in reach[e[2]]),) if e[0] == 2 else ()))
        want = [e[:3] for e in i.events if e[0] != "branch" or e[3] != "vgep"]
        compare(p, i, d, got, want, "control-flow log")
        fns = t.functions
        got = [(("enter", "leave")[k], fns[f].decode("latin1")) for k, f in t.events]
        want = [e for e in i.events if e[0] != "branch" and e[1] not in ignored]
        compare(p, i, d, got, want, "function trace")
        marked = set()
        for k, v in enumerate(labels):
            if k and v & tdag.CF:
                marked |= {o for _, o in reach[k]}
        wm = set().union(*[e[2] for e in i.events if e[0] == "branch" and e[3] != "select" and e[1] not in ignored])
        if marked != wm:
            ir.check_native(p, i, d)
            raise Violation("inputs marked as affecting control flow: got %s, want %s" % (sorted(marked), sorted(wm)))
        nb = sum(e[0] == "branch" for e in i.events)
        tags = [p.mode] + sorted({e[3] for e in i.events if e[0] == "branch"}) + (["ignored functions"] if ignored else []) + (
            ["exit"] if i.events[-1] != ("leave", "main") else [])
        return nb > 0 and len(i.events) > 4, tags
    finally:
        ctx.rm(d)


def compare(p, i, d, got, want, what):
    if got == want:
        return
    ir.check_native(p, i, d)
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise Violation("%s: entry %d is %s, the program did %s" % (what, k, a, b))
    raise Violation("%s: %d entries, the program had %d events: %s" % (what, len(got), len(want),
                                                                      (got[len(want):] or want[len(got):])[:3]))


PROGRAM = ir.programs(nest=.35)


def gen(r):
    return [r.choice([0, r.randrange(16)]), PROGRAM(r)]


def simpler(c):
    if c[0]:
        yield [0, c[1]]
    for x in ir.simpler_program(c[1]):
        yield [c[0], x]


SUBS = [Sub("programs", gen, run, 640, 24000,
            "at least one branch, address or selection depends on input and the program calls functions or branches repeatedly",
            shrink=60, simpler=simpler)]
