from hypothesis import strategies as st

import tdag
import vbuild
from vlib import HarnessError, Sub, Violation

from . import c08, c09, c11, c12, c14, ir

ASSUMPTIONS = ["the repository's passes are compiled for LLVM 18 after renaming the interfaces LLVM changed since 13 (lib/port18.py)",
               "one label per register value (vectors and aggregates included), a loaded value also depends on the address, "
               "a stored one does not, a selected value depends on the condition: the documented propagation rules of DFSan "
               "as configured by the passes' defaults",
               "programs are instrumented as written (no optimisation before, which may add or remove dependencies)"]


LIBRARY = {"C08": (c08.SUBS[0], 8), "C09": (c09.SUBS[0], 6), "C11": (c11.SUBS[1], 4), "C11h": (c11.SUBS[0], 1), "C12": (c12.SUBS[0], 4),
           "C14": (c14.SUBS[0], 2)}


def build():
    r = ir.build()
    r["rt"] = vbuild.build_rt()
    try:
        r["inst"] = vbuild.build_inst()
    except vbuild.BuildError as e:  # everything else builds: the lists, the passes and the wrappers do not fit together
        r["inst"] = ""
        r["inst_error"] = str(e)[-1500:]
    return r


def library(case, ctx):
    """The histories of C08, C09, C11, C12 and C14 with every library call made by instrumented code."""
    name, c = case
    if not ctx.bins["inst"]:
        raise Violation("calls of library functions cannot be instrumented and linked: " + ctx.bins["inst_error"])
    ctx.bins["rt"] = ctx.bins["inst"]
    n, tags = LIBRARY[name][0].run(c, ctx)
    return n, [name[:3] + ": " + t for t in tags]


def calls():
    return st.sampled_from([k for k, v in LIBRARY.items() for _ in range(v[1])]).flatmap(
        lambda k: LIBRARY[k][0].strategy.map(lambda c: [k, c]))


def run(case, ctx):
    flags, prog = case
    p, i = ir.program(prog)
    if i is None:
        return False, ["too long"]
    d = ctx.mkdir()
    try:
        ir.write(p, d)
        names = (["pt-tcf"] if flags & 1 else []) + ["pt-taint"] + (["pt-ftrace"] if flags & 2 else []) + ["pt-dfsan", "pt-rm-fn-attr"]
        ir.irrun.instrument(ctx, "x.ll", d + "/x", d, names)
        r = ir.execute(p, d + "/x", d, trace=True)
        ir.behaves(p, i, r, "instrumented program", d)
        got = ir.sink_taints(p, i, r.trace)
        n = max(p.outpos, 1)
        want = {k: l for k, l in enumerate(i.lab["@out"][:n]) if l}
        if got != want:
            ir.check_native(p, i, d)
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    raise Violation("output byte %d depends on input offsets %s, the trace says %s" % (
                        k, sorted(want.get(k, ())), sorted(got.get(k, ()))))
        dep = {len(l) for l in want.values()}
        tags = [p.mode, p.wmode] + (["several inputs"] if any(x > 1 for x in dep) else []) + sorted(p.features)
        return len(want) > 0 and len(p.features) > 3, tags
    finally:
        ctx.rm(d)


HEAD = """
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
struct S { char c[40]; };
__attribute__((noinline)) char byval(struct S s) { return s.c[3]; }
__attribute__((noinline)) int varargs(int n, ...) { va_list a; va_start(a, n); int r = va_arg(a, int); va_end(a); return r; }
int main() {
  struct S s;
  int fd = open("x.in", 0);
  if (read(fd, &s, 40) != 40) return 1;
  char o = %s;
  int g = open("x.out", 577, 384);
  if (write(g, &o, 1) != 1) return 1;
  close(g);
  return 0;
}
"""
FINDINGS = [("a struct passed by value in memory loses its taint (LLVM byval: a 40-byte struct read from a file, one byte returned)",
             "byval(s)"),
            ("a variable argument of a function of the program loses its taint (va_arg of a byte read from a file)",
             "varargs(1, s.c[3])")]


def known_findings(ctx):
    """The listed programs whose output byte is still not attributed to the input byte it is."""
    res = []
    for line, expr in FINDINGS:
        d = ctx.mkdir()
        try:
            with open(d + "/x.c", "w") as f:
                f.write(HEAD % expr)
            with open(d + "/x.in", "w") as f:
                f.write("0123456789" * 4)
            ir.irrun.tool([ir.irrun.BINDIR + "/clang", "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-S", "-emit-llvm", "x.c", "-o",
                           "x.ll"], d, "compiling", False)
            ir.irrun.instrument(ctx, "x.ll", d + "/x", d, ["pt-taint", "pt-dfsan", "pt-rm-fn-attr"])
            t = ir.irrun.run(d + "/x", [], d, trace=True).trace
            r = tdag.reach_all(t.labels)
            if [sorted(o for _, o in r[l]) for _, l, _ in t.sinks] != [[3]]:
                res.append(line)
        except (Violation, HarnessError):
            pass    # something else is wrong, which the generated programs show
        finally:
            ctx.rm(d)
    return res


PROGRAM = ir.programs()


def gen(r):
    return [r.randrange(4), PROGRAM(r)]


def simpler(c):
    if c[0]:
        yield [0, c[1]]
    for x in ir.simpler_program(c[1]):
        yield [c[0], x]


SUBS = [Sub("programs", gen, run, 640, 24000,
            "the output depends on at least one input byte and the program uses more than three kinds of statement",
            shrink=60, simpler=simpler),
        Sub("library", calls(), library, 3000, 200000, "as in C08, C09, C11, C12 and C14")]
