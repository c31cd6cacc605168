from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, check, eq, hx

ASSUMPTIONS = ["a leave or branch event names a function that is on the recorded call stack (instrumented code only logs those)"]


def build():
    return {"core": vbuild.build_core()}


ID = st.one_of(st.integers(0, 6), st.integers(0, 200), st.integers(0, 2**32 - 1),
               st.integers(0, 31).map(lambda i: 1 << i), st.integers(1, 32).map(lambda i: (1 << i) - 1),
               st.sampled_from([127, 128, 129, 16383, 16384, 2**21 - 1, 2**21, 2**28 - 1, 2**28]))
LAB = st.one_of(st.integers(1, 2**32 - 1), st.integers(1, 300), st.integers(0, 31).map(lambda i: 1 << i),
                st.integers(1, 32).map(lambda i: (1 << i) - 1))
OP = st.one_of(st.tuples(st.just("E"), ID), st.tuples(st.just("E"), ID), st.tuples(st.just("L"), st.just(0)),
               st.tuples(st.just("L"), st.integers(0, 5)), st.tuples(st.just("C"), st.integers(0, 4), LAB),
               st.tuples(st.just("C"), st.just(0), LAB)).map(list)
CASE = st.tuples(st.one_of(st.lists(OP, max_size=30), st.lists(OP, min_size=15, max_size=80)), st.integers(0, 2)).map(list)


def run(case, ctx):
    ops, mapping = case
    stack, events, lines, raw = [], [], [], []
    unwound = False

    def align(f):
        nonlocal unwound
        while stack[-1] != f:
            events.append(("leave", stack[:]))
            stack.pop()
            unwound = True
    for o in ops:
        if o[0] == "E":
            lines.append("ent %d" % o[1])
            raw.append((0, o[1]))
            stack.append(o[1])
            events.append(("enter", stack[:]))
        elif not stack:
            continue
        else:
            f = stack[-1 - o[1] % len(stack)]  # o[1] frames unwound without a recorded leave
            if o[0] == "L":
                lines.append("lev %d" % f)
                raw.append((1, f))
                align(f)
                events.append(("leave", stack[:]))
                stack.pop()
            else:
                lines.append("cf %d %d" % (o[2], f))
                raw.append((2, f, o[2]))
                align(f)
                events.append(("cf", stack[:], o[2]))
    while stack:
        events.append(("leave", stack[:]))
        stack.pop()
    lines.append("end")
    p = ctx.path(".tdag")
    try:
        ans = ctx.server("core").case("PT", [hx(p.encode())], lines)
        check(all(a == "ok" for a in ans), "logging failed: %s", ans)
        eq(tdag.Trace(p).cflog, raw, "events stored in the log")
        from polytracker.taint_dag import (TDControlFlowLogSection, TDEnterFunctionEvent, TDFile,
                                           TDLeaveFunctionEvent, TDTaintedControlFlowEvent)
        ids = sorted({r[1] for r in raw})
        with open(p, "rb") as fh:
            td = TDFile(fh)
            log = td._get_section(TDControlFlowLogSection)
            name = lambda f: f
            if mapping:
                # names may be shared between ids only when that cannot change the meaning of the stack
                table = {f: "fn%d" % i for i, f in enumerate(ids)}
                if mapping == 2:
                    table = {f: ("fn", i) for i, f in enumerate(ids)}
                log.function_id_mapping(table)
                name = lambda f: table[f]
            got = []
            for e in log:
                if isinstance(e, TDEnterFunctionEvent):
                    got.append(("enter", e.callstack))
                elif isinstance(e, TDLeaveFunctionEvent):
                    got.append(("leave", e.callstack))
                elif isinstance(e, TDTaintedControlFlowEvent):
                    got.append(("cf", e.callstack, e.label))
                else:
                    got.append((type(e).__name__, None))
            td.buffer.close()
    finally:
        ctx.rm(p)
    want = [(e[0], [name(f) for f in e[1]]) + tuple(e[2:]) for e in events]
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, "event %d of the replayed log" % i)
    eq(len(got), len(want), "number of replayed events")
    return len(raw) > 2 and any(r[0] == 2 for r in raw), (["unwound"] if unwound else []) + (
        ["multi-byte"] if any(r[1] > 127 for r in raw) else []) + (["named"] if mapping else [])


SUBS = [Sub("replay", CASE, run, 8000, 400000, "call histories with branches and missing leaves, written by the runtime, "
            "replayed by the reader, against the true stacks; non-trivial: a branch among at least three events")]
