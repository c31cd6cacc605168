import contextlib
import io

from vlib import Sub, check, eq
from . import tg

ASSUMPTIONS = ["the trace's label graph is well formed (operands are older labels), as C01 establishes for recorded ones"]


def norm(m):
    return {(str(k[0]), k[1]): sorted((str(p), o) for p, o in v) for k, v in m.items() if v}


def run(case, ctx):
    from polytracker.mapping import InputOutputMapping
    from polytracker.taint_dag import TDFile, TDProgramTrace
    b, p = tg.build(case, ctx)
    want = {}
    for off, lab, idx in b.sinks:
        for s, o in b.bytes_of(b.reach[lab]):
            want.setdefault((str(b.path(s)), o), set()).add((str(b.path(idx)), off))
    want = {k: sorted(v) for k, v in want.items()}
    with contextlib.redirect_stderr(io.StringIO()):
        with open(p, "rb") as f:
            m = InputOutputMapping(TDFile(f))
            eq(norm(m.mapping()), want, "mapping")
            if len(b.recs) < 200:
                eq(norm(m.mapping()), want, "second mapping() of the same trace")
                # walking down from a label visits every label below it exactly once
                for lab in {l for _, l, _ in b.sinks[:3]}:
                    below, todo = set(), [lab]
                    while todo:
                        x = todo.pop()
                        if x not in below:
                            below.add(x)
                            k, a, c = b.recs[x]
                            todo += [a, c] if k == "U" else range(a, c + 1) if k == "R" else []
                    got = [l for l, _ in m.dfs_walk(lab)]
                    eq(sorted(got), sorted(below), "labels walked from %d" % lab)
    tr = TDProgramTrace.load(p)
    got = sorted((i.uid, i.path, i.size) for i in tr.inputs)
    used = {r[1] for r in b.recs[1:] if r[0] == "S"}
    eq(got, sorted(b.inp(i) + (b.src[i][2],) for i in used), "inputs")
    got = [(t.source.uid, t.source.path, t.source.size, t.offset, t.label) for t in tr.output_taints]
    eq(got, [b.inp(i) + (b.src[i][2], off, lab) for off, lab, i in b.sinks], "output taints")
    return bool(want) and any(b.recs[l][0] != "S" for _, l, _ in b.sinks), b.tags()


SMALL_RULE = "small worlds (up to 5 initial input bytes, up to 14 further records over few labels), so that the same labels "\
    "meet again in different combinations; non-trivial as below"
SUBS = [Sub("small", tg.SMALL, run, 12000, 600000, SMALL_RULE),
        Sub("mapping", tg.trace(), run, 4000, 200000,
            "generated label graph with sources, unions, ranges and output entries; non-trivial: an output entry with "
            "a combined label")]
