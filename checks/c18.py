import contextlib
import io
import argparse
from pathlib import Path

from vlib import Sub, check, eq
from . import tg

ASSUMPTIONS = ["control-flow marks are closed under ancestry, as C02 establishes for recorded traces",
               "a file's length is its recorded size or, when larger or unknown, the end of what was read from it"]


def expected(b):
    used = set(b.bytes_of(0))
    bits = 0
    for off, lab, idx in b.sinks:
        bits |= b.reach[lab]
    for m in b.marks:
        if b.recs[m][0] == "S":
            bits |= 1 << m
    used = {(b.path(s), o) for s, o in b.bytes_of(bits)}
    length, unread = {}, {}
    read = {r[1] for r in b.recs[1:] if r[0] == "S"}
    for r in b.recs[1:]:
        if r[0] == "S":
            p = b.path(r[1])
            size = b.src[r[1]][2]
            length[p] = max(length.get(p, 0), r[2] + 1, 0 if size == tg.INV else size)
    want = {}
    for p, n in length.items():
        out, start = [], None
        for o in range(n + 1):
            free = o < n and (p, o) not in used
            if free and start is None:
                start = o
            elif not free and start is not None:
                out.append((start, o))
                start = None
        want[p] = out
    # a file that was also opened, with a larger size, but not read through that descriptor: length ambiguous
    for i, (_, _, size) in enumerate(b.src):
        if i not in read and size != tg.INV and b.path(i) in length and size > length[b.path(i)]:
            want.pop(b.path(i), None)
    return want


def run(case, ctx):
    from polytracker.mapping import FileCavities, InputOutputMapping
    from polytracker.taint_dag import TDFile
    b, p = tg.build(case, ctx)
    want = expected(b)
    with contextlib.redirect_stderr(io.StringIO()):
        with open(p, "rb") as f:
            got = InputOutputMapping(TDFile(f)).file_cavities()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            cmd = FileCavities(argparse.ArgumentParser())
            cmd.run(argparse.Namespace(POLYTRACKER_TF=p, print_bytes=False))
    read = {b.path(r[1]) for r in b.recs[1:] if r[0] == "S"}
    check(set(got) <= read, "cavities reported for %s, files read are %s", sorted(map(str, set(got))), sorted(map(str, read)))
    for f, w in want.items():
        g = [tuple(c) for c in got.get(f, [])]
        eq(g, w, "cavities of %s" % f)
    lines = sorted("%s,%d,%d" % (f, a, c) for f, cs in got.items() for a, c in cs)
    eq(sorted(out.getvalue().split("\n")[:-1]), lines, "lines printed by the cavities command")
    t = b.tags()
    if any(want.values()):
        t.append("cavity")
    return any(want.values()) and bool(b.sinks or b.marks), t


SMALL_RULE = "small worlds (up to 5 initial input bytes, up to 14 further records over few labels), so that the same labels "\
    "meet again in different combinations; non-trivial as below"
SUBS = [Sub("small", tg.SMALL, run, 12000, 600000, SMALL_RULE),
        Sub("cavities", tg.trace(), run, 4000, 200000,
            "generated trace with sources (also opened twice), combinations, marks and outputs; non-trivial: at least "
            "one cavity and at least one used byte")]
