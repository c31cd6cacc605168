from hypothesis import strategies as st

import vbuild
import tdag
from vlib import Sub, check, eq, hx

ASSUMPTIONS = ["function names stay valid for the whole run (they are constants of the instrumented program)"]


def build():
    return {"core": vbuild.build_core()}


BASE = st.one_of(st.sampled_from(["", "f", "fo", "foo", "foo(int)", "main", "_ZN1aE", "\u00fcber", "\U0001f600", "a b", "g"]),
                 st.text(st.characters(blacklist_categories=["Cs"]), max_size=8),
                 st.tuples(st.sampled_from("fgx\u00e9"), st.one_of(st.integers(1, 300), st.sampled_from([4096, 65535 // 2]))).map(
                     lambda t: t[0] * t[1]))
CASE = st.tuples(
    st.lists(BASE, min_size=1, max_size=12),
    st.one_of(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 50)).map(list), min_size=1, max_size=60),
              st.lists(st.tuples(st.integers(0, 2), st.integers(0, 50)).map(list), min_size=30, max_size=200)),
    st.one_of(st.just([0, 0]), st.just([0, 0]), st.tuples(st.integers(0, 700), st.just(0)).map(list)),).map(list)
# enough names to come close to the end of the string table (1 MiB)
FULL = st.tuples(st.lists(BASE, min_size=1, max_size=12),
                 st.lists(st.tuples(st.integers(0, 2), st.integers(0, 50)).map(list), min_size=1, max_size=60),
                 st.one_of(st.tuples(st.integers(15, 600), st.integers(1000, 64000)),
                           st.tuples(st.integers(300, 9000), st.integers(30, 2000))).map(list)).map(list)


def run(case, ctx):
    names, ops, extra = case
    lines, idx, ev, want = [], {}, [], []
    byname = []

    def enter(n):
        lines.append("fe " + hx(n))
        if n not in idx:
            idx[n] = len(idx)
            byname.append(n)
        want.append(str(idx[n]))
        ev.append((0, idx[n]))
    names = [n.encode()[:65535] for n in names]
    names = [n.decode(errors="ignore").encode() for n in names]
    k, length = extra
    if length:
        k = min(k, 1000000 // (length + 16))
        names = [n[:500].decode(errors="ignore").encode() for n in names]
    for i in range(k):
        enter((b"bulk%d" % i).ljust(length, b"."))
    for k, n in ops:
        if k < 2:
            enter(names[n % len(names)])
        elif idx:
            i = n % len(idx)
            lines.append("fx %d" % i)
            want.append("ok")
            ev.append((1, i))
    p = ctx.path(".tdag")
    try:
        ans = ctx.server("core").case("PT", [hx(p.encode())], lines + ["end"])
        for l, a, w in zip(lines, ans, want):
            eq(a, w, l[:100])
        t = tdag.Trace(p)
        eq(t.functions, byname, "function names by index")
        eq(t.events, ev, "events")
        from polytracker.taint_dag import TDFile
        with open(p, "rb") as fh:
            td = TDFile(fh)
            eq([n for n, _ in td.fn_headers], [n.decode() for n in byname], "function names in Python")
            eq([(e.kind, e.fnidx) for e in td.events], ev, "events in Python")
            td.buffer.close()
    finally:
        ctx.rm(p)
    return len(idx) > 1 and len(ev) > len(idx), (["over-256-functions"] if len(idx) > 256 else []) + (
        ["over-512KiB-of-names"] if sum(map(len, idx)) > 2 ** 19 else [])


SUBS = [Sub("history", CASE, run, 5000, 250000, "sequences of function entries and exits over generated names; non-trivial: several "
            "functions, some entered repeatedly"),
        Sub("many", FULL, run, 250, 6000, "many or long names, up to nearly all of the string table; non-trivial as above", qbudget=60)]
