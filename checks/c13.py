"""C13: the environment selects exactly the requested taint sources and sinks."""
import os

from hypothesis import strategies as st

import tdag
from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["a variable asks for tracking when its value is '1', and does not when it is unset, empty or starts with anything else "
               "(longer values starting with 1 are not generated)",
               "the source table has room for all arguments (C16 covers a full table)"]
VARS = ["POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK", "POLYTRACKER_TAINT_ARGV"]
VALUES = [None, "1", "1", "1", "0", "", "true", "2", "yes", " 1", "01", "o", "\u0661"]
NOISE = ["POLYTRACKER_STDIN", "POLYTRACKER_STDIN_SOURCES", "POLYTRACKER_STDOUT", "POLYTRACKER_STDOUT_SOURCE", "POLYTRACKER_STDERR",
         "POLYTRACKER_ARGV", "POLYTRACKER_TAINT_ARG", "STDIN_SOURCE", "POLYTRACKER_STDIN_SINK", "POLYTRACKER_LOG_CONTROL_FLOW",
         "POLYTRACKER_TAINT_ARGV2"]
DBS = [None, "", "t", "1", " ", "n" * 200, "sub/../up", "trace.tdag", "sub/deep er/x.db", "./t", "\u00e9t\u00e9.tdag", "no_extension", "polytracker.tdag.1", "abs"]


def run(case, ctx):
    on = dict(zip(VARS, [VALUES[i] == "1" for i in case["vars"]]))
    env = {v: VALUES[i] for v, i in zip(VARS, case["vars"]) if VALUES[i] is not None}
    for n in case["noise"]:
        env[NOISE[n]] = "1"
    argv = [bytes(a) for a in case["argv"]]
    d = ctx.mkdir()
    try:
        sin = bytes(case["stdin"])
        rt.paint(d, "in", bytes(range(1, 101)))
        os.makedirs(os.path.join(d, "sub", "deep er"))
        db = DBS[case["db"]]
        if db == "abs":
            db = os.path.join(d, "abs.tdag")
        elif db is None or db == "":
            if db == "":
                env["POLYDB"] = ""
            db = None
        if db is not None:
            env["POLYDB"] = db
        dbname = os.path.join(d, db if db is not None else "polytracker.tdag")
        if case["old"]:
            rt.paint(d, dbname, b"\xff" * case["old"])
        before = set(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)

        L = ["start", "argv " + " ".join(hx(a) for a in argv), "open 0 %s 0 0 -" % hx(b"in"), "read 0 a4000 100"]
        written = []     # (name or None, [labels])
        reads = []       # line index, kind, n
        pos = 0
        outdata = {1: b"", 2: b""}
        for k, x, n in case["io"]:
            if k == 0 and pos < len(sin):
                n = min(n, len(sin) - pos)
                if n:
                    L.append("read #0 a0 %d" % n)
                    reads.append((len(L) - 1, "mem", n, pos))
                    pos += n
            elif k == 1:
                # reading a stream takes the rest: only used last
                continue
            elif k == 2:
                fd = 1 + x % 2
                n = min(n, 90)
                L.append("write #%d a4000 %d" % (fd, n))
                written.append((fd, list(range(n)), len(L) - 1))
            elif k == 3:
                fd = 1 + x % 2
                n = min(n, 90)
                L.append("fwrite %s a4000 1 %d" % ("oe"[fd - 1], n))
                L.append("fflush %s" % "oe"[fd - 1])
                written.append((fd, list(range(n)), len(L) - 2))
            elif k == 4:
                L.append("putc o %d 0 fputc" % (65 + x % 20))
                L.append("fflush o")
        if case["stream"] and pos < len(sin):
            for i in range(min(case["stream"], len(sin) - pos)):
                L.append("getc i %s" % ["fgetc", "getchar", "getc"][i % 3])
                reads.append((len(L) - 1, "ret", 1, pos))
                pos += 1
        if case["file"]:
            L += ["open 1 %s %d 420 -" % (hx(b"out"), os.O_CREAT | os.O_RDWR), "write 1 a4000 5"]
        files = {}
        kw = {}
        sv = case["stdv"]
        kw["stdin"] = "p:" + hx(sin) if sv & 1 else "f:" + hx(rt.paint(d, "stdin", sin).encode())
        if sv & 2:
            files[1] = os.path.join(d, "stdout")
            kw["stdout"] = "f:" + hx(files[1].encode())
        if sv & 4:
            files[2] = os.path.join(d, "stderr")
            kw["stderr"] = "f:" + hx(files[2].encode())
        r = rt.Run(ctx, d, L, env=env, polydb=None, **kw).require()
        after = set(os.path.join(q, f) for q, _, fs in os.walk(d) for f in fs)
        new = after - before - set(os.path.join(d, f) for f in ("stdin", "stdout", "stderr", "out"))
        eq(sorted(new), [] if case["old"] else [os.path.normpath(dbname)], "files created besides the program's")
        t = tdag.Trace(dbname)
        reach = tdag.reach_all(t.labels)
        src = t.sources
        std = []
        for v, name in zip(VARS[:3], ["/dev/stdin", "/dev/stdout", "/dev/stderr"]):
            if on[v]:
                std.append(name)
        args = ["argv[%d]" % i for i in range(len(argv))] if on[VARS[3]] else []
        names = [s[0].decode("utf-8", "replace") if isinstance(s[0], bytes) else s[0] for s in src]
        files_in = [n for n in names if not n.startswith("argv[") and not n.startswith("/dev/std")]
        eq(sorted(n for n in names if n.startswith("/dev/std")), sorted(std), "standard streams among the trace's sources")
        eq([n for n in names if n.startswith("argv[")], args, "arguments among the trace's sources")
        eq(len(files_in), 1 + bool(case["file"]), "number of other sources (%s)" % files_in)
        num = {n: i for i, n in enumerate(names)}

        def stands(label):
            return {(names[a], o) for a, o in reach[label]}
        # the arguments
        V = r.ans[1].V
        got = [rt.unruns(x) for x in V.split(";")] if argv else []
        eq(len(got), len(argv), "arguments reported")
        for i, (a, g) in enumerate(zip(argv, got)):
            exp = [{("argv[%d]" % i, j)} for j in range(len(a))] if args else [set()] * len(a)
            eq([stands(l) for l in g], exp + [set()], "labels of argument %d %r and its terminator" % (i, a))
        for i, kind, n, p in reads:
            a = r.ans[i]
            if kind == "mem":
                eq(a.r, str(n), "read of standard input")
                labs = [a.L.get(j) for j in range(n)]
                if on[VARS[0]]:
                    check(None not in labs, "bytes of standard input not labelled (%s)", labs)
                    eq([stands(l) for l in labs], [{("/dev/stdin", p + j)} for j in range(n)], "labels of bytes of standard input")
                else:
                    check(not any(labs), "bytes of untracked standard input labelled %s", labs)
            else:
                exp = {("/dev/stdin", p)} if on[VARS[0]] else set()
                eq(stands(a.rl), exp, "label of a character of standard input")
        # everything tainted that was sent to a standard stream
        sinks = t.sinks
        for fd, var, name in ((1, VARS[1], "/dev/stdout"), (2, VARS[2], "/dev/stderr")):
            g = [(o, stands(l)) for o, l, s in sinks if s == num.get(name)]
            e = [{("in", j)} for f, js, _ in written if f == fd for j in js] if on[var] else []
            eq([{(os.path.basename(n), o) for n, o in s} for _, s in g], e, "tainted bytes logged for %s" % name)
            offs = [o for o, _ in g]
            if fd in files and g:
                check(all(x < y for x, y in zip(offs, offs[1:])), "offsets logged for %s do not increase: %s", name, offs)
                data = open(files[fd], "rb").read()
                for o, s in g:
                    j = next(iter(s))[1]
                    check(o < len(data) and data[o] == j + 1, "offset %d logged for %s holds %s, not the tainted byte %d", o, name,
                          data[o:o + 1], j + 1)
        left = [x for x in sinks if names[x[2]] not in ("/dev/stdout", "/dev/stderr")]
        eq(len(left), 5 if case["file"] else 0, "tainted bytes logged for other destinations")
    finally:
        ctx.rm(d)
    tags = ["on:%d" % sum(on.values())] + (["argv"] if args and any(argv) else []) + (["old"] if case["old"] else [])
    return any(on.values()) and bool(reads or written or argv), tags


ARG = st.one_of(st.binary(max_size=12), st.sampled_from([b"", b"prog", b"--x=1", "\u00e9".encode()]), st.binary(max_size=300)).map(
    lambda b: [c for c in b if c])
CASE = st.fixed_dictionaries({
    "vars": st.lists(st.integers(0, len(VALUES) - 1), min_size=4, max_size=4),
    "noise": st.lists(st.integers(0, len(NOISE) - 1), max_size=3, unique=True),
    "argv": st.one_of(st.lists(ARG, max_size=6), st.integers(0, 120).map(lambda n: [[65 + i % 20] * (i % 4) for i in range(n)])),
    "stdin": st.binary(max_size=80).map(list),
    "db": st.integers(0, len(DBS) - 1),
    "old": st.sampled_from([0, 0, 1, 100, 5000, 100000]),
    "io": st.lists(st.tuples(st.sampled_from([0, 2, 2, 3, 3, 4]), st.integers(0, 20), st.integers(0, 60)).map(list), max_size=8),
    "stream": st.integers(0, 10),
    "file": st.booleans(),
    "stdv": st.integers(0, 7)})

SUBS = [Sub("env", CASE, run, 10000, 300000, "runs of the runtime with generated environments, argument vectors, trace paths (also "
            "replacing an existing file) and standard stream traffic, against what the README says each variable selects; "
            "non-trivial: at least one variable enabled and arguments or standard stream data present")]
