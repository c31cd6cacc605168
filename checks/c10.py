"""C10: interception does not change what the program's I/O calls do (plain calls against intercepted calls)."""
import os
import stat

from hypothesis import strategies as st

from checks import rt
from checks.c08 import GETC, GETCHAR, content
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["error codes are compared where the plain call fails or comes up short (a successful call may leave any errno)",
               "descriptor numbers themselves may differ (the runtime keeps its trace open); which one is used must not",
               "no file beyond 2^54 bytes (documented error exit)"]

FLAGS = [os.O_APPEND, os.O_TRUNC, os.O_EXCL, os.O_CREAT, os.O_NONBLOCK, os.O_CLOEXEC, os.O_DIRECTORY, os.O_NOFOLLOW, os.O_SYNC]
MODES = [0o644, 0o600, 0o777, 0o400, 0o000, 0o4755, 0o1777, 0o666, 0o222]
FMODES = ["r", "w", "a", "r+", "w+", "a+", "wx", "rb", "re", "w+x", "q", "ab+"]
PATHS = ["f0", "f1", "f2", "new0", "new1", "dir", "dir/new2", "nodir/x", "link", "broken", "f0/x", "", "\u00e9 sp"]


def prepare(d, case):
    for i, (size, seed) in enumerate(case["files"]):
        rt.paint(d, "f%d" % i, content(size, seed), [0o644, 0o600, 0o444][seed % 3])
    os.mkdir(os.path.join(d, "dir"))
    os.symlink("f0", os.path.join(d, "link"))
    os.symlink("missing", os.path.join(d, "broken"))


def lines(case):
    L = ["start"]
    chk = []  # lines whose result must be compared
    fds, fss, maps = {}, {}, {}
    limited = False

    def any_(d, x):
        k = sorted(d)
        return k[x % len(k)] if k else None

    pre = [[0, 0, 0, 9, 0], [1, 1, 3, 0, 1]][:case["pre"] % 3]
    for k, x, y, z, w in pre + case["ops"]:
        at = y % 3000
        if k == 0:
            free = [s for s in range(14) if s not in fds]
            if not free:
                continue
            p = PATHS[x % len(PATHS)]
            fl = [os.O_RDONLY, os.O_RDWR, os.O_WRONLY][y % 3]
            for b, f in enumerate(FLAGS):
                if z >> b & 1 and (b < 4 or w % 3 == 0):
                    fl |= f
            if w % 11 == 10:
                p, fl = "dir", os.O_TMPFILE | os.O_RDWR
            v = ["o", "64", "at"][(x + y) % 3]
            dirs = [s for s, q in fds.items() if q == "dir"]
            if w % 5 == 4 and dirs:
                v = "at:%d" % dirs[0]
            L.append("open %d %s %d %d %s" % (free[0], hx(p.encode()), fl, MODES[(w + y) % len(MODES)], v))
            L.append("fdstat %d" % free[0])
            fds[free[0]] = p
        elif k == 1:
            free = [s for s in range(14) if s not in fss]
            if not free:
                continue
            m = FMODES[y % len(FMODES)]
            if m == "r" and x % 3 == 0:
                m = "r+"
            L.append("fopen %d %s %s %s" % (free[0], hx(PATHS[x % len(PATHS)].encode()), m, ["-", "64"][z % 2]))
            L.append(("has", free[0]))
            fss[free[0]] = 1
            if w % 4 == 0:
                L.append(("f", free[0], "setvbuf %d %d %d" % (free[0], w % 3, 1 + z % 300)))
        elif k == 2:
            if x % 2 == 0:
                s = any_(fds, y)
                if s is not None:
                    L.append("close %d" % s)
                    if w % 4 == 0:
                        L.append("close %d" % s)
                    del fds[s]
            else:
                s = any_(fss, y)
                if s is not None:
                    L.append(("f", s, "fclose %d" % s))
                    del fss[s]
        elif k == 3:
            s = any_(fds, y)
            if s is not None:
                L.append("lseek %d %d %d" % (s, z - 20 if w % 5 == 0 else z, w % 3))
        elif k == 4:
            s = any_(fss, y)
            if s is not None:
                L.append(("f", s, "fseek %d %d %d" % (s, z - 20 if w % 5 == 0 else z, w % 3)))
        elif k == 5:
            s = any_(fds, x)
            if s is not None and fds[s] == "sock":
                L.append("recv %d a%d %d %d -" % (s, at, z % 4500, 0x40))
            elif s is not None:
                L.append("read %d %s %d" % (s, "a%d" % at if w % 13 else "n", z % 4500))
                L.append("tell %d" % s)
        elif k == 6:
            s = any_(fds, x)
            if s is not None:
                L.append("pread %d a%d %d %d %s" % (s, at, z % 4500, y % 500 - (5 if w % 9 == 0 else 0), ["o", "64"][x % 2]))
                L.append("tell %d" % s)
        elif k == 7:
            s = any_(fss, x)
            size = [1, 1, 2, 7, 16, 0][w % 6]
            L.append(("f", s, "fread %s a%d %d %d %s" % (s, at, size, min(z, 4500 // max(1, size)), ["-", "u"][y % 2])))
            L.append(("f", s, "ftell %s" % s))
        elif k == 8:
            s = any_(fss, x)
            if case["stdin"][0] and w % 4 == 0:
                v = GETCHAR if w % 8 else GETC
                L.append("getc i %s %d" % (v[z % len(v)], at))
            else:
                for q in range(1 + z % 3):
                    L.append(("f", s, "getc %s %s %d" % (s, GETC[(z + q) % len(GETC)], at + q)))
            L.append(("f", s, "ftell %s" % s))
        elif k == 9:
            s = any_(fss, x)
            n = [0, 1, -3, 2][z % 4] if w % 4 == 0 else z % 4000
            if case["stdin"][0] and w % 7 == 6:
                L.append("fgets i a%d %d" % (at, n))
            else:
                L.append(("f", s, "fgets %s a%d %d" % (s, at, n)))
                L.append(("f", s, "ftell %s" % s))
        elif k == 10:
            s = any_(fss, x)
            L.append(("f", s, "getdelim %s %d %d %s" % (s, y % 4, [10, 0, 255, 97, -1][z % 5], ["-", "__"][w % 2])))
            L.append(("f", s, "ftell %s" % s))
        elif k == 11:
            s = any_(fds, x)
            free = [m for m in range(8) if m not in maps]
            if s is None or not free:
                continue
            ln = 1 + z % 9000 if w % 7 else 0
            off = (y % 3) * 4096 + (100 if w % 11 == 10 else 0)
            prot, fl = [(1, 2), (3, 2), (1, 1), (3, 1), (1, 0), (3, 0x22)][w % 6]
            L.append("mmap %d %d %d %d %s %d" % (free[0], ln, prot, fl, s if w % 8 else "#777", off))
            maps[free[0]] = len(L) - 1
            L.append(("map", free[0]))
        elif k == 12:
            m = any_(maps, x)
            if m is not None:
                L.append(("m", m, "munmap %d -1 %d" % (m, 100 if y % 4 == 0 else 0)))
        elif k in (13, 14):
            s = any_(fds, x)
            if s is not None:
                L.append("write %d %s %d" % (s, "a%d" % at if w % 13 else "n", z % 4500 if w % 13 else 0))
                L.append("tell %d" % s)
        elif k == 15:
            s = any_(fss, x)
            size = [1, 1, 2, 7, 16, 0][w % 6]
            L.append(("f", s, "fwrite %s a%d %d %d" % (s, at, size, min(z, 4500 // max(1, size)))))
            L.append(("f", s, "ftell %s" % s))
        elif k == 16:
            s = any_(fss, x)
            L.append(("f", s, "putc %s %d %d %s" % (s, [65, 0, 255, -1, 322, -128][y % 6], z % 3, ["putc", "fputc"][w % 2])))
            L.append(("f", s, "ftell %s" % s))
        elif k == 17:
            s = any_(fss, x)
            L.append(("f", s, ["fflush %s", "clearerr %s", "ungetc %s 65", "ftell %s"][y % 4] % s))
        elif k == 18:
            s = any_(fds, x)
            if s is not None:
                L.append("ftruncate %d %d" % (s, z))
        elif k == 19:
            if limited:
                L.append("limit -")
            else:
                L.append("limit %d" % (1 + z % 900))
            limited = not limited
        elif k == 20:
            free = [s for s in range(14) if s not in fds]
            if len(free) < 3:
                continue
            a, b, c = free[:3]
            if w % 3 == 0:
                L += ["udp %d %d" % (a, b)]
            elif w % 3 == 1:
                L += ["unixpair %d %d" % (a, b)]
            else:
                L += ["listen %d" % c, "connect %d %d" % (a, c), "accept %d %d %s" % (b, c, ["-", "4", "n", "4b", "c"][y % 5]), "close %d" % c]
            L += ["send %d a%d %d %d" % (a, at, z % 2000, 0x4040), "recv %d a%d %d %d %s" % (b, y * 3 % 3000, 1 + x * 30, 0x40, ["-", "from", "addr", "addr"][w % 4]),
                  "recv %d a%d %d %d %s" % (a, at, 1 + x, 0x40, ["-", "from", "addr"][y % 3])]
            if y % 3 == 0:
                L += ["shutdown %d" % b, "recv %d a%d 10 64 -" % (a, at)]
            if y % 5 == 0:
                L += ["close %d" % b, "send %d a%d 30 0" % (a, at), "send %d a%d 30 0" % (a, at)]
            else:
                fds[b] = "sock"
            fds[a] = "sock"
        elif k == 21:  # calls that cannot succeed
            s = any_(fds, x)
            s = "#777" if s is None else s
            L.append(["read #777 a%d 10" % at, "write #-1 a%d 10" % at, "close #777", "accept 15 %s -" % s,
                      "send %s a%d 10 0" % (s, at), "recv %s a%d 10 64 -" % (s, at), "pread #777 a%d 10 0 o" % at,
                      "recv #777 a%d 10 64 from" % at][z % 8])
    return L


def reopen(L):
    """Conditional lines: operations on streams need a stream, operations on mappings a mapping."""
    out = []
    last = {}
    for l in L:
        if l[0] == "f" and l[1] is not None:  # C wants a seek or flush between reading and writing a stream
            o = l[2].split()[0]
            way = {"fread": "r", "getc": "r", "fgets": "r", "getdelim": "r", "ungetc": "r", "fwrite": "w", "putc": "w"}.get(o)
            if way and last.setdefault(l[1], way) != way:
                out.append("iff %d fseek %d 0 1" % (l[1], l[1]))
                last[l[1]] = way
        if isinstance(l, str):
            out.append(l)
        elif l[0] == "f" and l[1] is not None:
            out.append("iff %d %s" % (l[1], l[2]))
            if o in ("fseek", "fclose"):
                last.pop(l[1], None)
        elif l[0] == "m":
            out.append("ifm %d %s" % (l[1], l[2]))
        elif l[0] == "map":
            out.append("ifm %d mcopy %d" % (l[1], l[1]))
    return out


def tree(d):
    r = {}
    for base, dirs, files in os.walk(d):
        for n in sorted(dirs + files):
            p = os.path.join(base, n)
            s = os.lstat(p)
            rel = os.path.relpath(p, d)
            if rel == "trace.tdag":
                continue
            c = None
            if stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    c = f.read()
            r[rel] = (s.st_mode, s.st_size if stat.S_ISREG(s.st_mode) else 0, c)
    return r


FD = ("open", "fopen", "rawopen")


def failed(op, a, line):
    if op == "read" or op == "pread" or op == "write" or op == "send" or op == "recv" or op == "getdelim":
        return a.r == "-1"
    if op in ("fread", "fwrite"):
        return int(a.r) < int(line.split()[-2] if op == "fread" else line.split()[-1])
    return a.r in ("-1", "null", "failed")


def run(case, ctx):
    runs = []
    trees = []
    L = reopen(lines(case))
    data = content(case["stdin"][1], case["stdin"][2])
    for plain in (True, False):
        d = ctx.mkdir()
        try:
            prepare(d, case)
            stdin = "-"
            if case["stdin"][0] == 1:
                stdin = "p:" + hx(data)
            elif case["stdin"][0] == 2:
                rt.paint(d, "stdin", data)
                stdin = "f:" + hx(os.path.join(d, "stdin").encode())
            env = {} if plain else {"POLYTRACKER_STDIN_SOURCE": "1"}
            ops = L if not plain else ["poke 0 -"] + L[1:]
            runs.append(rt.Run(ctx, d, ops, plain=plain, env=env, stdin=stdin))
            trees.append(tree(d))
        finally:
            ctx.rm(d)
    p, q = runs
    if p.status == "s14":
        return False, ["blocks"]  # the plain calls block as well
    eq(q.status, p.status, "exit status with interception")
    eq(len(q.ans), len(p.ans), "number of operations done with interception")
    fails = ok = 0
    tags = set()
    for i, (a, b) in enumerate(zip(p.ans, q.ans)):
        if i == 0:
            continue
        t = L[i].split()
        if t[0] in ("iff", "ifm"):
            t = t[2:]
        op = t[0]
        line = " ".join(t)
        if a.r == "skip" or b.r == "skip":
            eq(b.r, a.r, "operation %d (%s)" % (i, line))
            continue
        ra, rb = a.r, b.r
        if op in FD and ra.isdigit() and rb.isdigit():
            ra = rb = "fd"
        eq(rb, ra, "result of operation %d (%s)" % (i, line))
        f = failed(op, a, line)
        if f and op not in ("ftell",):
            eq(b.e, a.e, "errno after operation %d (%s) came back with %s" % (i, line, a.r))
            fails += 1
            tags.add("fail:" + op)
        else:
            ok += 1
            tags.add("ok:" + op)
        eq(b.D, a.D, "memory written by operation %d (%s)" % (i, line))
        if "B" in a or "B" in b:
            eq(b.B, a.B, "data of operation %d (%s)" % (i, line))
        eq(b.get("A"), a.get("A"), "descriptor flags and peer address after operation %d (%s)" % (i, line))
        if op == "getc":
            check(b.rl == 0 or b.r != "-1", "end of file carries label %d (%s)", b.rl, line)
        elif op not in ("fgets", "limit", "poke") and b.rl not in (rt.UNSET,):
            eq(b.rl, 0, "label of the result of operation %d (%s)" % (i, line))
        elif b.rl == rt.UNSET:
            raise Violation("operation %d (%s) left the label of its result undefined" % (i, line))
    eq(trees[1], trees[0], "files afterwards")
    return ok > 5 and fails > 0 or ok > 10, sorted(tags)


SMALL = st.integers(0, 40)


def op(k):
    n = st.one_of(st.integers(0, 40), st.integers(0, 700), st.sampled_from([0, 1, 4096, 4500, 2999]))
    return st.tuples(st.just(k), SMALL, st.integers(0, 3500), n, SMALL).map(list)


WEIGHTS = [0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]
CASE = st.fixed_dictionaries({
    "pre": st.sampled_from([2, 5, 4, 8, 3]),
    "files": st.lists(st.tuples(st.one_of(st.integers(0, 60), st.integers(0, 900), st.sampled_from([4096, 4097, 9000])),
                                st.integers(0, 1000)).map(list), min_size=1, max_size=3),
    "stdin": st.tuples(st.integers(0, 2), st.integers(0, 300), st.integers(0, 100)).map(list),
    "ops": st.lists(st.sampled_from(WEIGHTS).flatmap(op), min_size=4, max_size=35),
})

SUBS = [Sub("differential", CASE, run, 6000, 200000, "the same generated history of I/O calls (opening with all flags and "
            "permissions, seeking, reading, writing, mapping, sockets, closing, calls that must fail, write limits) run once "
            "through the plain library calls and once through the interception; results, error codes, buffers, positions and "
            "the resulting files and permissions are compared; non-trivial: at least ten calls, or five and a failing one")]
