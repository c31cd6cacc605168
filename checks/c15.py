"""C15: concurrent recording loses, duplicates and tears nothing."""
import os
import random

from hypothesis import strategies as st

import tdag
import vbuild
from vlib import Server, Sub, Violation, check, eq, hx

ASSUMPTIONS = ["one read or write operation of a thread is one library call; threads share sources but not buffers",
               "marking labels is excluded from the runs under the race detector: the code updates marks without synchronisation by "
               "design (the outcome is checked in the other runs)"]


def build():
    return {"mt": vbuild.build_mt(), "mt-tsan": vbuild.build_mt_tsan()}


SHARED = [b"shared:fn", b"main", b"", b"other"]


class Program:
    """Operation lines of every thread, from a seed and a shape."""

    def __init__(self, case, marks):
        self.nt = case["threads"]
        self.lines = []   # (who, op list)
        r = random.Random(case["seed"])
        kinds = case["kinds"]
        for i in range(4):
            self.add("p", ["open", 3 + i, hx(b"shared%d" % i)])
        self.add("p", ["src", 3, 0, 40])
        self.add("p", ["un", "$4.1", "$4.9"])
        self.add("p", ["un", "$5.0", "$4.20"])
        self.add("p", ["open", 9, hx(b"stream")])
        for t in range(self.nt):
            own = []
            regs = 0
            fd = None
            for j in range(case["n"]):
                k = r.choice(kinds)
                if k == "read":
                    n = r.choice([1, 2, 3, 8, 17, 64, 65, 130])
                    own.append(j)
                    self.add(t, [r.choice(["src", "srcv"]), fd if fd and r.random() < .4 else 3 + r.randrange(4),
                                 t * 1000000 + j * 1000, n])
                elif k == "stream":
                    own.append(j)
                    self.add(t, [r.choice(["src", "srcv"]), 9, -1, r.choice([1, 2, 5, 9])])
                elif k == "un":
                    def ref():
                        if own and r.random() < .8:
                            return "$%d.%d" % (own[-1 - min(len(own) - 1, int(r.expovariate(.7)))], r.randrange(200))
                        return "p%d.%d" % (r.choice([4, 5, 6]), r.randrange(40))
                    self.add(t, ["un", ref(), ref()])
                    own.append(j)
                elif k == "mark":
                    if not marks:
                        self.add(t, ["ent", t * 100000 + j])
                    elif own and r.random() < .7:
                        self.add(t, ["mark", "$%d.%d" % (r.choice(own), r.randrange(200))])
                    else:
                        self.add(t, ["mark", "p%d.%d" % (r.choice([4, 5, 6]), r.randrange(40))])
                elif k == "log":
                    q = r.randrange(3)
                    if q == 2:
                        self.add(t, ["cf", 1 + (t * 100000 + j) * 16, t * 100000 + j])
                    else:
                        self.add(t, [["ent", "lev"][q], t * 100000 + j])
                elif k == "fn":
                    self.add(t, ["fe", hx(r.choice(SHARED) if r.random() < .4 else b"t%d:%d" % (t, r.randrange(6)))])
                elif k == "fx":
                    self.add(t, ["fx", 5000 + t])
                elif k == "open":
                    if sum(1 for w, o in self.lines if o[0] in ("open", "mk")) < 200:
                        fd = 100 + t * 100 + j % 50
                        self.add(t, ["open", fd, hx(b"t%d.%d" % (t, j))])
                    else:
                        self.add(t, ["ent", t * 100000 + j])
                elif k == "mk":
                    if sum(1 for w, o in self.lines if o[0] in ("open", "mk")) < 200:
                        self.add(t, ["mk", hx(b"m%d.%d" % (t, j)), r.randrange(1, 9)])
                        own.append(j)
                    else:
                        self.add(t, ["ent", t * 100000 + j])
                elif k == "sink":
                    ref = "$%d.%d" % (r.choice(own), r.randrange(200)) if own else "p4.%d" % r.randrange(40)
                    self.add(t, [r.choice(["sink", "sinkm"]), 3 + r.randrange(4), t * 1000000 + j * 1000, ref, r.randrange(1, 6)])
                elif k == "ssink":
                    self.add(t, [r.choice(["sink", "sinkm"]), 9, -1, "p4.%d" % (t % 40), r.randrange(1, 6)])
                elif k == "close":
                    if fd:
                        self.add(t, ["close", fd])
                        fd = None
                    else:
                        self.add(t, ["ent", t * 100000 + j])
                regs += 1
        self.add("e", ["end"])

    def add(self, who, op):
        self.lines.append((who, op))

    def text(self):
        return ["%s %s" % (w, " ".join(str(x) for x in o)) for w, o in self.lines]


def server(ctx, name):
    s = ctx.servers.get(name)
    if s is None:
        s = ctx.servers[name] = Server(ctx.bins[name], {"TSAN_OPTIONS": "halt_on_error=1:exitcode=98:report_signal_unsafe=0:history_size=4"})
    return s


def subseq(entries, key, t):
    return [e for e in entries if key(e) == t]


def record(exe, marks):
    def run(case, ctx):
        p = Program(case, marks)
        path = ctx.path(".tdag")
        try:
            ans = server(ctx, exe).case("MT", [hx(path.encode()), str(p.nt), str(case["seed"]), str(case["pace"])], p.text())
            tr = tdag.Trace(path)
            return verify(p, ans, tr)
        finally:
            ctx.rm(path)
    return run


def verify(p, ans, tr):
    src = [s[0] for s in tr.sources]
    labels = tr.labels
    reach, keys = tdag.bitset_reach(labels)
    want_src = {}
    for (w, o), a in zip(p.lines, ans):
        check(a not in ("ERR", "BADOP", "MISSING"), "operation %s of thread %s answered %s", o, w, a)
        if o[0] in ("open", "mk"):
            want_src.setdefault(w, []).append(bytes.fromhex(o[2 if o[0] == "open" else 1]))
    flat = [n for l in want_src.values() for n in l]
    eq(sorted(src), sorted(flat), "sources in the trace")
    num = {n: i for i, n in enumerate(src)}
    for w, l in want_src.items():
        idx = [num[n] for n in l]
        eq(idx, sorted(idx), "order of the sources thread %s opened" % w)
    # reads
    used = {}
    stream = []
    fdname = {3 + i: b"shared%d" % i for i in range(4)}
    fdname[9] = b"stream"
    unions = {}
    sinks = {}
    ssink = []
    marked = set()
    log = {}
    ev = {}
    fidx = {}
    own = {}
    for (w, o), a in zip(p.lines, ans):
        k = o[0]
        if k == "open":
            own[(w, o[1])] = bytes.fromhex(o[2])
        elif k in ("src", "srcv", "mk"):
            check(a != "none", "read %s of thread %s was not recorded", o, w)
            f, l = (int(x) for x in a.split())
            n = o[2] if k == "mk" else o[3]
            eq(l - f + 1, n, "number of labels of read %s of thread %s" % (o, w))
            s = num[bytes.fromhex(o[1])] if k == "mk" else num[own.get((w, o[1])) or fdname[o[1]]]
            off = 0 if k == "mk" else o[2]
            if off < 0:
                off = tdag.dec(labels[f])[2] if f < len(labels) else 0
                stream.append((off, n))
            for i in range(n):
                check(f + i < len(labels), "label %d of a read is missing in the trace", f + i)
                d = tdag.dec(labels[f + i])
                if d[:3] != ("S", s, off + i):
                    raise Violation("read %s of thread %s: label %d is recorded as %s, want offset %d of source %d" % (o, w, f + i, d, off + i, s))
                if f + i in used:
                    raise Violation("label %d was handed out twice: %s and %s" % (f + i, used[f + i], (w, o)))
                used[f + i] = (w, o)
        elif k == "un" and a != "skip":
            l, r, x = (int(v) for v in a.split())
            check(x < len(labels), "label %d of a combination is missing in the trace", x)
            unions[x] = (w, o)
            if reach[x] != reach[l] | reach[r]:
                raise Violation("thread %s combined %d and %d into %d, which is recorded as %s" % (w, l, r, x, tdag.dec(labels[x])))
        elif k == "mark" and a != "skip":
            marked.add(int(a))
        elif k in ("ent", "lev"):
            log.setdefault(w, []).append((0 if k == "ent" else 1, o[1]))
        elif k == "cf":
            log.setdefault(w, []).append((2, o[2], o[1]))
        elif k == "fe":
            n = bytes.fromhex(o[1]) if o[1] != "-" else b""
            i = int(a)
            eq(fidx.setdefault(n, i), i, "index of function %r" % n)
            ev.setdefault(w, []).append((0, i))
        elif k == "fx":
            ev.setdefault(w, []).append((1, o[1]))
        elif k in ("sink", "sinkm"):
            l = int(a)
            if not l:
                if o[2] < 0:
                    ssink.append((w, 0, o[4]))
                continue
            if o[2] < 0:
                ssink.append((w, l, o[4]))
            else:
                sinks.setdefault(w, []).extend((o[2] + i, l, num[fdname[o[1]]]) for i in range(o[4]))
    # nothing else is in the label table
    for i in range(1, len(labels)):
        kind = tdag.dec(labels[i])[0]
        if (kind == "S") != (i in used):
            raise Violation("label %d (%s) was not handed out by a read, or changed" % (i, tdag.dec(labels[i])))
        if kind != "S" and i not in unions:
            raise Violation("label %d (%s) was returned to no thread" % (i, tdag.dec(labels[i])))
    eq(sorted(tr.index), [i for i in range(1, len(labels)) if i in used], "index of input labels")
    stream.sort()
    at = 0
    for off, n in stream:
        eq(off, at, "offset of the next read of the stream")
        at += n
    # outputs
    n9 = num[b"stream"]
    by = {}
    st_entries = []
    for e in tr.sinks:
        if e[2] == n9:
            st_entries.append(e)
        else:
            by.setdefault(e[0] // 1000000, []).append(e)
    for w in range(p.nt):
        eq(by.get(w, []), sinks.get(w, []), "output entries of thread %d" % w)
    eq(sorted(o for o, _, _ in st_entries), list(range(sum(n for _, _, n in ssink))), "offsets of the output stream")
    cnt = {}
    for _, l, n in ssink:
        cnt[l] = cnt.get(l, 0) + n
    got = {}
    for _, l, _ in st_entries:
        got[l] = got.get(l, 0) + 1
    eq(got, cnt, "labels written to the stream")
    # functions
    fns = tr.functions
    eq({n: i for i, n in enumerate(fns)}, fidx, "function names and indices")
    eq(len(fns), len(fidx), "number of functions")
    events = tr.events
    want = {}
    for l in ev.values():
        for e in l:
            want[e] = want.get(e, 0) + 1
    got = {}
    for e in events:
        got[e] = got.get(e, 0) + 1
    eq(got, want, "function events")
    back = {i: n for n, i in fidx.items()}

    def owner(e):
        if e[0] == 1:
            return e[1] - 5000
        n = back[e[1]]
        return int(n[1:].split(b":")[0]) if n[:1] == b"t" else None
    for w, l in ev.items():
        eq([e for e in events if owner(e) == w], [e for e in l if owner(e) == w], "function events of thread %s" % w)
    # control-flow log
    cf = tr.cflog
    for w, l in log.items():
        eq([e for e in cf if e[1] // 100000 == w], l, "control-flow log of thread %s" % w)
    eq(len(cf), sum(len(l) for l in log.values()), "entries of the control-flow log")
    # marks
    todo = list(marked)
    closed = set()
    while todo:
        l = todo.pop()
        if l in closed:
            continue
        closed.add(l)
        k, a, b, _ = tdag.dec(labels[l])
        if k == "U":
            todo += [a, b]
        elif k == "R":
            todo += range(a, b + 1)
    eq({i for i in range(1, len(labels)) if tdag.dec(labels[i])[3]}, closed, "labels marked as affecting control flow")
    busy = [w for w in range(p.nt)]
    tags = sorted({o[0] for w, o in p.lines if w not in ("p", "e")})
    return len(busy) > 1 and len(p.lines) > 20, ["threads:%d" % p.nt] + tags


def bitmap(exe):
    def run(case, ctx):
        r = random.Random(case["seed"])
        w = case["width"]
        lines = []
        for t in range(case["threads"]):
            for j in range(case["n"]):
                b = r.randrange(1000) if not case["dense"] else r.randrange(0, 70)
                if r.random() < case["ranges"]:
                    lines.append((t, "brange", b, min(1000 - b, r.choice([1, 2, 7, 8, 63, 64, 65, 200]))))
                else:
                    lines.append((t, "bset", b, 1))
        text = ["%d %s %d %d" % (t, o, w, b) if o == "bset" else "%d %s %d %d %d" % (t, o, w, b, n) for t, o, b, n in lines]
        ans = server(ctx, exe).case("MT", ["-", str(case["threads"]), str(case["seed"]), str(case["pace"])],
                                    text + ["e bsize %d" % w, "e bdump %d" % w])
        bits = set()
        ranged = set()
        fresh = {}
        for (t, o, b, n), a in zip(lines, ans):
            bits.update(range(b, b + n))
            if o == "brange":
                eq(a, "ok", "setting a range")
                ranged.update(range(b, b + n))
        for (t, o, b, n), a in zip(lines, ans):
            if o == "bset" and a == "0":
                fresh[b] = fresh.get(b, 0) + 1
        for (t, o, b, n) in lines:
            if o == "bset":
                if b in ranged:
                    check(fresh.get(b, 0) <= 1, "entry %d was reported as new %d times", b, fresh.get(b, 0))
                else:
                    eq(fresh.get(b, 0), 1, "number of times entry %d was reported as new" % b)
        mem = bytes.fromhex(ans[-1])
        got = {i * 8 + j for i, c in enumerate(mem) for j in range(8) if c >> j & 1}
        eq(got, bits, "entries set")
        size = int(ans[-2])
        need = (max(bits) // w + 1) * (w // 8) if bits else 0
        eq(size, need, "size used")
        return case["threads"] > 1 and bool(bits), ["width:%d" % w]
    return run


def burst(case, ctx):
    """Rounds in which every thread does one operation on the same data at the same moment."""
    kind, nt = case["kind"], case["threads"]
    path = ctx.path(".tdag")
    try:
        ans = server(ctx, "mt").case("BURST", [kind, str(nt), str(case["seed"]), str(case["rounds"]), hx(path.encode())], [], answers=case["rounds"])
        eq(len(ans), case["rounds"], "rounds")
        rounds = [a.split() for a in ans]
        if kind in ("b8", "b64"):
            w = int(kind[1:])
            for r in rounds:
                bits, news, ranged = set(), {}, set()
                for t in range(nt):
                    b, n, old = (int(x) for x in r[3 * t:3 * t + 3])
                    bits.update(range(b, b + max(n, 1)))
                    if n:
                        ranged.update(range(b, b + n))
                    else:
                        news.setdefault(b, []).append(1 - old)
                what = "after " + " and ".join("set(%s)" % r[3 * t] if r[3 * t + 1] == "0" else "set_range(%s, %s)" % tuple(r[3 * t:3 * t + 2]) for t in range(nt))
                for b, l in news.items():
                    check(sum(l) == 1 or b in ranged and sum(l) == 0, "%s at once, entry %d was reported as new %d times", what, b, sum(l))
                have = int.from_bytes(bytes.fromhex(r[-1]), "little")
                want = sum(1 << b for b in bits)
                check(have == want, "%s at once, the entries set are not those", what)
                eq(int(r[-2]), (max(bits) // w + 1) * (w // 8), what + " at once, the size")
        elif kind == "so":
            got = {}
            for k, r in enumerate(rounds):
                if k % 8 == 0:
                    tile(got)
                    got = {}
                for t in range(nt):
                    i, n, off = (int(x) for x in r[3 * t:3 * t + 3])
                    got.setdefault(i, []).append((off, n))
            tile(got)
        else:
            tr = tdag.Trace(path)
            labels = tr.labels
            res = [[int(x) for x in r[4 * t:4 * t + 4]] for r in rounds for t in range(nt)]
            if kind == "fn":
                for _, _, idx, name in res:
                    check(idx < len(tr.functions) and tr.functions[idx] == b"fn%d" % name, "function fn%d was given the number %d", name, idx)
                eq(len(tr.functions), len({n for _, _, _, n in res}), "number of functions")
                eq(len(tr.events), len(res), "number of events")
            elif kind == "un":
                reach, _ = tdag.bitset_reach(labels)
                for l, r, x, _ in res:
                    check(x < len(labels) and reach[x] == reach[l] | reach[r], "labels %d and %d were combined into %d", l, r, x)
            else:
                used = {}
                got = []
                for _, n, f, l in res:
                    eq(l - f + 1, n, "labels of a read of %d bytes" % n)
                    d = tdag.dec(labels[f])
                    got.append((d[2], n))
                    for i in range(n):
                        check(f + i not in used, "label %d was handed out twice", f + i)
                        used[f + i] = 1
                        eq(tdag.dec(labels[f + i])[:3], ("S", 0, d[2] + i), "record of label %d" % (f + i))
                tile({0: got})
                eq(sorted(tr.index), list(range(1, len(labels))), "index of input labels")
    finally:
        ctx.rm(path)
    return True, [kind]


def tile(got):
    for i, l in got.items():
        at = 0
        for off, n in sorted(l):
            eq(off, at, "offset of the next part of stream %d" % i)
            at += n


BURST = st.fixed_dictionaries({"kind": st.sampled_from(["b8", "b64", "so", "so", "src", "fn", "un", "b64"]), "threads": st.integers(2, 5),
                               "seed": st.integers(0, 2 ** 31), "rounds": st.sampled_from([2000, 500])})
KINDS = ["read", "stream", "un", "mark", "log", "fn", "fx", "open", "mk", "sink", "ssink", "close"]


def cases(maxn):
    return st.fixed_dictionaries({
        "threads": st.integers(2, 6), "seed": st.integers(0, 2 ** 31), "pace": st.sampled_from([0, 0, 1, 20, 200]),
        "n": st.one_of(st.integers(3, 15), st.integers(3, maxn)),
        "kinds": st.one_of(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3), st.just(KINDS),
                           st.lists(st.sampled_from(KINDS), min_size=4, max_size=10))})


BCASE = st.fixed_dictionaries({
    "threads": st.integers(2, 6), "seed": st.integers(0, 2 ** 31), "pace": st.sampled_from([0, 0, 1, 20]), "n": st.integers(3, 120),
    "width": st.sampled_from([8, 64]), "dense": st.booleans(), "ranges": st.sampled_from([0, 0.2, 0.6])})

SUBS = [Sub("record", cases(150), record("mt", True), 3000, 60000, "2-6 threads concurrently reading, combining, marking, logging outputs, "
            "functions and control-flow events and opening sources, each with its own generated list; the trace is decoded and every "
            "answer and entry accounted for; non-trivial: more than 20 operations", workers=3, retries=5, replays=10),
        Sub("races", cases(40), record("mt-tsan", False), 2000, 40000, "the same (without marks) under ThreadSanitizer, which also "
            "reports unsynchronised access that did not happen to corrupt the trace; non-trivial as above", workers=4),
        Sub("bitmap", BCASE, bitmap("mt"), 2000, 40000, "threads setting single entries and ranges of one index; each entry is "
            "reported as new exactly once, all are set at the end and the size covers them; non-trivial: several threads", workers=3, retries=5, replays=10),
        Sub("burst", BURST, burst, 240, 20000, "rounds in which 2-5 threads released together do one operation each on the same index, "
            "stream, function table or label table; every round is accounted for; non-trivial: all", workers=2, alone=True, retries=8, replays=20, tbudget=600),
        Sub("bitmap-races", BCASE, bitmap("mt-tsan"), 1000, 20000, "the same under ThreadSanitizer", workers=4)]
