"""C08: intercepted reads label exactly the delivered bytes."""
import os
import random

from hypothesis import strategies as st

import tdag
from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["fread: only whole elements count as delivered (the contents of a partial element are indeterminate in C)",
               "streams in use are not pushed back into (ungetc), duplicated (dup) or reopened in place (freopen)",
               "receives use no MSG_PEEK/MSG_TRUNC; gets is not intercepted (the ABI list does not route it)"]

GETC = ["fgetc", "fgetc_unlocked", "_IO_getc", "getc", "getc_unlocked"]
GETCHAR = ["getchar", "getchar_unlocked"]
PAGE = 4096


def content(size, seed, nul=True):
    r = random.Random(seed)
    k = seed % 4
    if k == 0:
        d = r.randbytes(size)
    elif k == 1:
        d = bytes(r.choice(b"ab\n\0\0c") for _ in range(size))
    elif k == 2:
        d = bytes(r.choice(b"abcdefgh \n") for _ in range(size))
    else:
        d = bytes(r.choice(b"\0\xff\n\x80z") for _ in range(size))
    return d if nul else d.replace(b"\0", b"n")


class Sparse:
    """A file that starts with a large hole."""

    def __init__(self, hole, data):
        self.hole, self.data = hole, data

    def __len__(self):
        return self.hole + len(self.data)

    def __getitem__(self, s):
        a, b = max(0, s.start), min(s.stop, len(self))
        if b <= a:
            return b""
        return b"\0" * max(0, min(b, self.hole) - a) + self.data[max(0, a - self.hole):max(0, b - self.hole)]


def base(data):
    return data.hole if isinstance(data, Sparse) else 0


class Gen:
    """Turns abstract steps into executor operations plus expectations."""

    def __init__(self, case, d):
        self.d = d
        self.lines = []
        self.after = []  # (line index, function(answers))
        self.objs = []
        self.slots = {"fd": set(range(16)), "file": set(range(16))}
        self.maps = {}
        self.tags = set()
        self.files = {}
        for i, (size, seed, hole) in enumerate(case["files"]):
            name = "in%d" % i if i % 3 else "sub dir \u00e9%d" % i
            self.files[name] = content(size, seed)
            rt.paint(d, name, self.files[name])
            if hole:
                self.files[name] = Sparse(hole, self.files[name])
                with open(os.path.join(d, name), "r+b") as f:
                    f.truncate(0)
                    f.seek(hole)
                    f.write(self.files[name].data)
                    f.truncate(len(self.files[name]))
        self.fifo = None
        self.lab = {}      # arena address -> (name, offset), absent: unlabelled
        self.cur = {}      # the real labels
        self.given = set()  # every (name, offset) delivered from a tracked source
        self.dead = None
        self.socks = 0

    def emit(self, line, fn=None):
        self.lines.append(line)
        if fn:
            self.after.append((len(self.lines) - 1, fn))
        return len(self.lines) - 1

    def slot(self, kind):
        if not self.slots[kind]:
            return None
        s = min(self.slots[kind])
        self.slots[kind].discard(s)
        return s

    def add(self, **o):
        o.setdefault("src", None)
        o.setdefault("type", "reg")
        o["count"] = 0
        self.objs.append(o)
        return o

    def pick(self, n, kind, want=None):
        c = [o for o in self.objs if o["kind"] == kind and (want is None or want(o))]
        return c[n % len(c)] if c else None


class Checker:
    """Interprets the answers: the delivered bytes and what they must be labelled."""

    def __init__(self, g, run):
        self.g = g
        self.run = run
        self.t = run.trace()
        self.src = self.t.sources
        self.raw = self.t.labels
        self.cur = {}
        self.seen = set()

    def decode(self, l):
        if l == 0:
            return None
        check(l < len(self.raw), "label %d does not exist", l)
        k, a, b, cf = tdag.dec(self.raw[l])
        check(k == "S", "label %d of a read is not an input label", l)
        check(a < len(self.src), "label %d names source %d of %d", l, a, len(self.src))
        return (os.fsdecode(self.src[a][0]), b)

    def diff(self, i, want, may=()):
        """Operation i changed exactly these labels: want maps addresses to (name, offset) or None."""
        a = self.run.ans[i]
        for addr, l in a.L.items():
            if addr not in want:
                check(addr in may and l == 0, "operation %d (%s) changed the label of byte %d outside the delivered data",
                      i, self.run.ops[i], addr)
        self.cur.update(a.L)
        for addr, w in want.items():
            got = self.decode(self.cur.get(addr, 0))
            if got != w:
                raise Violation("operation %d (%s): byte at %d is labelled %s, want %s" % (i, self.run.ops[i], addr, got, w))

    def deliver(self, o, pos, n):
        """Names of n bytes read from o, at file position pos or the stream's count."""
        if o["src"] is None:
            return [None] * n
        if o["type"] == "stream":
            pos = o["count"]
            o["count"] += n
        r = [(o["src"], pos + k) for k in range(n)]
        self.seen.update(r)
        return r


def steps(g, case):
    """Emits the operations; returns a list of (index, check function)."""
    todo = []

    def tell(o):
        if o["kind"] == "fd":
            return g.emit("tell %s" % o["ref"])
        return g.emit("ftell %s" % o["ref"])

    def posof(c, i):
        r = c.run.ans[i].r
        return int(r.split("/")[0])

    def data_ok(c, o, pos, got, i):
        if o["type"] == "reg" and o.get("data") is not None:
            eq(got, o["data"][pos:pos + len(got)], "operation %d (%s): delivered bytes" % (i, c.run.ops[i]))

    def arena(c, i, at, n, mem):
        mem.update(c.run.ans[i].D)
        return bytes(mem.get(at + k, 0) for k in range(n))

    mem = {}

    def track(i, fn):
        todo.append((i, fn))

    def quiet(i):
        def f(c):
            mem.update(c.run.ans[i].D)
            c.diff(i, {})
        track(i, f)

    inv = case["stdin"]
    if inv[0]:
        sdata = content(inv[2], inv[3], nul=inv[0] != 1)
        g.stdin_data = sdata
        for kind, ref in (("file", "i"),):
            g.add(kind=kind, ref=ref, src="/dev/stdin" if inv[1] else None, type="stream" if inv[0] == 1 else "reg",
                  data=sdata, std=True, pending=len(sdata))
    names = list(g.files)
    for k, x, y, z, w in [[0, 0, 1, case["pre"], 1], [1, 1, 2, case["pre"], case["pre"]]][:case["pre"] % 3] + case["ops"]:
        if k == 0 or (k == 1 and not names):  # open a descriptor
            if not names:
                continue
            s = g.slot("fd")
            if s is None:
                continue
            n = names[x % len(names)]
            raw = y % 5 == 0
            v = ["o", "64", "at"][z % 3]
            pth = n if z % 2 else os.path.join(g.d, n)
            if raw:
                i = g.emit("rawopen %d %s %d 0" % (s, hx(pth.encode()), os.O_RDONLY))
            else:
                i = g.emit("open %d %s %d 0 %s" % (s, hx(pth.encode()), [os.O_RDONLY, os.O_RDWR][w % 2], v))
            quiet(i)
            o = g.add(kind="fd", ref=str(s), slot=s, src=None if raw else pth, data=g.files[n], opened=i)
            if base(o["data"]):
                quiet(g.emit("lseek %d %d 0" % (s, base(o["data"]))))
                g.tags.add("sparse")
        elif k == 1:
            s = g.slot("file")
            if s is None:
                continue
            n = names[x % len(names)]
            pth = n if z % 2 else os.path.join(g.d, n)
            m = ["r", "r+", "rb", "a+"][w % 4]
            if y % 6 == 0:
                i = g.emit("rawfopen %d %s %s" % (s, hx(pth.encode()), m))
                src = None
            elif y % 6 == 1:
                at = 7000 + (z % 100)
                i = g.emit("fmemopen %d a%d %d" % (s, at, 1 + w % 200))
                src, pth = None, None
            else:
                i = g.emit("fopen %d %s %s %s" % (s, hx(pth.encode()), m, ["-", "64"][z % 2]))
                src = pth
            quiet(i)
            o = g.add(kind="file", ref=str(s), slot=s, src=src, data=g.files[n] if pth else None)
            if w % 5 == 0 and pth:
                quiet(g.emit("setvbuf %d %d %d" % (s, w % 3, 1 + z % 300)))
            if pth and base(o["data"]):
                quiet(g.emit("fseek %d %d 0" % (s, base(o["data"]))))
                g.tags.add("sparse")
        elif k == 2:  # close
            kind = ["fd", "file"][x % 2]
            o = g.pick(y, kind, lambda o: not o.get("std"))
            if o is None or o.get("keep"):
                continue
            op = ("close" if kind == "fd" else "fclose")
            quiet(g.emit("%s %s" % (op, o["ref"])))
            g.objs.remove(o)
            g.slots[kind].add(o["slot"])
            g.tags.add("closed")
        elif k == 3:  # seek
            kind = ["fd", "file"][x % 2]
            o = g.pick(y, kind, lambda o: o["type"] == "reg" and not o.get("std"))
            if o is None:
                continue
            b = base(o["data"])
            size = len(o["data"]) - b if o["data"] else 50
            to = z % (size + 20)
            if b and w % 3:
                to += b - z % 9
            if kind == "fd":
                quiet(g.emit("lseek %s %d %d" % (o["ref"], to, 0 if w % 3 else 1)))
            else:
                quiet(g.emit("fseek %s %d %d" % (o["ref"], to, 0 if w % 3 else 1)))
            g.tags.add("seek")
        elif k in (4, 5, 6):  # read / pread
            o = g.pick(x, "fd", (lambda o: o["type"] == "stream") if w % 2 else None) or g.pick(x, "fd")
            if o is None:
                continue
            at, n = y % 3000, z
            if o["type"] == "stream":
                if o.get("pending", 0) <= 0:
                    continue
                n = max(1, n)
                i0 = None
            else:
                i0 = tell(o)
                quiet(i0)
            if k == 6 and o["type"] == "reg":
                size = len(o["data"]) - base(o["data"])
                off = w * 7 % (size + 10) + (base(o["data"]) if w % 5 else 0)
                i = g.emit("pread %s a%d %d %d %s" % (o["ref"], at, n, off if w % 11 else -5, ["o", "64"][x % 2]))
                fixed = off
            elif o.get("sock") and w % 3:
                i = g.emit("recv %s a%d %d %d %s" % (o["ref"], at, n, 0x40, ["-", "from"][w % 2]))
                fixed = None
                g.tags.add("recv")
            else:
                i = g.emit("read %s a%d %d" % (o["ref"], at, n))
                fixed = None
            if o["type"] == "stream":
                if o.get("dgram"):
                    o["queue"].pop(0)
                    o["pending"] = len(o["queue"])
                else:
                    o["pending"] -= min(n, o["pending"])

            def f(c, o=o, i0=i0, i=i, at=at, fixed=fixed):
                r = int(c.run.ans[i].r)
                n = max(r, 0)
                pos = fixed if fixed is not None else (posof(c, i0) if i0 is not None else 0)
                got = arena(c, i, at, n, mem)
                data_ok(c, o, pos, got, i)
                d = c.deliver(o, pos, n)
                c.diff(i, {at + k: v for k, v in enumerate(d)})
                eq(c.run.ans[i].rl, 0, "label of the return value of operation %d" % i)
            track(i, f)
            g.tags.add("read" if o["src"] else "untracked")
        elif k == 7:  # fread
            o = g.pick(x, "file")
            if o is None:
                continue
            at, size, cnt = y % 3000, [1, 1, 2, 3, 7, 16, 0][w % 7], z % 700
            cnt = min(cnt, 5000 // max(1, size))
            i0 = tell(o)
            quiet(i0)
            i = g.emit("fread %s a%d %d %d %s" % (o["ref"], at, size, cnt, ["-", "u"][x % 2]))

            def f(c, o=o, i0=i0, i=i, at=at, size=size):
                n = int(c.run.ans[i].r) * size
                pos = posof(c, i0)
                got = arena(c, i, at, n, mem)
                data_ok(c, o, pos, got, i)
                d = c.deliver(o, pos, n)
                c.diff(i, {at + k: v for k, v in enumerate(d)})
                eq(c.run.ans[i].rl, 0, "label of the return value of operation %d" % i)
            track(i, f)
            g.tags.add("fread" if o["src"] else "untracked")
        elif k == 8:  # getc family
            o = g.pick(x, "file")
            if o is None:
                continue
            v = (GETCHAR if o.get("std") and w % 2 else GETC)
            for _ in range(1 + z % 3):
                i0 = tell(o)
                quiet(i0)
                at = y % 3000
                i = g.emit("getc %s %s %d" % (o["ref"], v[z % len(v)], at))

                def f(c, o=o, i0=i0, i=i, at=at):
                    r = int(c.run.ans[i].r)
                    n = 1 if r >= 0 else 0
                    pos = posof(c, i0)
                    mem.update(c.run.ans[i].D)
                    if n:
                        data_ok(c, o, pos, bytes([r]), i)
                    d = c.deliver(o, pos, n)
                    eq(c.decode(c.run.ans[i].rl), d[0] if n else None, "label of the character read by operation %d" % i)
                    c.diff(i, {at: d[0]} if n else {})
                track(i, f)
            g.tags.add("getc" if o["src"] else "untracked")
        elif k == 9:  # fgets
            o = g.pick(x, "file")
            if o is None:
                continue
            at, n = y % 3000, 1 + z % 400 if z % 7 else 1 + z % 4
            i0 = tell(o)
            quiet(i0)
            i = g.emit("fgets %s a%d %d" % (o["ref"], at, n))
            i1 = tell(o)

            def f(c, o=o, i0=i0, i=i, i1=i1, at=at):
                a = c.run.ans[i]
                n = 0
                pos = posof(c, i0)
                before = bytes(mem.get(at + k, 0) for k in range(5000))
                mem.update(a.D)
                if a.r != "null":
                    if o["type"] == "reg" and pos >= 0:
                        n = posof(c, i1) - pos
                    else:
                        n = bytes(mem.get(at + k, 0) for k in range(5000)).index(0)
                    data_ok(c, o, pos, bytes(mem.get(at + k, 0) for k in range(n)), i)
                del before
                d = c.deliver(o, pos, n)
                # the terminator is not input: it may keep no label but the old one
                c.diff(i, {at + k: v for k, v in enumerate(d)}, may={at + n} if a.r != "null" else ())
                c.diff(i1, {})
            track(i, f)
            g.tags.add("fgets" if o["src"] else "untracked")
        elif k == 10:  # getdelim
            o = g.pick(x, "file")
            if o is None:
                continue
            i0 = tell(o)
            quiet(i0)
            i = g.emit("getdelim %s %d %d %s" % (o["ref"], y % 4, [10, 0, 255, 97, -1][z % 5], ["-", "__"][w % 2]))

            def f(c, o=o, i0=i0, i=i):
                a = c.run.ans[i]
                n = max(0, int(a.r))
                pos = posof(c, i0)
                if n:
                    data_ok(c, o, pos, a.B[:n], i)
                d = c.deliver(o, pos, n)
                if n:
                    eq([c.decode(l) for l in a.BL], d, "labels of the line read by operation %d" % i)
                c.diff(i, {})
                eq(a.rl, 0, "label of the return value of operation %d" % i)
            track(i, f)
            g.tags.add("getdelim" if o["src"] else "untracked")
        elif k == 11:  # mmap
            o = g.pick(x, "fd", lambda o: o["type"] == "reg")
            m = [m for m in range(8) if m not in g.maps]
            if o is None or not m:
                continue
            size = len(o["data"])
            off = (y % 4) * PAGE if y % 3 else 0
            off += base(o["data"])
            ln = 1 + z % 9000 if z % 4 else max(1, size - off)
            if w % 13 == 12:
                off += 100  # misaligned: fails
            anon = w % 9 == 8
            fl = [2, 1][w % 2] | (0x20 if anon else 0)
            i = g.emit("mmap %d %d 1 %d %s %d" % (m[0], ln, fl, o["ref"], off))
            if off % PAGE == 0:
                g.maps[m[0]] = ln

            def f(c, o=o, i=i, off=off, ln=ln, size=size, anon=anon):
                a = c.run.ans[i]
                c.diff(i, {})
                eq(a.rl, 0, "label of the return value of operation %d" % i)
                if a.r == "failed":
                    return
                n = 0 if anon else max(0, min(ln, size - off))
                d = c.deliver(o, off, n)
                eq([c.decode(l) for l in a.BL], d + [None] * (ln - n), "labels of the mapping of operation %d (%s)" % (i, c.run.ops[i]))
            track(i, f)
            g.tags.add("mmap")
        elif k == 12:  # munmap
            if not g.maps:
                continue
            m = sorted(g.maps)[x % len(g.maps)]
            if y % 3 == 0:
                i = g.emit("mlab %d" % m)
                j = g.emit("munmap %d -1 100" % m)  # fails

                def f(c, i=i, j=j):
                    eq(c.run.ans[j].r, "-1", "munmap of a misaligned address")
                    eq(c.run.ans[j].BL, c.run.ans[i].BL, "labels after a failed munmap")
                    c.diff(i, {})
                    c.diff(j, {})
                track(j, f)
            else:
                del g.maps[m]
                j = g.emit("munmap %d -1 0" % m)

                def f(c, j=j):
                    eq(c.run.ans[j].r, "0", "munmap")
                    check(not any(c.run.ans[j].BL), "labels stay after munmap")
                    c.diff(j, {})
                track(j, f)
        elif k == 13:  # a stream without a position: fifo
            if g.fifo is None:
                s = g.slot("fd")
                if s is None:
                    continue
                os.mkfifo(os.path.join(g.d, "fifo"))
                i = g.emit("open %d %s %d 0 o" % (s, hx(b"fifo"), os.O_RDWR))
                quiet(i)
                g.fifo = g.add(kind="fd", ref=str(s), slot=s, src="fifo", type="stream", pending=0, keep=True)
            quiet(g.emit("poke 4000 %s" % hx(content(1 + y % 300, z + 2))))
            i = g.emit("lab 4000 %d 0 0" % (1 + y % 300))
            track(i, lambda c, i=i: c.cur.update(c.run.ans[i].L))
            i = g.emit("write %s a4000 %d" % (g.fifo["ref"], 1 + y % 300))
            g.fifo["pending"] += 1 + y % 300
            quiet(i)
            g.tags.add("fifo")
        elif k == 14 and not case.get("nonet"):  # sockets
            so = g.pick(x, "fd", lambda o: o.get("sock"))
            if so is None or (w % 6 == 0 and g.socks < 3):
                if len(g.slots["fd"]) < 3:
                    continue
                g.socks += 1
                s1, s2 = g.slot("fd"), g.slot("fd")
                if w % 4 == 0:
                    i = g.emit("udp %d %d" % (s1, s2))
                    j = i
                    kind = True
                else:
                    s3 = g.slot("fd")
                    quiet(g.emit("listen %d" % s3))
                    i = g.emit("connect %d %d" % (s1, s3))
                    j = g.emit("accept %d %d %s" % (s2, s3, ["-", "4", "n"][w % 3]))
                    quiet(j)
                    quiet(g.emit("close %d" % s3))
                    g.slots["fd"].add(s3)
                    kind = False
                o1 = g.add(kind="fd", ref=str(s1), slot=s1, src="?", type="stream", pending=0, sock=True, dgram=kind, queue=[], keep=True)
                o2 = g.add(kind="fd", ref=str(s2), slot=s2, src="?", type="stream", pending=0, sock=True, dgram=kind, queue=[], keep=True)
                o1["peer"], o2["peer"] = o2, o1

                def f(c, i=i, j=j, o1=o1, o2=o2, kind=kind):
                    eq(c.run.ans[i].r, "0", "connecting a socket")
                    o1["src"] = c.run.ans[i].S
                    o2["src"] = c.run.ans[i].T if kind else c.run.ans[j].S
                    c.diff(i, {})
                track(i, f)
                so = o1
            n = 1 + y % 500
            at = 4600
            quiet(g.emit("poke %d %s" % (at, hx(content(n, z + 2)))))
            quiet(g.emit("send %s a%d %d 0" % (so["ref"], at, n)))
            p = so["peer"]
            if p["dgram"]:
                p["queue"].append(n)
                p["pending"] = len(p["queue"])
            else:
                p["pending"] += n
            g.tags.add("socket")
        elif k == 15:  # failing reads
            at = y % 3000
            which = z % 4
            if which == 0:
                i = g.emit("read #-1 a%d 20" % at)
            elif which == 1:
                i = g.emit("read #777 a%d 20" % at)
            elif which == 2:
                i = g.emit("pread #777 a%d 20 0 o" % at)
            else:
                i = g.emit("mmap 7 100 1 2 #777 0")

            def f(c, i=i):
                check(c.run.ans[i].r in ("-1", "failed"), "a call on a bad descriptor succeeded")
                c.diff(i, {})
                eq(c.run.ans[i].rl, 0, "label of the return value of operation %d" % i)
            track(i, f)
        elif k == 16:  # untracked stream sockets and pipes
            if len(g.slots["fd"]) < 2:
                continue
            s1, s2 = g.slot("fd"), g.slot("fd")
            quiet(g.emit("%s %d %d" % (["unixpair", "pipe"][w % 2], s1, s2)))
            n = 1 + y % 100
            quiet(g.emit("write %d a%d %d" % (s2, z % 3000, n)))
            g.add(kind="fd", ref=str(s1), slot=s1, type="stream", pending=n)
            g.add(kind="fd", ref=str(s2), slot=s2, type="stream", pending=0)
    return todo


def execute(case, ctx):
    d = ctx.mkdir()
    try:
        g = Gen(case, d)
        g.emit("start")
        todo = steps(g, case)
        inv = case["stdin"]
        stdin, env = "-", {}
        if inv[0] == 1:
            stdin = "p:" + hx(g.stdin_data)
        elif inv[0] == 2:
            stdin = "f:" + hx(rt.paint(d, "stdin", g.stdin_data).encode())
        if inv[0] and inv[1]:
            env["POLYTRACKER_STDIN_SOURCE"] = "1"
        run = rt.Run(ctx, d, g.lines, env=env, stdin=stdin).require()
        c = Checker(g, run)
        for i, fn in sorted(todo, key=lambda t: t[0]):
            fn(c)
        for l, v in enumerate(c.raw):
            if l and tdag.dec(v)[0] == "S":
                w = c.decode(l)
                check(w in c.seen, "the trace has a label for %s, which was never delivered", w)
        return g, c
    finally:
        ctx.rm(d)


def run(case, ctx):
    g, c = execute(case, ctx)
    return len(c.seen) > 2, sorted(g.tags)


def known_findings(ctx):
    """fgets on a stream without a position cannot see data after a null byte."""
    d = ctx.mkdir()
    try:
        r = rt.Run(ctx, d, ["start", "fgets i a0 20"], stdin="p:" + hx(b"a\0b\nrest"),
                   env={"POLYTRACKER_STDIN_SOURCE": "1"}).require()
        if sorted(r.ans[1].L) == [0]:
            yield "fgets on a pipe labels only the bytes before an embedded null byte (a\\0b: 1 of 4 bytes labelled)"
    finally:
        ctx.rm(d)


B = st.integers(0, 2 ** 16)
SMALL = st.integers(0, 40)


def op(k):
    n = st.one_of(st.integers(0, 40), st.integers(0, 700), st.sampled_from([0, 1, 4096, 5000]))
    return st.tuples(st.just(k), SMALL, st.integers(0, 3500), n, SMALL).map(list)


WEIGHTS = [0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 8, 9, 9, 10, 11, 12, 13, 14, 14, 15, 16]
CASE = st.fixed_dictionaries({
    "files": st.lists(st.tuples(st.one_of(st.integers(0, 60), st.integers(0, 900), st.sampled_from([4096, 4097, 8191, 9000])),
                                st.integers(0, 1000), st.sampled_from([0] * 12 + [1 << 16, 1 << 20, 1 << 31, 1 << 32, 5 << 32, 1 << 40])
                                ).map(list), min_size=1, max_size=3),
    "stdin": st.tuples(st.integers(0, 2), st.integers(0, 1), st.integers(0, 300), st.integers(0, 100)).map(list),
    "pre": st.sampled_from([2, 5, 4, 8, 11, 3]),
    "ops": st.lists(st.sampled_from(WEIGHTS).flatmap(op), min_size=4, max_size=30),
})



def streams(case, ctx):
    _, _, rs, gr, nt, tags = rt.streams(case, ctx)
    eq(gr, rs, "labels of the bytes read (source, offset)")
    return nt and bool(rs), tags


SUBS = [Sub("reads", CASE, run, 6000, 300000, "histories of opening, seeking, reading through every intercepted input call, "
            "closing and reusing descriptors on files, stdin, a fifo, TCP/UDP sockets, mappings and untracked streams, run "
            "on the real runtime; every label of the arena is compared after every call; non-trivial: more than two bytes "
            "delivered from a tracked source"),
        Sub("streams", rt.streams_cases(), streams, 300, 20000, "up to six fifos anywhere in a table of up to 240 sources, written and "
            "read alternately; non-trivial: several fifos, bytes read")]
