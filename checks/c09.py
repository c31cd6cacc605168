"""C09: intercepted writes log exactly the tainted bytes that were written, where they landed."""
import os
from collections import Counter

from hypothesis import strategies as st

from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["what counts as written is the call's return value (data accepted into a stream's buffer is written)",
               "a file is written through one stream at a time; descriptors may share a file",
               "streams are not duplicated (dup) or reopened in place (freopen); destinations are files, fifos, pipes and "
               "AF_INET sockets (character devices have no meaningful offset)",
               "the log has room (about a million entries, see C16)"]

NIN = 600  # tracked input bytes, their labels are 1..NIN
BUF = 2000  # arena region [BUF, ASIZE) holds the data to write


class World:
    def __init__(self, case, d):
        self.d = d
        self.lines = ["start"]
        self.todo = []
        self.files = {}
        self.fds = {}
        self.fss = {}
        self.freef = set(range(16))
        self.frees = set(range(16))
        self.mem = bytearray(rt.ASIZE)
        self.lab = [0] * rt.ASIZE
        self.want = Counter()
        self.tags = set()
        self.socks = []
        self.nbytes = 0

    def emit(self, line):
        self.lines.append(line)
        return len(self.lines) - 1


class Obj:
    def __init__(self, **k):
        self.src = None      # destination name, None: untracked
        self.file = None     # name in World.files
        self.pos = 0
        self.append = False
        self.stream = False
        self.count = 0
        self.r = self.w = True
        self.actual = False
        self.__dict__.update(k)


MODES = {"w": (0, 1, 1, 0), "w+": (1, 1, 1, 0), "a": (0, 1, 0, 1), "a+": (1, 1, 0, 1), "r+": (1, 1, 0, 0), "r": (1, 0, 0, 0)}
NAMES = ["out0", "out1", "d \u00fc/out2"]


def put(W, o, n, labels, data):
    """n bytes went to o: the expected log entries (and file contents)."""
    if n <= 0:
        return
    if o.stream:
        at = o.count
        o.count += n
    else:
        f = W.files.get(o.file)
        if o.append:
            o.pos = len(f)
        at = o.pos
        if f is not None:
            if at > len(f):
                f.extend(bytes(at - len(f)))
            f[at:at + n] = data[:n]
        o.pos += n
    if o.src is not None:
        for k in range(n):
            if labels[k]:
                W.want[(o.src, at + k, labels[k])] += 1
                W.nbytes += 1


def steps(W, case):
    def pick(d, x, want=None):
        c = [o for k, o in sorted(d.items()) if want is None or want(o)]
        return c[x % len(c)] if c else None

    def later(i, fn):
        W.todo.append((i, fn))

    limited = [False]
    for k, x, y, z, w in [[0, 0, 1, 1, 1], [1, 1, 1, 0, 0], [8, 1, 5, 40, 3]][:case["pre"]] + case["ops"]:
        if k == 0:  # open a descriptor
            if len(W.freef) < 4:
                continue
            name = NAMES[x % 3]
            if any(o.file == name for o in W.fss.values()):
                continue
            acc = [os.O_WRONLY, os.O_RDWR, os.O_RDONLY, os.O_WRONLY][y % 4]
            fl = acc | (os.O_CREAT if z % 2 or name not in W.files else 0) | (os.O_APPEND if w % 3 == 0 else 0)
            if w % 4 == 0 and acc != os.O_RDONLY and not any(o.file == name for o in W.fds.values()):
                fl |= os.O_TRUNC
            s = min(W.freef)
            W.freef.discard(s)
            raw = w % 7 == 6
            path = name if z % 2 else os.path.join(W.d, name)
            if raw:
                W.emit("rawopen %d %s %d %d" % (s, hx(path.encode()), fl, 0o644))
            else:
                W.emit("open %d %s %d %d %s" % (s, hx(path.encode()), fl, 0o644, ["o", "64", "at"][z % 3]))
            f = W.files.setdefault(name, bytearray())
            if fl & os.O_TRUNC:
                later(len(W.lines) - 1, lambda r, f=f: f.__delitem__(slice(None)))
            W.fds[s] = Obj(src=None if raw else path, file=name, append=bool(fl & os.O_APPEND), ref=str(s),
                           w=acc != os.O_RDONLY, r=acc != os.O_WRONLY)
        elif k == 1:  # open a stream
            name = NAMES[x % 3]
            if not W.frees or any(o.file == name for o in list(W.fds.values()) + list(W.fss.values())):
                continue
            m = sorted(MODES)[y % 6]
            if limited[0] and w % 12:
                continue
            r, wr, tr, ap = MODES[m]
            if name not in W.files:
                if m[0] == "r":
                    continue
                W.files[name] = bytearray()
            s = min(W.frees)
            W.frees.discard(s)
            raw = w % 7 == 6
            path = name if z % 2 else os.path.join(W.d, name)
            W.emit(("rawfopen %d %s %s" if raw else "fopen %d %s %s " + ["-", "64"][z % 2]) % (s, hx(path.encode()), m))
            if tr:
                later(len(W.lines) - 1, lambda r, f=W.files[name]: f.__delitem__(slice(None)))
            W.fss[s] = Obj(src=None if raw else path, file=name, append=bool(ap), ref=str(s), r=bool(r), w=bool(wr),
                           unbuf=w % 12 == 0)
            if w % 12 == 0:
                W.emit("setvbuf %d 2 1" % s)
            elif w % 3 == 0:
                W.emit("setvbuf %d %d %d" % (s, w % 4 % 3, [1, 16, 4096, 100][z % 4]))
        elif k == 2:  # close
            d = [W.fds, W.fss][x % 2]
            o = pick(d, y, lambda o: not o.stream and not o.actual)
            if o is None:
                continue
            i = W.emit("%s %s" % (["close", "fclose"][x % 2], o.ref))
            later(i, lambda r, i=i: eq(r.ans[i].r, "0", "closing"))
            del d[int(o.ref)]
            [W.freef, W.frees][x % 2].add(int(o.ref))
            W.tags.add("closed")
        elif k == 3:  # seek
            d = [W.fds, W.fss][x % 2]
            o = pick(d, y, lambda o: not o.stream and not o.actual)
            if o is None:
                continue
            size = len(W.files[o.file])
            pos = z % (max(size, 100) + 30)
            i = W.emit("%s %s %d 0" % (["lseek", "fseek"][x % 2], o.ref, pos))
            later(i, lambda r, o=o, pos=pos: setattr(o, "pos", pos))
            W.tags.add("seek")
        elif k == 4:  # the program changes its data
            off = BUF + y % 5000
            n = 1 + z % 300
            data = bytes((x * 7 + j * (1 + w)) & 255 for j in range(n))
            W.emit("poke %d %s" % (off, hx(data)))
            W.mem[off:off + n] = data
        elif k == 5:  # ... and its labels
            off = BUF + y % 5500
            n = 1 + z % 400
            l, stp = (0, 0) if w % 4 == 0 else (1 + x * 5 % 200, w % 2)
            W.emit("lab %d %d %d %d" % (off, n, l, stp))
            for j in range(n):
                W.lab[off + j] = l + j * stp
        elif k in (6, 7):  # write / send on a descriptor
            o = pick(W.fds, x, (lambda o: o.stream) if w % 3 == 1 else None) or pick(W.fds, x)
            if o is None:
                continue
            off, n = BUF + y % 3000, z % 3000 if z % 5 else z % 4
            nul = w % 17 == 16 and o.stream
            if nul:
                i = W.emit("write %s n %d" % (o.ref, 1 + n))
            elif getattr(o, "sock", False) and w % 2:
                i = W.emit("send %s a%d %d %d" % (o.ref, off, n, 0x4040 if w % 3 else 0x40))
            else:
                i = W.emit("write %s a%d %d" % (o.ref, off, n))
            labels, data = W.lab[off:off + n], bytes(W.mem[off:off + n])

            def f(r, o=o, i=i, n=n, labels=labels, data=data, nul=nul, lim=limited[0]):
                got = int(r.ans[i].r)
                check(got <= n or nul, "wrote more than asked for")
                if not nul and o.w and not o.stream and not lim:
                    eq(got, n, "result of operation %d (%s)" % (i, r.ops[i]))
                if not o.w or nul:
                    if not (nul and o.w) or got != 0:
                        eq(got, -1, "result of a write that cannot succeed (%s)" % r.ops[i])
                put(W, o, got, labels, data)
                if got < n and o.w:
                    W.tags.add("partial" if got > 0 else "failed")
            later(i, f)
            W.tags.add("write" if not o.stream else "stream-write")
        elif k == 8:  # fwrite
            o = pick(W.fss, x)
            if o is None:
                continue
            if limited[0] and o.append:
                continue  # see known_findings
            size = [1, 1, 2, 3, 8, 0][w % 6] if not limited[0] else 1
            cnt = min(z, 3000 // max(size, 1))
            off = BUF + y % 3000
            if o.r and o.w:
                i = W.emit("fseek %s 0 1" % o.ref)  # switching directions needs this
            i = W.emit("fwrite %s a%d %d %d" % (o.ref, off, size, cnt))
            n = size * cnt
            labels, data = W.lab[off:off + n], bytes(W.mem[off:off + n])

            def f(r, o=o, i=i, size=size, cnt=cnt, labels=labels, data=data, lim=limited[0]):
                got = int(r.ans[i].r)
                if not lim:
                    eq(got, cnt if o.w and size else 0, "result of operation %d (%s)" % (i, r.ops[i]))
                put(W, o, got * size, labels, data)
            later(i, f)
            if o.actual:
                W.emit("fflush %s" % o.ref)
            W.tags.add("fwrite" if not o.stream else "stream-fwrite")
        elif k == 9:  # putc
            o = pick(W.fss, x)
            if o is None:
                continue
            if o.r and o.w:
                W.emit("fseek %s 0 1" % o.ref)
            for q in range(1 + z % 3):
                ch = [65, 0, 255, -1, 256 + 66, -128, 10][(y + q) % 7]
                l = (1 + (z + q) % 500) if w % 3 else 0
                i = W.emit("putc %s %d %d %s" % (o.ref, ch, l, ["putc", "fputc"][w % 2]))

                def f(r, o=o, i=i, l=l, ch=ch, lim=limited[0]):
                    if not lim:
                        eq(int(r.ans[i].r), (ch & 255) if o.w else -1, "result of operation %d (%s)" % (i, r.ops[i]))
                    put(W, o, int(r.ans[i].r) >= 0, [l], bytes([ch & 255]))
                later(i, f)
            if o.actual:
                W.emit("fflush %s" % o.ref)
            W.tags.add("putc")
        elif k == 10:  # read moves the position too
            o = pick(W.fds, x, lambda o: o.r and not o.stream and not o.actual and o.file)
            if o is None:
                continue
            n = z % 100
            W.emit("lab 1000 100 0 0")
            i = W.emit("read %s a1000 %d" % (o.ref, n))

            def f(r, o=o, i=i):
                o.pos += int(r.ans[i].r)
            later(i, f)
        elif k == 11:  # a fifo, written until it is full
            if "fifo" in W.tags or len(W.freef) < 4 or not W.frees:
                continue
            W.tags.add("fifo")
            os.mkfifo(os.path.join(W.d, "fifo"))
            s = min(W.freef)
            W.freef.discard(s)
            if w % 2:
                W.emit("open %d %s %d 0 o" % (s, hx(b"fifo"), os.O_RDWR | os.O_NONBLOCK))
                W.fds[s] = Obj(src="fifo", stream=True, ref=str(s))
            else:
                W.emit("rawopen %d %s %d 0" % (s, hx(b"fifo"), os.O_RDWR | os.O_NONBLOCK))
                t = min(W.frees)
                W.frees.discard(t)
                W.emit("fopen %d %s w -" % (t, hx(b"fifo")))
                W.fss[t] = Obj(src="fifo", stream=True, ref=str(t), r=False)
                W.fifo_budget = 60000
        elif k == 12:  # sockets
            if len(W.socks) >= 2 or len(W.freef) < 5:
                continue
            s1, s2, s3 = sorted(W.freef)[:3]
            if w % 3 == 0:
                W.freef -= {s1, s2}
                i = j = W.emit("udp %d %d" % (s1, s2))
            else:
                W.freef -= {s1, s2}
                W.emit("listen %d" % s3)
                i = W.emit("connect %d %d" % (s1, s3))
                j = W.emit("accept %d %d %s" % (s2, s3, ["-", "4", "n"][w % 3]))
                W.emit("rawclose %d" % s3)
            o1 = W.fds[s1] = Obj(src="?", stream=True, ref=str(s1), sock=True)
            o2 = W.fds[s2] = Obj(src="?", stream=True, ref=str(s2), sock=True)
            W.socks.append(s1)

            def f(r, i=i, j=j, o1=o1, o2=o2):
                eq(r.ans[i].r, "0", "connecting")
                o1.src = r.ans[i].S
                o2.src = r.ans[j].T if i == j else r.ans[j].S
            later(j, f)
            W.tags.add("socket")
        elif k == 13:  # descriptors that are not open
            off = BUF + y % 3000
            i = W.emit(["write #777 a%d 20", "write #-1 a%d 20", "send #777 a%d 20 0"][z % 3] % off)
            later(i, lambda r, i=i: eq(r.ans[i].r, "-1", "a write to a bad descriptor"))
        elif k == 14:  # short writes: no file may grow beyond the limit
            if limited[0]:
                W.emit("limit -")
                limited[0] = False
            elif all(getattr(o, "unbuf", False) for o in W.fss.values()):
                size = 500
                W.emit("limit %d" % (z % (size + 2000) + 1))
                limited[0] = True
                W.tags.add("limit")
        elif k == 15:  # untracked pair
            if len(W.freef) < 4:
                continue
            s1, s2 = sorted(W.freef)[:2]
            W.freef -= {s1, s2}
            W.emit("%s %d %d" % (["unixpair", "pipe"][w % 2], s1, s2))
            W.fds[s2] = Obj(stream=True, ref=str(s2))
            if w % 2 == 0:
                W.fds[s1] = Obj(stream=True, ref=str(s1))
        elif k in (16, 17) and case["std"][0] and not limited[0]:  # standard output, standard error
            fd, tracked, kind = ("o", case["std"][1], case["std"][0]) if k == 16 else ("e", case["std"][2], case["std"][3])
            off, n = BUF + y % 3000, 1 + z % 400
            labels, data = W.lab[off:off + n], bytes(W.mem[off:off + n])
            num = 1 if k == 16 else 2
            if k == 17 and not kind:
                continue
            o = W.std.setdefault(fd, Obj(src=["/dev/stdout", "/dev/stderr"][num - 1] if tracked else None,
                                         stream=kind == 3, file=None, ref=fd, append=False, kind=kind))
            how = w % 3
            W.emit("fflush %s" % fd)
            t = W.emit("lseek #%d 0 %d" % (num, 2 if kind == 2 else 1))
            if how == 0:
                i = W.emit("write #%d a%d %d" % (num, off, n))
            elif how == 1:
                i = W.emit("fwrite %s a%d 1 %d" % (fd, off, n))
            else:
                n = 1
                labels, data = [z % 300], b"A"
                i = W.emit("putc %s 65 %d putc" % (fd, z % 300))
            W.emit("fflush %s" % fd)

            def f(r, o=o, i=i, t=t, n=n, labels=labels, data=data, how=how, kind=kind, num=num):
                if not o.stream:
                    o.pos = int(r.ans[t].r)
                    W.stdput.append((num, o.pos, data))
                eq(int(r.ans[i].r), n if how != 2 else 65, "result of operation %d (%s)" % (i, r.ops[i]))
                put(W, o, n, labels, data)
            later(i, f)
            W.tags.add("std")


def run(case, ctx):
    d = ctx.mkdir()
    try:
        os.mkdir(os.path.join(d, "d \u00fc"))
        W = World(case, d)
        W.std, W.stdput = {}, []
        rt.paint(d, "input", bytes(range(1, 201)) * 3)
        W.emit("open 15 %s 0 0 o" % hx(b"input"))
        W.emit("read 15 a0 %d" % NIN)
        W.emit("close 15")
        for name in NAMES[:case["existing"]]:
            data = bytes(range(65, 91)) * (case["existing"] * 3)
            rt.paint(d, name, data)
            W.files[name] = bytearray(data)
        nl = len(W.lines)
        for off, n, l, stp in [(BUF, 550, 1, 1), (3001, 500, 7, 0), (4100, 580, 3, 1), (5200, 1500, 9, 0)]:
            W.emit("lab %d %d %d %d" % (off, n, l, stp))
            W.lab[off:off + n] = [l + j * stp for j in range(n)]
        steps(W, case)
        env = {}
        so, t1, t2, se = case["std"]
        if t1:
            env["POLYTRACKER_STDOUT_SINK"] = "1"
        if t2:
            env["POLYTRACKER_STDERR_SINK"] = "1"
        sop, sep = os.path.join(d, "stdout"), os.path.join(d, "stderr")
        if so == 2:
            rt.paint(d, "stdout", b"already there\n")
        stdout = ["-", "f:" + hx(sop.encode()), "a:" + hx(sop.encode()), "p"][so]
        stderr = ["-", "f:" + hx(sep.encode())][se]
        r = rt.Run(ctx, d, W.lines, env=env, stdout=stdout, stderr=stderr).require()
        eq([r.ans[2].r, sorted(r.ans[2].L.values())], [str(NIN), list(range(1, NIN + 1))], "reading the tracked input")
        for i, a in enumerate(r.ans[nl:], nl):
            if r.ops[i].split()[0] in ("write", "send", "fwrite", "putc"):
                eq(a.L, {}, "labels in memory changed by operation %d (%s)" % (i, r.ops[i]))
                eq(a.rl, 0, "label of the result of operation %d (%s)" % (i, r.ops[i]))
        for i, f in sorted(W.todo, key=lambda t: t[0]):
            f(r)
        for name, data in W.files.items():
            with open(os.path.join(d, name), "rb") as fh:
                eq(fh.read(), bytes(data), "contents of %s" % name)
        if W.stdput:
            cont = {}
            for num, p, data in W.stdput:
                if num not in cont:
                    with open([sop, sep][num - 1], "rb") as fh:
                        cont[num] = fh.read()
                eq(cont[num][p:p + len(data)], data, "data on standard stream %d at %d" % (num, p))
        t = r.trace()
        src = t.sources
        got = Counter()
        for off, lab, idx in t.sinks:
            check(idx < len(src), "a sink entry names source %d of %d", idx, len(src))
            got[(os.fsdecode(src[idx][0]), off, lab)] += 1
        if got != W.want:
            for e in sorted((got - W.want).elements()):
                raise Violation("the log has an entry (destination, offset, label) %s that should not be there" % (e,))
            for e in sorted((W.want - got).elements()):
                raise Violation("the log lacks the entry (destination, offset, label) %s" % (e,))
        return W.nbytes > 0, sorted(W.tags)
    finally:
        ctx.rm(d)


def known_findings(ctx):
    """A short fwrite to a stream opened for appending is logged at the stream's position, not at the end of the file."""
    d = ctx.mkdir()
    try:
        r = rt.Run(ctx, d, ["start", "fopen 0 %s a+ -" % hx(b"out"), "setvbuf 0 2 1", "fseek 0 1 0", "lab 0 2 5 1", "limit 1",
                            "fwrite 0 a0 1 2"]).require()
        if r.ans[6].r == "1" and r.trace().sinks == [(1, 5, 0)]:
            yield "a short fwrite (1 of 2 bytes, file size limit) to a stream opened with a+ and positioned at 1 is logged at " \
                  "offset 1, the byte landed at 0"
    finally:
        ctx.rm(d)


def far(case, ctx):
    """Writes at large offsets of files with holes."""
    d = ctx.mkdir()
    try:
        rt.paint(d, "input", bytes(range(1, 201)) * 3)
        lines = ["start", "open 15 %s 0 0 o" % hx(b"input"), "read 15 a0 %d" % NIN, "close 15",
                 "open 0 %s %d 384 o" % (hx(b"fd"), os.O_RDWR | os.O_CREAT), "fopen 0 %s w+ -" % hx(b"file")]
        want, fail = Counter(), []
        for how, off, n, at in case:
            labels = list(range(at + 1, at + n + 1))
            if how == 0:
                lines += ["lseek 0 %d 0" % off, "write 0 a%d %d" % (at, n)]
            elif how == 1:
                lines += ["fseek 0 %d 0" % off, "fwrite 0 a%d 1 %d" % (at, n), "fflush 0"]
            else:
                n, labels = 1, labels[:1]
                lines += ["fseek 0 %d 0" % off, "putc 0 65 %d fputc" % labels[0], "fflush 0"]
            fail.append((len(lines) - (1 if how == 0 else 2), n if how < 2 else 65))
            want.update((("file" if how else "fd"), off + k, l) for k, l in enumerate(labels))
        r = rt.Run(ctx, d, lines).require()
        for i, n in fail:
            eq(int(r.ans[i].r), n, "result of operation %d (%s)" % (i, r.ops[i]))
        t = r.trace()
        src = t.sources
        got = Counter((os.fsdecode(src[idx][0]), off, lab) for off, lab, idx in t.sinks)
        for e in sorted((got - want).elements()):
            raise Violation("the log has an entry (destination, offset, label) %s that should not be there" % (e,))
        for e in sorted((want - got).elements()):
            raise Violation("the log lacks the entry (destination, offset, label) %s" % (e,))
        return any(o >= 1 << 31 for _, o, _, _ in case), ["2^%d" % (o.bit_length() // 4 * 4) for _, o, _, _ in case]
    finally:
        ctx.rm(d)


def streams(case, ctx):
    ws, gw, _, _, nt, tags = rt.streams(case, ctx)
    eq(gw, ws, "entries of the log (destination, offset, label)")
    return nt, tags


FAR = st.lists(st.tuples(st.integers(0, 2), st.one_of(
    st.sampled_from([1 << 16, 1 << 20, (1 << 31) - 3, 1 << 31, (1 << 32) - 2, 1 << 32, 1 << 40]), st.integers(0, 1 << 42)),
    st.integers(1, 30), st.integers(0, 300)).map(list), min_size=1, max_size=6)
SMALL = st.integers(0, 40)


def op(k):
    n = st.one_of(st.integers(0, 40), st.integers(0, 700), st.sampled_from([0, 1, 4096, 5000, 2999]))
    return st.tuples(st.just(k), SMALL, st.integers(0, 5500), n, SMALL).map(list)


WEIGHTS = [0, 0, 1, 1, 2, 3, 3, 4, 5, 5, 5, 6, 6, 6, 7, 8, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15, 16, 17]
CASE = st.fixed_dictionaries({
    "pre": st.sampled_from([3, 3, 2, 1, 0]),
    "existing": st.integers(0, 2),
    "std": st.tuples(st.integers(0, 3), st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)).map(list),
    "ops": st.lists(st.sampled_from(WEIGHTS).flatmap(op), min_size=4, max_size=35),
})

SUBS = [Sub("writes", CASE, run, 6000, 300000, "histories of opening (all modes, append included), seeking, reading, writing "
            "through every intercepted output call, short and failing writes, closing and reusing descriptors, on files, "
            "a fifo, TCP/UDP sockets, pipes, standard output/error, tracked or not; the log is compared with a reference "
            "file model whose contents are compared with the real files; non-trivial: a tainted byte reached a tracked "
            "destination"),
        Sub("streams", rt.streams_cases(), streams, 300, 20000, "up to six fifos anywhere in a table of up to 240 sources, written and "
            "read alternately; non-trivial: several fifos, more than three bytes written"),
        Sub("far", FAR, far, 400, 20000, "writes at offsets up to 2^42; non-trivial: an offset of at least 2^31")]
