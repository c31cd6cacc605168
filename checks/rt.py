"""Shared by the checks that run the whole runtime library (harness/rt.cpp)."""
import os
import select
import time

import tdag
import vbuild
from vlib import HarnessError, Server, Violation, check, eq, hx

ASIZE = 8192
UNSET = 0xdeadbeef


def build():
    return {"rt": vbuild.build_rt()}


class RtServer(Server):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for v in [v for v in self.env if v.startswith("POLY")]:
            del self.env[v]

    def case(self, hdr, ops):
        """Returns (answers, exit status text). The case may end before all operations ran."""
        if self.p is None or self.n >= 2000:
            self.stop()
            self.start()
        self.n += 1
        msg = ("CASE %d RUN %s\n" % (len(ops), " ".join(hdr)) + "".join(o + "\n" for o in ops)).encode()
        end = time.monotonic() + self.timeout
        out = b""
        pos = 0
        rfd, wfd = self.p.stdout.fileno(), self.p.stdin.fileno()
        while not out.endswith(b"\nDONE\n"):
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise Violation("the program did not end within %d s" % self.timeout)
            r, w, _ = select.select([rfd], [wfd] if pos < len(msg) else [], [], left)
            if w:
                try:
                    pos += os.write(wfd, msg[pos:pos + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    pos = len(msg)
            if r:
                d = os.read(rfd, 1 << 20)
                if not d:
                    rc = self.p.wait()
                    e = self.errtext()
                    self.stop()
                    raise HarnessError("executor died (%s): %s" % (rc, e))
                out += d
        lines = out.decode(errors="replace").split("\n")[:-2]
        if not lines or not lines[-1].startswith("EXIT "):
            self.stop()
            raise HarnessError("bad answer: %r" % lines[-3:])
        return [parse(l) for l in lines[:-1]], lines[-1][5:]


class Ans(dict):
    __getattr__ = dict.get


def unruns(s):
    r = []
    if s == "-":
        return r
    for t in s.split("."):
        if "+" in t:
            v, n = t.split("+")
            r.extend(range(int(v), int(v) + int(n)))
        else:
            v, n = t.split("*")
            r.extend([int(v)] * int(n))
    return r


def parse(line):
    a = Ans()
    for t in line.split(" "):
        k, _, v = t.partition("=")
        a[k] = v
    try:
        a["e"] = int(a["e"])
        a["rl"] = int(a["rl"])
        D = {}
        if a["D"] != "-":
            for part in a["D"].split(","):
                o, h = part.split(":")
                for i, c in enumerate(bytes.fromhex(h)):
                    D[int(o) + i] = c
        a["D"] = D
        Lm = {}
        if a["L"] != "-":
            for part in a["L"].split(","):
                o, h = part.split(":")
                for i, c in enumerate(unruns(h)):
                    Lm[int(o) + i] = c
        a["L"] = Lm
        if "BL" in a:
            a["BL"] = unruns(a["BL"])
        if "B" in a:
            a["B"] = b"" if a["B"] == "-" else bytes.fromhex(a["B"])
    except (KeyError, ValueError):
        raise HarnessError("bad answer line %r" % line[:200])
    return a


def server(ctx, strict=False):
    k = "rt-strict" if strict else "rt-lax"
    s = ctx.servers.get(k)
    if s is None:
        s = ctx.servers[k] = RtServer(ctx.bins["rt"], {"DFSAN_OPTIONS": "strict_data_dependencies=%d" % strict}, timeout=75)
    return s


class Run:
    """One execution in a scratch directory."""

    def __init__(self, ctx, d, ops, plain=False, env=None, stdin="-", stdout="-", stderr="-", strict=False,
                 polydb="trace.tdag"):
        self.dir = d
        self.trace_path = os.path.join(d, polydb) if polydb is not None else None
        hdr = ["dir=" + hx(d.encode()), "plain=%d" % plain, "stdin=" + stdin, "stdout=" + stdout, "stderr=" + stderr]
        env = dict(env or {})
        if polydb is not None:
            env["POLYDB"] = self.trace_path
        for k, v in env.items():
            hdr.append("env=" + hx(("%s=%s" % (k, v)).encode()))
        self.ops = ops
        self.ans, self.status = server(ctx, strict).case(hdr, ops)

    def require(self, status="0"):
        if len(self.ans) != len(self.ops) or self.status != status:
            raise Violation("program ended with %s after %d of %d operations (last: %s)" % (
                self.status, len(self.ans), len(self.ops), self.ops[min(len(self.ans), len(self.ops) - 1)]))
        for a, o in zip(self.ans, self.ops):
            if a.r == "unknown-op":
                raise HarnessError("unknown operation " + o)
        return self

    def trace(self):
        return tdag.Trace(self.trace_path)


def paint(d, name, data, mode=0o644):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    os.chmod(p, mode)
    return p


def streams(case, ctx):
    """Positionless streams whose place in the source table is spread over all of it; returns (what was written, what was
    read), each as (stream name, offset, label or None) lists, expected and found."""
    import random
    d = ctx.mkdir()
    try:
        paint(d, "input", bytes(range(1, 201)) * 3)
        for i, _ in enumerate(case["gaps"]):
            os.mkfifo(os.path.join(d, "fifo%d" % i))
        lines = ["start", "open 15 %s 0 0 o" % hx(b"input"), "read 15 a0 500", "close 15"]
        used = 1
        for i, g in enumerate(case["gaps"]):
            for _ in range(min(g, 240 - used)):
                lines += ["open 14 %s 0 0 o" % hx(b"input"), "close 14"]
                used += 1
            lines.append("open %d %s %d 0 o" % (i, hx(b"fifo%d" % i), os.O_RDWR))
            used += 1
        k = len(case["gaps"])
        wrote, rd = {}, {}
        ws, rs, expect = [], [], []
        for i, n, at in case["ops"]:
            i %= k
            name = "fifo%d" % i
            w = wrote.setdefault(name, 0)
            if at % 3 and w - rd.get(name, 0) > 0:
                n = min(n, w - rd.get(name, 0))
                lines.append("read %d a4000 %d" % (i, n))
                rs += [(name, rd.get(name, 0) + j) for j in range(n)]
                rd[name] = rd.get(name, 0) + n
            else:
                lines.append("write %d a%d %d" % (i, at, n))
                ws += [(name, w + j, at + j + 1) for j in range(n)]
                wrote[name] = w + n
            expect.append((len(lines) - 1, n))
        r = Run(ctx, d, lines).require()
        for i, n in expect:
            eq(int(r.ans[i].r), n, "result of operation %d (%s)" % (i, r.ops[i]))
        t = r.trace()
        src = [os.fsdecode(s[0]) for s in t.sources]
        eq(len(src), used, "sources in the trace")
        gw = [(src[idx], off, lab) for off, lab, idx in t.sinks]
        gr = []
        for v in t.labels[501:]:
            x = tdag.dec(v)
            gr.append((src[x[1]], x[2]) if x[0] == "S" else x)
        far = [i for i, s in enumerate(src) if s.startswith("fifo")]
        return ws, gw, rs, gr, len(ws) > 3 and len(case["gaps"]) > 1, ["source:%d" % (max(far) // 64 * 64)]
    finally:
        ctx.rm(d)


def streams_cases():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "gaps": st.lists(st.one_of(st.sampled_from([0, 1, 15, 31, 63, 63, 127, 128]), st.integers(0, 100)), min_size=1, max_size=6),
        "ops": st.lists(st.tuples(st.integers(0, 5), st.integers(1, 40), st.integers(0, 400)).map(list), min_size=2, max_size=14)})
