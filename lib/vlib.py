"""Shared machinery of the checks: cases, executors, scratch space."""
import atexit
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for the case being run."""


class HarnessError(Exception):
    """The harness itself could not do its work (never a verdict)."""


class Sub:
    """One generated check of a property.

    strategy: hypothesis strategy of JSON-able cases
    run(case, ctx): raises Violation; returns (nontrivial: bool, [tags])
    quick/thorough: number of generated cases
    budget: soft limit in seconds per worker for generating (tier dependent)
    """

    def __init__(self, name, strategy, run, quick, thorough, rule, replays=3, workers=8, qbudget=40, tbudget=1500,
                 shrink=40, alone=False, steps=None, simpler=None, retries=1):
        """With simpler, strategy is a function of a random.Random and simpler(case) gives candidates for shrinking."""
        self.name = name
        self.simpler = simpler
        self.strategy = strategy
        self.run = run
        self.count = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.replays = replays
        self.retries = retries      # schedules differ from run to run
        self.workers = workers
        self.budget = {"quick": qbudget, "thorough": tbudget}
        self.shrink = shrink
        self.alone = alone


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation("%s: got %s, want %s" % (what, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def scratch_root():
    """Directory for scratch files; memory backed when sparse files of trace size work there."""
    d = os.environ.get("VERIF_SCRATCH")
    if d and os.path.isdir(d):
        return d
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            d = tempfile.mkdtemp(prefix="verif.", dir=base)
        except OSError:
            continue
        try:
            p = os.path.join(d, "probe")
            with open(p, "wb") as f:
                f.truncate(40 << 30)
            os.unlink(p)
        except OSError:
            shutil.rmtree(d, ignore_errors=True)
            continue
        os.environ["VERIF_SCRATCH"] = d
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        return d
    raise HarnessError("no scratch space")


def hx(b):
    return b.hex() if b else "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=98"}


class Server:
    """A persistent executor speaking the line protocol."""

    def __init__(self, path, env=None, timeout=90):
        self.path = path
        self.timeout = timeout
        self.env = dict(os.environ, **ASAN)
        self.env.update(env or {})
        self.p = None
        self.n = 0
        self.buf = b""

    def start(self):
        self.err = tempfile.TemporaryFile(dir=scratch_root())
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, bufsize=0, preexec_fn=child_limits)
        self.buf = b""
        self.n = 0
        os.set_blocking(self.p.stdin.fileno(), False)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def errtext(self):
        try:
            self.err.seek(0)
            return self.err.read().decode(errors="replace")[-3000:]
        except Exception:
            return ""

    def case(self, mode, args, ops, answers=None):
        """Returns the answer lines. Raises Violation when the executor crashes or hangs."""
        if self.p is None or self.n >= 500:
            self.stop()
            self.start()
        self.n += 1
        msg = ("CASE %d %s %s\n" % (len(ops), mode, " ".join(args)) + "".join(o + "\n" for o in ops)).encode()
        end = time.monotonic() + self.timeout
        out = self.buf
        pos = 0
        rfd, wfd = self.p.stdout.fileno(), self.p.stdin.fileno()
        while True:
            if out.endswith(b"\nDONE\n") or out == b"DONE\n":
                break
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise Violation("executor did not answer within %d s" % self.timeout)
            r, w, _ = select.select([rfd], [wfd] if pos < len(msg) else [], [], left)
            if w:
                try:
                    pos += os.write(wfd, msg[pos:pos + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    pos = len(msg)
            if r:
                d = os.read(rfd, 1 << 20)
                if not d:
                    rc = self.p.wait()
                    e = self.errtext()
                    self.stop()
                    raise Violation("executor died (status %s) after %d answers: %s" % (rc, out.count(b"\n"), e))
                out += d
        lines = out.decode().split("\n")[:-2]
        if len(lines) != (len(ops) if answers is None else answers):
            self.stop()
            raise HarnessError("expected %d answers, got %d: %s" % (len(ops), len(lines), lines[:5]))
        return lines


def child_limits():
    import resource
    s, h = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (h, h))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Ctx:
    """What a case run has available: built binaries, servers, a scratch directory."""

    def __init__(self, bins):
        self.bins = bins
        self.servers = {}
        self.dir = tempfile.mkdtemp(prefix="w%d." % os.getpid(), dir=scratch_root())
        self.n = 0

    def server(self, name, env=None):
        s = self.servers.get(name)
        if s is None:
            s = self.servers[name] = Server(self.bins[name], env)
        return s

    def fresh(self):
        for s in self.servers.values():
            s.stop()

    def path(self, suffix=""):
        self.n += 1
        return os.path.join(self.dir, "f%d%s" % (self.n, suffix))

    def mkdir(self):
        p = self.path("d")
        os.mkdir(p)
        return p

    def rm(self, p):
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass

    def close(self):
        self.fresh()
        shutil.rmtree(self.dir, ignore_errors=True)
