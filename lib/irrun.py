"""Instruments, links and runs generated IR programs with the repository's passes and run-time library."""
import json
import os
import subprocess

import tdag
import vbuild
from vlib import HarnessError, Violation, child_limits

ABI = os.path.join(vbuild.PT, "custom_abi")
LLD = "/usr/bin/ld.lld-18"
BINDIR = "/usr/lib/llvm-18/bin"


def build():
    r = vbuild.build_lib()
    r["pass"] = vbuild.build_pass()
    return r


def tool(cmd, cwd, what, blame, timeout=100):
    """Runs a tool; a failure is the repository's fault when it ran or consumed the repository's work."""
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise (Violation if blame else HarnessError)("%s did not finish in %d s" % (what, timeout))
    if r.returncode != 0:
        raise (Violation if blame else HarnessError)("%s failed (%s): %s" % (what, r.returncode, r.stdout[:700] + " ... " + r.stdout[-500:]))
    return r.stdout


def passes_args(names, lists=()):
    r = ["-passes=" + ",".join(names)]
    poly = os.path.join(ABI, "polytracker_abilist.txt")
    if "pt-taint" in names:
        r += ["-pt-taint-ignore-list=" + p for p in [poly] + list(lists)]
    if "pt-dfsan" in names:
        r += ["-pt-dfsan-abilist=" + p for p in [os.path.join(ABI, "dfsan_abilist.txt")] + list(lists)]
    if "pt-ftrace" in names:
        r += ["-pt-ftrace-ignore-list=" + p for p in [poly] + list(lists)]
    return r


def native(ll, exe, cwd, extra=()):
    """The uninstrumented program."""
    fl = ["-fuse-ld=lld"] if os.path.exists(LLD) else []
    tool([BINDIR + "/clang", "-O0", "-w", ll, "-o", exe, "-lm"] + fl + list(extra), cwd, "compiling the program", False)


def instrument(ctx, ll, exe, cwd, names, lists=(), extra=()):
    opt = [BINDIR + "/opt", "-load", ctx.bins["pass"], "-load-pass-plugin", ctx.bins["pass"]]
    tool(opt + passes_args(names, lists) + [ll, "-o", "i.bc"], cwd, "instrumenting with " + ",".join(names), True)
    lower(ctx, "i.bc", exe, cwd, extra)


def lower(ctx, bc, exe, cwd, extra=()):
    tool([BINDIR + "/clang", "-O0", "-w", "-fPIE", "-c", bc, "-o", "i.o"], cwd, "compiling the instrumented program", True)
    fl = ["-fuse-ld=lld"] if os.path.exists(LLD) else []
    tool([BINDIR + "/clang++", "-pie", "i.o"] + list(extra) + ctx.bins["objs"].split() + fl + [
        "-Wl,--allow-multiple-definition", "-Wl,-S"] + vbuild.LIBS + ["-o", exe], cwd, "linking the instrumented program", True)


class Result:
    pass


def run(exe, args, cwd, env=None, stdin=None, trace=None, timeout=60):
    """Runs a program: .rc, .out (standard output) and, if a trace is wanted, .trace."""
    e = {k: v for k, v in os.environ.items() if not k.startswith("POLY")}
    e.update(env or {})
    tr = os.path.join(cwd, "t.tdag")
    e["POLYDB"] = tr
    r = Result()
    f = open(stdin, "rb") if stdin else subprocess.DEVNULL
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=child_limits)
        r.rc, r.out, r.err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        r.rc, r.out, r.err = "timeout", b"", b""
    finally:
        if stdin:
            f.close()
    if trace:
        if not os.path.exists(tr):
            raise Violation("the instrumented program wrote no trace (%s): %s" % (r.rc, r.err[-500:]))
        r.trace = tdag.Trace(tr)
        os.unlink(tr)
    elif os.path.exists(tr):
        os.unlink(tr)
    return r


def function_ids(cwd):
    with open(os.path.join(cwd, "functionid.json")) as f:
        return json.load(f)
