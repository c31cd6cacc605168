import json
import os
from argparse import ArgumentParser

from vlib import Sub, Violation

from . import c29, ir

ASSUMPTIONS = ["the repository's passes are compiled for LLVM 18 after renaming the interfaces LLVM changed since 13 (lib/port18.py)",
               "gclang's bitcode extraction is replaced by a stand-in that hands out the program's bitcode",
               "programs are linked with the installed fmt and spdlog"]

PIPES = [["pt-taint", "pt-dfsan", "pt-rm-fn-attr"], ["pt-taint", "pt-ftrace", "pt-dfsan", "pt-rm-fn-attr"],
         ["pt-ftrace"], ["pt-dfsan"], ["pt-dfsan", "pt-rm-fn-attr"], ["pt-rm-fn-attr"]]


def build():
    return ir.build()


def run(case, ctx):
    """Every combination of passes leaves what a program does as it was."""
    tcf, opt, pipe, prog = case
    p, i = ir.program(prog, atomics=True)
    if i is None:
        return False, ["too long"]
    names = list(PIPES[pipe % len(PIPES)])
    if "pt-dfsan" in names:
        names = (["pt-tcf"] if tcf else []) + (["default<O%d>" % opt] if opt else []) + names
    elif opt:
        names = names + ["default<O%d>" % opt]
    d = ctx.mkdir()
    try:
        ir.write(p, d)
        ir.irrun.instrument(ctx, "x.ll", d + "/x", d, names)
        r = ir.execute(p, d + "/x", d)
        ir.behaves(p, i, r, "program instrumented with " + ",".join(names), d)
        return len(p.features) > 3, ["+".join(names)] + sorted(p.features)
    finally:
        ctx.rm(d)


SHIMS = {
    "opt": 'exec %s/opt "$@" >>"$SHIMLOG" 2>&1\n' % ir.irrun.BINDIR,
    # get-bc -o OUT -b BINARY
    "get-bc": 'o= ; i= ; while [ $# -gt 0 ]; do case "$1" in -o) o=$2; shift;; -b) ;; *) i=$1;; esac; shift; done\n'
              'exec cp "$i.bitcode" "$o"\n',
    # blight-exec ... -- COMMAND: runs COMMAND and appends its compiler calls to the journal
    "blight-exec": 'while [ "$1" != -- ]; do shift; done; shift\ncat "$NEWJOURNAL" >>"$BLIGHT_JOURNAL_PATH"\nexec "$@"\n',
    "gclang": 'exec %s/clang -w "$@" -lspdlog -lfmt -lpthread -lrt %s >>"$SHIMLOG" 2>&1\n' % (
        ir.irrun.BINDIR, "-fuse-ld=lld" if os.path.exists(ir.irrun.LLD) else ""),
    "gclang++": 'exec %s/clang++ -w "$@" -lspdlog -lfmt -lpthread -lrt %s >>"$SHIMLOG" 2>&1\n' % (
        ir.irrun.BINDIR, "-fuse-ld=lld" if os.path.exists(ir.irrun.LLD) else ""),
}


def layout(ctx, d):
    """A PolyTracker installation made of the things built from the working tree."""
    os.makedirs(d + "/bin")
    for n, s in SHIMS.items():
        with open(d + "/bin/" + n, "w") as f:
            f.write("#!/bin/sh\n" + s)
        os.chmod(d + "/bin/" + n, 0o755)
    for n in ("pass", "lib", "abi_lists"):
        os.makedirs(d + "/share/" + n)
    os.symlink(ctx.bins["pass"], d + "/share/pass/libPolytrackerPass.so")
    os.symlink(ctx.bins["a"], d + "/share/lib/libPolytracker.a")
    for n in os.listdir(ir.irrun.ABI):
        os.symlink(ir.irrun.ABI + "/" + n, d + "/share/abi_lists/" + n)
    os.makedirs(d + "/cxx/poly_build/lib")
    for n in ("libc++.a", "libc++abi.a"):
        with open(d + "/cxx/poly_build/lib/" + n, "wb") as f:
            f.write(b"!<arch>\n")
    return {"COMPILER_DIR": d + "/share", "CXX_LIB_PATH": d + "/cxx", "DFSAN_LIB_PATH": ctx.bins["b"],
            "SHIMLOG": d + "/shim.log", "PATH": d + "/bin:" + os.environ["PATH"]}


NAMES = ["x", "tool", "my-prog", "prog.v1", "a.out", "lib.so.tool", "x+1", "toolbox", "sub/tool3", "sub/xy.bin"]
KEYS = ("prenormalized_path", "path", "kind")


def journal(path, d, cmds):
    """What blight writes for the commands of a build."""
    with open(path, "w") as f:
        for tool, args, ins, outs in cmds:
            f.write(json.dumps({
                "Record": {"wrapped_tool": tool, "args": args, "cwd": d},
                "FindInputs": {"inputs": [dict(zip(KEYS, (a, d + "/" + a, k)), store_path=None, content_hash=None) for a, k in ins]},
                "FindOutputs": {"outputs": [dict(zip(KEYS, (a, d + "/" + a, k)), store_path=None, content_hash=None)
                                            for a, k in outs]} if outs is not None else {},
            }) + "\n")


def targets(case, ctx):
    """The build commands make programs that do what the original ones do and record what was asked for."""
    flags, order, lists, progs = case
    from polytracker.build import Build, InstrumentTargets
    taint, ftrace = flags & 4, flags & 1
    cflog = taint and flags & 2       # the log is of tainted control flow
    exact, helper, steps, rebuild = order >> 5 & 1, order >> 6 & 3, order >> 8 & 1 and not cflog, order >> 9 & 1
    d = ctx.mkdir()
    d = os.path.realpath(d)
    old, cwd = dict(os.environ), os.getcwd()
    try:
        env = layout(ctx, d)
        os.mkdir(d + "/sub")
        uninst, quiet = set(), set()

        def choose(p):
            """Functions that are not instrumented; others are only left out of the function trace and the marks"""
            for k, f in enumerate(p.fns):
                if not (lists >> k & 1 and f.name.isidentifier()) or "discard" in f.name or "main" in f.name:
                    continue
                (uninst if lists >> 4 + k & 1 and taint else quiet).add(f.name)
            return uninst

        names, cmds, ps = [], [], []
        for k, (n, prog) in enumerate(progs):
            path = NAMES[(n + k) % len(NAMES)]
            name = os.path.basename(path)
            stem = name.rsplit(".", 1)[0] if "." in name else name
            if any(stem == s for _, s, _ in names):
                continue
            p, i = ir.program(prog, exact=bool(exact), helper=bool(helper), uninstrumented=choose if not names else lambda p: ())
            if i is None:
                continue
            names.append((name, stem, path))
            ps.append((p, i))
            ir.write(p, d)
            ir.irrun.tool([ir.irrun.BINDIR + "/llvm-as", "x.ll", "-o", path + ".bitcode"], d, "assembling", False)
            with open(d + "/" + path, "w") as f:
                f.write("the original program")
            cmds.append(("gclang", ["-c", "-O2", "s%d.c" % k, "-o", "s%d.o" % k], [("s%d.c" % k, "source")], [("s%d.o" % k, "object")]))
            link = [["s%d.o" % k, "-o", path, "-lm"], ["-o", path, "-O2", "-lm", "s%d.o" % k],
                    ["-g", "s%d.o" % k, "-Wl,-O1", "-o", path, "-lpthread"]][n % 3]
            ins = [("s%d.o" % k, "object")]
            if helper == 1:
                link, ins = link + ["sub/libhelp.a"], ins + [("sub/libhelp.a", "static")]
            elif helper == 2:
                link = ["-Lsub"] + link + ["-lhelp"]
            elif helper == 3:
                link, ins = link + ["sub/libhelp.so", "-Wl,-rpath," + d + "/sub"], ins + [("sub/libhelp.so", "shared")]
            cmds.append((["gclang", "gclang++"][order >> 4 & 1], link, ins, [(path, "executable")]))
        if not ps:
            return False, ["too long"]
        if len(names) > 1:      # lists apply to all programs, whose functions have the same names
            uninst, quiet = set(), set()
            ps = [ir.program(prog, exact=bool(exact), helper=bool(helper)) for prog in [
                progs[k][1] for k in range(len(progs)) if any(n[2] == NAMES[(progs[k][0] + k) % len(NAMES)] for n in names)]]
            if len(ps) != len(names) or any(i is None for _, i in ps):
                return False, ["too long"]
        if helper:
            with open(d + "/h.c", "w") as f:
                f.write(ir.irgen.HELPER_C)
            cc = [ir.irrun.BINDIR + "/clang", "-fPIC", "h.c"]
            if helper == 3:
                ir.irrun.tool(cc + ["-shared", "-o", "sub/libhelp.so"], d, "compiling", False)
            else:
                ir.irrun.tool(cc + ["-c", "-o", "h.o"], d, "compiling", False)
                ir.irrun.tool(["ar", "rc", "sub/libhelp.a", "h.o"], d, "archiving", False)
        if order & 1:
            cmds.reverse()
        if order & 2:
            cmds.insert(0, ("gclang", ["--version"], [], None))
        jp = d + "/" + ["blight_journal.jsonl", "other.jsonl"][order >> 10 & 1]
        os.environ.update(env)
        os.chdir(d)
        if rebuild:
            journal(d + "/new.jsonl", d, cmds)
            os.environ["NEWJOURNAL"] = d + "/new.jsonl"
            os.makedirs(d + "/store", exist_ok=True)
            os.environ["WLLVM_ARTIFACT_STORE"] = d + "/store"
            if order & 8:       # left behind by an earlier build, which linked other things
                journal(jp, d, [("gclang", ["s0.o", "-o", names[0][2], "-lnosuchlibrary"], [("s0.o", "object")], [(names[0][2], "executable")])])
            argv = ["-c", 'printf "%s|" "$@" >>built', "sh", "a b", "-o", "c'd", "--journal-path", "-x"]
            command(Build, (["--journal-path", jp] if order >> 10 & 1 else []) + ["/bin/sh"] + argv, d)
            with open(d + "/built") as f:
                built = f.read()
            if built != "".join(a + "|" for a in argv[3:]):
                raise Violation("build ran the command with other arguments: %r" % built)
        else:
            journal(jp, d, cmds)
        args = [n for n, _, _ in names]
        if order & 4:
            args.reverse()
        extra = (["--taint"] if taint else []) + (["--ftrace"] if ftrace else []) + (["--cflog"] if cflog else [])
        mine = []
        if helper:
            mine.append(["fun:helper=uninstrumented", "fun:helper=discard"])
        if uninst:
            mine.append(["fun:%s=%s" % (n, k) for n in sorted(uninst) for k in ("uninstrumented", "discard")])
        if quiet:
            mine.append(["fun:%s=discard" % n for n in sorted(quiet)])
        if order & 16:
            mine.reverse()
        if mine:
            extra += ["--ignore-lists"] + ["mine%d.txt" % k for k in range(len(mine))]
            for k, l in enumerate(mine):
                with open(d + "/share/abi_lists/mine%d.txt" % k, "w") as f:
                    f.write("# list %d\n" % k + "".join(x + "\n" for x in l))
        if order >> 10 & 1:
            extra = ["--journal-path", jp] + extra
        if steps:
            for name, stem, path in names:
                step_by_step(name, path, d, extra, order)
        else:
            command(InstrumentTargets, args + extra, d)
        for (name, stem, path), (p, i) in zip(names, ps):
            exe = d + "/" + stem + ".instrumented"
            what = "%s made by the build commands with %s" % (name, " ".join(extra))
            if not os.path.exists(exe):
                raise Violation("%s: there is no %s.instrumented" % (what, stem))
            ir.write(p, d)
            r = ir.execute(p, exe, d, trace=bool(taint))
            ir.behaves(p, i, r, what, d)
            if not taint:
                continue
            t = r.trace
            ev, cf = t.events, t.cflog
            if bool(ev) != bool(ftrace):
                raise Violation("%s: %d function events" % (what, len(ev)))
            if bool(cf) != bool(cflog):
                raise Violation("%s: %d entries of the control-flow log" % (what, len(cf)))
            fn = t.functions
            bad = {fn[x].decode("latin1") for _, x in ev} & (quiet | uninst)
            if bad:
                raise Violation("%s: events of ignored functions %s" % (what, sorted(bad)))
            if exact:
                recorded(p, i, t, d, what, ftrace, not steps or order & 2, quiet, uninst)
        return len(ps) > 1 or any(len(p.features) > 3 for p, _ in ps), [" ".join(e for e in extra if e in ("--taint", "--ftrace", "--cflog")),
                                                                       "%d targets" % len(ps)] + (
            ["exact"] if exact else []) + (["library"] if helper else []) + (["ignore lists"] if quiet or uninst else []) + (
            ["step by step"] if steps else []) + (["build"] if rebuild else [])
    finally:
        os.chdir(cwd)
        for k in list(os.environ):
            if k not in old:
                del os.environ[k]
        os.environ.update(old)
        ctx.rm(d)


def recorded(p, i, t, d, what, ftrace, optimised, quiet, uninst):
    """The trace of a program that could not be optimised says exactly what happened."""
    if ftrace:
        fns = t.functions
        c29.compare(p, i, d, [(("enter", "leave")[k], fns[f].decode("latin1")) for k, f in t.events],
                    [e for e in i.events if e[0] != "branch" and e[1] not in quiet | uninst], what + ": function trace")
    if optimised:
        return
    got = ir.sink_taints(p, i, t)
    want = {k: l for k, l in enumerate(i.lab["@out"][:p.outpos]) if l}
    reach = c29.tdag.reach_all(t.labels)
    if got != want:
        ir.check_native(p, i, d)
        k = min(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        raise Violation("%s: output byte %d depends on input offsets %s, the trace says %s" % (
            what, k, sorted(want.get(k, ())), sorted(got.get(k, ()))))
    marked = {o for k, v in enumerate(t.labels) if k and v & c29.tdag.CF for _, o in reach[k]}
    wm = set().union(*[e[2] for e in i.events if e[0] == "branch" and e[3] != "select" and e[1] not in quiet | uninst])
    if marked != wm:
        ir.check_native(p, i, d)
        raise Violation("%s: inputs marked as affecting control flow: got %s, want %s" % (what, sorted(marked), sorted(wm)))


def step_by_step(name, path, d, extra, order):
    """extract-bc, opt-bc, instrument-bc and lower-bc in place of instrument-targets"""
    from polytracker.build import ExtractBitcode, InstrumentBitcode, LowerBitcode, OptimizeBitcode
    jp = []
    if extra[:1] == ["--journal-path"]:
        jp, extra = extra[:2], extra[2:]
    command(ExtractBitcode, [path, "-o", "sub/e.bc"], d)
    src = "sub/e.bc"
    if order & 2:
        command(OptimizeBitcode, [src, "--output", "o.bc"], d)
        src = "o.bc"
    # options after the list of ignore lists, which would take the input file for one of them
    command(InstrumentBitcode, [src, "-o", "i.bc"] + extra, d)
    stem = name.rsplit(".", 1)[0] if "." in name else name
    command(LowerBitcode, ["i.bc", "-t", name, "-o", stem + ".instrumented"] + jp, d)


def command(cls, argv, d):
    parser = ArgumentParser()
    c = cls(parser)
    try:
        c.run(parser.parse_args(argv))
    except Exception as e:
        log = ""
        if os.path.exists(d + "/shim.log"):
            with open(d + "/shim.log", errors="replace") as f:
                log = f.read()[-1500:]
        raise Violation("%s %s failed: %r\n%s" % (cls.name, " ".join(argv), e, log))


PROGRAM = ir.programs(list(ir.ARITY))
PLAIN = ir.programs()
BRANCHY = ir.programs(nest=.35)


def gen(r):
    return [r.randrange(2), r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 1, 2, 3, 4, 5]), PROGRAM(r)]


def simpler(c):
    for k in range(3):
        if c[k]:
            yield c[:k] + [0] + c[k + 1:]
    for x in ir.simpler_program(c[3]):
        yield c[:3] + [x]


def gen_targets(r):
    if r.random() < .4:     # not optimised, so that the trace must be exact
        return [4 | r.randrange(2), r.randrange(2048) & ~2 | 0x120, r.choice([15, r.randrange(256)]), [[r.randrange(60), BRANCHY(r)]]]
    return [r.choice([0, 4, 4, 4, 4, 4]) | r.choice([0, 1, 2, 3, 3]), r.randrange(2048), r.choice([0, 15, r.randrange(256)]),
            [[r.randrange(60), PLAIN(r)] for _ in range(r.choice([1, 1, 2, 3]))]]


def simpler_targets(c):
    flags, order, lists, progs = c
    for k in range(len(progs)):
        if len(progs) > 1:
            yield [flags, order, lists, progs[:k] + progs[k + 1:]]
    for b in range(11):
        if order >> b & 1:
            yield [flags, order & ~(1 << b), lists, progs]
    for b in range(8):
        if lists >> b & 1:
            yield [flags, order, lists & ~(1 << b), progs]
    for b in (1, 2):
        if flags & b:
            yield [flags & ~b, order, lists, progs]
    for k, (n, p) in enumerate(progs):
        for x in ir.simpler_program(p):
            yield [flags, order, lists, progs[:k] + [[n, x]] + progs[k + 1:]]


SUBS = [Sub("passes", gen, run, 640, 20000, "the program uses more than three kinds of statement", shrink=60, simpler=simpler),
        Sub("targets", gen_targets, targets, 160, 6000, "several targets, or a program with more than three kinds of statement",
            shrink=60, simpler=simpler_targets)]
