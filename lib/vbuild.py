"""Builds the harness executables from /repo's current working tree.

Objects are cached by the hash of everything they are made from (flags, source,
all headers), so a changed tree is always rebuilt and an unchanged one is not.
"""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18"
PT = os.path.join(REPO, "polytracker")
RT = os.path.join(PT, "src/compiler-rt")


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


_dirhash = {}


def headers_hash(*dirs):
    """Hash of all non-.cpp files below the directories."""
    if dirs in _dirhash:
        return _dirhash[dirs]
    parts = []
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".o", ".txt", ".py", ".pyc")):
                    continue
                p = os.path.join(root, f)
                parts.append(os.path.relpath(p, d))
                try:
                    with open(p, "rb") as fh:
                        parts.append(fh.read())
                except OSError:
                    pass
    _dirhash[dirs] = _sha(*parts)
    return _dirhash[dirs]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def compile_objs(jobs):
    """jobs: list of (source, flags list, headers hash); returns object paths."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def one(job):
        src, flags, hh = job
        with open(src, "rb") as f:
            key = _sha(src, f.read(), "\0".join(flags), hh)
        out = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            _run([CXX] + flags + ["-c", src, "-o", tmp])
            os.replace(tmp, out)
        return out

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(one, jobs))


def link(name, objs, flags):
    key = _sha(name, "\0".join(objs), "\0".join(flags))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", name + "-" + key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        _run([CXX] + objs + flags + ["-o", tmp])
        os.replace(tmp, out)
    return out


def _cpps(*dirs):
    res = []
    for d in dirs:
        res += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
    return res


PTFLAGS = ["-std=gnu++20", "-g", "-fPIC", "-DNDEBUG", "-Wno-everything",
           "-I" + os.path.join(PT, "include"), "-I" + os.path.join(RT, "include"),
           "-include", "algorithm", "-include", "cstdlib", "-include", "utility",
           "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED"]
LIBS = ["-lspdlog", "-lfmt", "-lpthread", "-ldl", "-lrt", "-lm"]


def _pt_headers():
    return headers_hash(os.path.join(PT, "include"), os.path.join(RT, "include"), os.path.join(VERIF, "harness"),
                        os.path.join(PT, "src/taintdag"), os.path.join(PT, "src/polytracker"),
                        os.path.join(PT, "src/taint_sources"))


def build_core(sanitize="address,undefined", main="core.cpp", name="core", opt="-O1", extra=()):
    hh = _pt_headers()
    fl = PTFLAGS + [opt, "-fexceptions", "-fno-omit-frame-pointer"] + list(extra)
    if sanitize:
        fl += ["-fsanitize=" + sanitize, "-fno-sanitize-recover=all"]
    jobs = [(s, fl, hh) for s in _cpps(os.path.join(PT, "src/taintdag"))]
    jobs.append((os.path.join(VERIF, "harness", main), fl, hh))
    objs = compile_objs(jobs)
    lf = ["-Wl,--allow-multiple-definition"]
    if sanitize:
        lf += ["-fsanitize=" + sanitize]
    return link(name, objs, lf + LIBS)


RT_SAN = """allocator common deadlock_detector1 deadlock_detector2 errno file flags flag_parser libc libignore linux
linux_s390 persistent_allocator platform_limits_linux platform_limits_posix posix printf procmaps_common procmaps_linux
suppressions tls_get_addr thread_registry type_traits termination common_libcdep allocator_checks linux_libcdep
posix_libcdep stoptheworld_linux_libcdep allocator_report chained_origin_depot stackdepot stacktrace
stacktrace_libcdep stacktrace_printer symbolizer symbolizer_libbacktrace symbolizer_libcdep symbolizer_markup
symbolizer_posix_libcdep symbolizer_report unwind_linux_libcdep""".split()


def _rt_jobs():
    hh = headers_hash(os.path.join(RT, "lib"), os.path.join(RT, "include"), os.path.join(PT, "include"))
    base = ["-std=gnu++20", "-O2", "-DNDEBUG", "-m64", "-fPIC", "-fno-builtin", "-fno-exceptions",
            "-fomit-frame-pointer", "-funwind-tables", "-fno-stack-protector", "-fvisibility=hidden",
            "-gline-tables-only", "-Wno-everything", "-nostdinc++", "-fno-rtti", "-I" + os.path.join(PT, "include"),
            "-I" + os.path.join(RT, "lib")]
    jobs = []
    d = os.path.join(RT, "lib/sanitizer_common")
    for n in RT_SAN:
        p = os.path.join(d, "sanitizer_%s.cpp" % n)
        if os.path.exists(p):
            jobs.append((p, base + ["-DHAVE_RPC_XDR_H=0"], hh))
    jobs.append((os.path.join(RT, "lib/interception/interception_linux.cpp"), base, hh))
    for s in _cpps(os.path.join(RT, "lib/dfsan")):
        jobs.append((s, base + ["-ffreestanding", "-fPIE"], hh))
    return jobs


def build_rt(main="rt.cpp", name="rt"):
    """Executor linked with the whole runtime library and the real DFSan runtime."""
    hh = _pt_headers()
    fl = PTFLAGS + ["-O1", "-fno-exceptions", "-fno-rtti", "-fno-omit-frame-pointer"]
    jobs = [(os.path.join(VERIF, "harness", main), fl, hh)]
    for d in ("polytracker", "taint_sources", "taintdag"):
        jobs += [(s, fl, hh) for s in _cpps(os.path.join(PT, "src", d))]
    objs = compile_objs(jobs + _rt_jobs())
    return link(name, objs, ["-fPIE", "-pie", "-Wl,--allow-multiple-definition"] + LIBS)


def build_mt():
    return build_core(sanitize=None, main="mt.cpp", name="mt", opt="-O2")


def build_mt_tsan():
    return build_core(sanitize="thread", main="mt.cpp", name="mt-tsan", extra=("-DSANITIZER_CDECL=",))


PASS = os.path.join(PT, "src/passes")
PASS18 = os.path.join(VERIF, "harness/pass18")


def build_pass():
    """The repository's LLVM passes as a plugin of the installed opt."""
    import port18
    hh = headers_hash(os.path.join(PT, "include"), PASS18, PASS)
    d = os.path.join(BUILD, "pass18")
    os.makedirs(d, exist_ok=True)
    jobs = []
    fl = ["-std=gnu++20", "-fno-rtti", "-fPIC", "-O1", "-w", "-DNDEBUG", "-I" + PASS18, "-include",
          os.path.join(PASS18, "compat18.h"), "-I/usr/lib/llvm-18/include", "-I" + os.path.join(PT, "include"),
          "-I" + PASS, "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED"]
    for s in _cpps(PASS):
        with open(s) as f:
            t = port18.port(f.read())
        p = os.path.join(d, _sha(t, s)[:12] + "-" + os.path.basename(s))
        if not os.path.exists(p):
            tmp = p + ".%d.tmp" % os.getpid()
            with open(tmp, "w") as f:
                f.write(t)
            os.replace(tmp, p)
        jobs.append((p, fl, hh))
    return link("pass", compile_objs(jobs), ["-shared", "-lspdlog", "-lfmt"])


def archive(name, objs):
    key = _sha(name, "\0".join(objs))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", name + "-" + key + ".a")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        _run(["ar", "crs", tmp] + objs)
        os.replace(tmp, out)
    return out


def build_lib():
    """The run-time library instrumented programs are linked with: (PolyTracker part, DFSan part)."""
    hh = _pt_headers()
    fl = PTFLAGS + ["-O1", "-fno-exceptions", "-fno-rtti", "-fno-omit-frame-pointer"]
    jobs = []
    for d in ("polytracker", "taint_sources", "taintdag"):
        jobs += [(s, fl, hh) for s in _cpps(os.path.join(PT, "src", d))]
    rt = _rt_jobs()
    objs = compile_objs(jobs + rt)
    a, b = objs[:len(jobs)], objs[len(jobs):]
    return {"a": archive("libPolytracker", a), "b": archive("libdfsan", b), "objs": " ".join(objs)}


def build_inst():
    """The executor of build_rt with its library calls made by instrumented code (lib/inst.py)."""
    import inst
    so = build_pass()
    c, cpp, h = inst.generate()
    abi = [os.path.join(PT, "custom_abi", n) for n in ("dfsan_abilist.txt",)]
    parts = [c, so]
    for p in abi:
        with open(p, "rb") as f:
            parts.append(f.read())
    d = os.path.join(BUILD, "inst")
    os.makedirs(d, exist_ok=True)
    names = {}
    for n, t in (("tramp.c", c), ("inst.cpp", cpp), ("inst.h", h)):
        p = names[n] = os.path.join(d, _sha(t)[:12] + "-" + n)
        if not os.path.exists(p):
            tmp = p + ".%d.tmp" % os.getpid()
            with open(tmp, "w") as f:
                f.write(t)
            os.replace(tmp, p)
    obj = os.path.join(d, _sha(*parts) + ".o")
    if not os.path.exists(obj):
        t = obj + ".%d" % os.getpid()
        b = "/usr/lib/llvm-18/bin/"
        _run([b + "clang", "-w", "-O0", "-fPIC", "-fno-builtin", "-emit-llvm", "-c", names["tramp.c"], "-o", t + ".bc"])
        _run([b + "opt", "-load", so, "-load-pass-plugin", so, "-passes=pt-dfsan,pt-rm-fn-attr",
              "-pt-dfsan-abilist=" + abi[0],
              t + ".bc", "-o", t + ".i.bc"])
        _run([b + "clang", "-w", "-O0", "-fPIC", "-c", t + ".i.bc", "-o", t + ".o"])
        os.unlink(t + ".bc")
        os.unlink(t + ".i.bc")
        os.replace(t + ".o", obj)
    hh = _pt_headers()
    fl = PTFLAGS + ["-O1", "-fno-exceptions", "-fno-rtti", "-fno-omit-frame-pointer"]
    jobs = [(os.path.join(VERIF, "harness", "rt.cpp"), fl + ["-include", names["inst.h"]], hh), (names["inst.cpp"], fl, hh)]
    for d in ("polytracker", "taint_sources", "taintdag"):
        jobs += [(s, fl, hh) for s in _cpps(os.path.join(PT, "src", d))]
    objs = compile_objs(jobs + _rt_jobs())
    return link("inst", objs + [obj], ["-fPIE", "-pie", "-Wl,--allow-multiple-definition"] + LIBS)


def build_all():
    build_core()
    build_mt()
    build_mt_tsan()
    build_pass()
    if os.path.exists(os.path.join(VERIF, "harness", "rt.cpp")):
        build_rt()


if __name__ == "__main__":
    import time
    for fn in sys.argv[1:]:
        t = time.time()
        print(fn, globals()["build_" + fn](), round(time.time() - t, 1), "s")
