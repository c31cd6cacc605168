"""check <property> quick|thorough   -- see DESIGN.md
   check --replay <file>             -- run one saved case again
"""
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path[:0] = [VERIF, os.path.join(VERIF, "lib")]
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import vlib  # noqa: E402
from vlib import HarnessError, Violation  # noqa: E402

CASE_LIMIT = 75  # seconds one case may take before it counts as a hang (cases take milliseconds)
HANG = "no answer within %d s" % CASE_LIMIT
NCPU = 8


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def find_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise HarnessError("no sub-check " + name)


def hung(msg):
    return msg == HANG or "did not answer within" in msg


class Hang(BaseException):
    pass


def run_case(sub, case, ctx):
    """Runs a case; every failure of the code under test becomes a Violation."""

    def onalarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT)
    try:
        return sub.run(case, ctx) or (True, [])
    except (Violation, HarnessError):
        raise
    except Hang:
        raise Violation(HANG)
    except MemoryError:
        raise Violation("memory exhausted on a small case: " + traceback.format_exc()[-1500:])
    except OSError as e:
        if e.errno in (28, 11, 23, 24):  # sandbox ran out of something
            raise HarnessError(traceback.format_exc())
        raise Violation("unexpected exception\n" + traceback.format_exc()[-3000:])
    except (AssertionError, Exception):
        raise Violation("unexpected exception\n" + traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def limit_memory():
    import resource
    s, h = resource.getrlimit(resource.RLIMIT_DATA)
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_DATA, (lim if h < 0 else min(lim, h), h))


def worker(argv):
    prop, subname, count, budget, seed, out, binsfile = argv
    limit_memory()
    sys.setrecursionlimit(3000)
    mod = load(prop)
    sub = find_sub(mod, subname)
    with open(binsfile) as f:
        ctx = vlib.Ctx(json.load(f))
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as hst
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = sub.shrink
    st = {"evaluations": 0, "nontrivial": 0, "tags": {}, "samples": [], "fail": None, "skipped": 0, "msg": None,
          "hashes": []}
    end = time.monotonic() + float(budget)
    seen = set()
    size = [None]
    stop = [0]

    def drive():
        """Generation and shrinking for checks that bring their own."""
        for k in range(int(count)):
            rng = random.Random("%s/%d" % (seed, k))
            try:
                one(sub.strategy(rng))
            except Violation:
                break
        else:
            return
        stop[0] += 1e9      # the loop below keeps the time
        limit = time.monotonic() + (0 if hung(st["msg"]) else sub.shrink)
        better = True
        while better and time.monotonic() < limit:
            better = False
            for c in sub.simpler(st["fail"]):
                if time.monotonic() > limit:
                    break
                if len(json.dumps(c)) >= size[0]:
                    continue
                try:
                    one(c)
                except Violation:
                    better = True
                    break
        raise Violation(st["msg"])

    def one(case):
        return body(json.loads(json.dumps(case)))

    @hseed(int(seed))
    @settings(max_examples=int(count), database=None, deadline=None, suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, print_blob=False, phases=[Phase.generate, Phase.shrink])
    @given(sub.strategy if not sub.simpler else hst.none())
    def test(case):
        body(case)

    def body(case):
        if st["fail"] is None and time.monotonic() > end:
            st["skipped"] += 1
            return
        if st["fail"] is None:
            st["evaluations"] += 1
        js = json.dumps(case)
        if st["fail"] is not None and time.monotonic() > stop[0]:
            # enough shrinking: only the smallest failure still counts as one
            if js == json.dumps(st["fail"]):
                raise Violation(st["msg"])
            return
        try:
            try:
                nt, tags = run_case(sub, case, ctx)
            except Violation:
                # Only a failure that a fresh process shows as well counts.
                for _ in range(sub.retries):
                    ctx.fresh()
                    nt, tags = run_case(sub, case, ctx)
                tags = list(tags) + ["unreproduced"]
        except Violation as e:
            ctx.fresh()
            if st["fail"] is None:
                # a hang is not shrunk: every step would cost the limit
                stop[0] = time.monotonic() + (0 if hung(str(e)) else sub.shrink)
            if st["fail"] is None or len(js) <= size[0]:
                st["fail"], size[0], st["msg"] = case, len(js), str(e)
            raise
        if st["fail"] is None:
            for t in tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if nt:
                h = zlib.crc32(js.encode()) << 32 | zlib.adler32(js.encode())
                if h not in seen:
                    seen.add(h)
                    st["nontrivial"] += 1
                    if len(st["samples"]) < 3 and 20 < len(js) < 2500 and st["nontrivial"] % 7 == 3:
                        st["samples"].append(case)
    rc = 0
    try:
        if sub.simpler:
            drive()
        else:
            test()
    except HarnessError:
        st["error"] = traceback.format_exc()
        rc = 2
    except BaseException:
        if st["fail"] is None:
            st["error"] = traceback.format_exc()
            rc = 2
        else:
            rc = 1
    ctx.close()
    st["hashes"] = sorted(seen)
    with open(out + ".tmp", "w") as f:
        json.dump(st, f)
    os.replace(out + ".tmp", out)
    return rc


def replay(path, binsfile=None, quiet=False):
    limit_memory()
    sys.setrecursionlimit(3000)
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    sub = find_sub(mod, r["sub"])
    if binsfile:
        with open(binsfile) as f:
            bins = json.load(f)
    else:
        bins = mod.build() if hasattr(mod, "build") else {}
    ctx = vlib.Ctx(bins)
    try:
        run_case(sub, r["case"], ctx)
    except Violation as e:
        print("violated: %s" % e)
        return 1
    finally:
        ctx.close()
    print("held")
    return 0


PY = [sys.executable, "-B", os.path.abspath(__file__)]


def main(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    evfile = os.path.join(evid, prop + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    os.environ["VERIF_TIER_RUN"] = tier
    root = vlib.scratch_root()
    os.environ["TMPDIR"] = root
    mod = load(prop)
    try:
        bins = mod.build() if hasattr(mod, "build") else {}
    except Exception:
        traceback.print_exc()
        print("ERROR: cannot build the harness")
        return 2
    binsfile = os.path.join(root, "bins.json")
    with open(binsfile, "w") as f:
        json.dump(bins, f)
    tb = time.monotonic() - t0
    known_lines = []
    kf = getattr(mod, "known_findings", None)
    if kf:
        ctx = vlib.Ctx(bins)
        for line in kf(ctx):
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, line))
        ctx.close()

    only = os.environ.get("VERIF_SUB")
    subs = [s for s in mod.SUBS if not only or s.name == only]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    for s in subs:
        total = max(1, int(s.count[tier] * scale))
        k = max(1, min(s.workers, total))
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            sd = zlib.crc32(("%s/%s/%d/%d" % (prop, s.name, seed, i)).encode())
            jobs.append((i, s, n, sd))
    jobs.sort(key=lambda j: (j[1].alone, j[0]))
    running, results, failures, errors = {}, [], [], []
    qi = 0

    def stop_all():
        for p, *_ in running.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        for p, *_ in running.values():
            p.wait()
        running.clear()

    def onterm(*_):
        stop_all()
        sys.exit(2)
    signal.signal(signal.SIGTERM, onterm)
    try:
        while (qi < len(jobs) or running) and not failures and not errors:
            while qi < len(jobs) and len(running) < NCPU:
                i, s, n, sd = jobs[qi]
                if s.alone and running and not all(r[1].alone for r in running.values()):
                    break
                out = os.path.join(root, "out%d.json" % qi)
                log = open(os.path.join(root, "log%d" % qi), "wb")
                p = subprocess.Popen(PY + ["--worker", prop, s.name, str(n), str(s.budget[tier]), str(sd), out, binsfile],
                                     stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     start_new_session=True)
                log.close()
                running[qi] = (p, s, out, time.monotonic())
                qi += 1
            for q, (p, s, out, ts) in list(running.items()):
                rc = p.poll()
                if rc is None:
                    if time.monotonic() - ts > s.budget[tier] + s.shrink + 3 * CASE_LIMIT + 60:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = -1
                    else:
                        continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                del running[q]
                r = None
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                if rc == 1 and r and r["fail"] is not None:
                    failures.append((s, r))
                elif rc != 0 or r is None:
                    with open(os.path.join(root, "log%d" % q), errors="replace") as f:
                        errors.append("%s: worker ended with %s\n%s\n%s" % (s.name, rc, (r or {}).get("error", ""), f.read()[-3000:]))
                if r:
                    results.append((s, r))
            time.sleep(0.02)
    finally:
        stop_all()

    violation = None
    unrepro = 0
    for s, r in failures:
        d = {"property": prop, "sub": s.name, "case": r["fail"], "message": r["msg"], "seed": seed}
        path = os.path.join(evid, "replays", "%s-%s.json" % (prop, s.name))
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        bad = 0
        for _ in range(s.replays):
            p = subprocess.run(PY + ["--replay-with", binsfile, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            if p.returncode == 1 and "violated:" in p.stdout:
                bad += 1
                if bad >= 3 or hung(r["msg"]):
                    break
        if bad:
            violation = (s, path, r["msg"], bad)
            break
        unrepro += 1
        print("note: %s failed once but none of %d replays did: %s" % (s.name, s.replays, r["msg"]))

    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": sum(r["evaluations"] for _, r in results),
                       "distinct_nontrivial": 0, "rule": "; ".join("[%s] %s" % (s.name, s.rule) for s in subs),
                       "samples": [], "by_check": {}},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    for s in subs:
        rs = [r for t, r in results if t is s]
        hs = set()
        tags = {}
        for r in rs:
            hs.update(r["hashes"])
            for k, v in r["tags"].items():
                tags[k] = tags.get(k, 0) + v
        ev["coverage"]["distinct_nontrivial"] += len(hs)
        ev["coverage"]["by_check"][s.name] = {
            "evaluations": sum(r["evaluations"] for r in rs), "distinct_nontrivial": len(hs),
            "classes": dict(sorted(tags.items())), "not_run_for_time": sum(r["skipped"] for r in rs)}
        for r in rs[:2]:
            for c in r["samples"][:1]:
                ev["coverage"]["samples"].append({"check": s.name, "case": c})
    ev["coverage"]["build_s"] = round(tb, 2)
    if unrepro:
        ev["coverage"]["unreproduced_failures"] = unrepro
    if violation:
        ev["coverage"]["violation"] = {"check": violation[0].name, "message": violation[2][:2000]}
    if errors:
        ev["coverage"]["errors"] = errors[:2]
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    for s in subs:
        b = ev["coverage"]["by_check"][s.name]
        print("%s/%s: %d cases, %d distinct non-trivial%s" % (prop, s.name, b["evaluations"], b["distinct_nontrivial"],
              ", %d not run for time" % b["not_run_for_time"] if b["not_run_for_time"] else ""))
    if violation:
        s, path, msg, bad = violation
        print("%s: %s" % (s.name, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print(errors[0])
        print("ERROR: harness failure")
        return 2
    print("OK property=%s tier=%s wall=%.1fs build=%.1fs" % (prop, tier, wall, tb))
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        rc = worker(a[1:])
        sys.stdout.flush()
        os._exit(rc)
    if a and a[0] == "--replay-with":
        sys.exit(replay(a[2], a[1]))
    if a and a[0] == "--replay":
        vlib.scratch_root()
        sys.exit(replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(a[0].upper(), tier))
