#!/usr/bin/env python3
"""Runs the check of one property: build from /repo's working tree, run the workloads, watch, report.

  run.py C01 [--tier quick|thorough] [--seed N] [--cases-scale X]
  run.py --replay evidence/replay/C01-....json
  run.py --setup          (toolchain self-check)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
from checks import CHECKS, VARIANTS, SOURCES, ASSUME  # noqa: E402

REPO = os.environ.get("NFM_REPO", "/repo")
BUILD = os.environ.get("NFM_BUILD", HERE + "/build")
EVID = os.environ.get("NFM_EVIDENCE", HERE + "/evidence")
JOBS = int(os.environ.get("NFM_JOBS", str(os.cpu_count() or 8)))
KNOWN_FILE = HERE + "/known_findings.json"

ENV = dict(os.environ)
ENV.pop("LD_PRELOAD", None)
ENV["CCACHE_DIR"] = BUILD + "/ccache"
ENV["CCACHE_MAXSIZE"] = "3G"
ENV["CCACHE_COMPILERCHECK"] = "content" if False else "mtime"
ENV["CCACHE_NOHASHDIR"] = "1"
RUNENV = dict(ENV)
RUNENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=67:abort_on_error=0:handle_segv=1:allow_user_segv_handler=1:"
                          "detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:"
                          "allocator_may_return_null=0:max_allocation_size_mb=4096:"
                          "detect_container_overflow=1")
RUNENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=67:print_stacktrace=1"
RUNENV["TSAN_OPTIONS"] = "die_after_fork=0:exitcode=69:halt_on_error=1:report_bugs=1:second_deadlock_stack=1:history_size=4"
RUNENV["LSAN_OPTIONS"] = "exitcode=67"
RUNENV["TERM"] = "dumb"


class BuildError(Exception):
    src = None


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise BuildError("no compiler: " + ", ".join(names))


def repo_sources(names):
    out = []
    drop = {REPO + "/src/" + n[1:] for n in names if n.startswith("!")}
    for n in names:
        if n.startswith("!"):
            continue
        hits = sorted(glob.glob(REPO + "/src/" + n, recursive=True))
        out += hits
    seen, res = set(), []
    for h in out:
        if h not in seen and h not in drop:
            seen.add(h)
            res.append(h)
    return res


def all_library_sources(kokkos):
    return repo_sources(SOURCES["all"] if kokkos else SOURCES["core"])


def objname(src, flags):
    h = hashlib.sha1((src + "\0" + " ".join(flags)).encode()).hexdigest()[:12]
    return re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(src)) + "_" + h + ".o"


def compile_many(jobs):
    """jobs: list of (src, obj, cmd)."""
    def one(j):
        src, obj, cmd = j
        r = run(cmd, env=ENV)
        return src, r.returncode, r.stdout
    # big translation units first
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc != 0:
                e = BuildError("compiling %s failed:\n%s" % (src, out[-4000:]))
                e.src = src
                raise e


def plan_binary(prop, g, wd):
    """Returns dict describing how to build the binary of a group."""
    v = VARIANTS[g["variant"]]
    cxx = tool("clang++", "clang++-18")
    flags = ["-std=c++20", "-DNEOFOAM_DP_SCALAR=1", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-w",
             "-pthread"] + v["flags"] + g.get("defs", [])
    inc = []
    if g.get("kokkos", True):
        inc += ["-I" + HERE + "/shim/kokkos", "-I" + HERE + "/shim"]
    for d in g.get("inc", []):
        inc += ["-I" + HERE + "/" + d]
    inc += ["-I" + REPO + "/include", "-I" + HERE + "/harness"]
    srcs = [HERE + "/harness/" + s for s in g["harness"]] + [HERE + "/harness/nfh.cpp"]
    if g.get("kokkos", True):
        srcs.append(HERE + "/shim/nfm_runtime.cpp")
    lib = repo_sources(g["src"])
    return {"cxx": cxx, "flags": flags, "inc": inc, "srcs": srcs, "lib": lib, "ld": v.get("ld", v["flags"]),
            "kokkos": g.get("kokkos", True)}


def build_group(prop, g, wd):
    b = plan_binary(prop, g, wd)
    ccache = shutil.which("ccache")
    pre = [ccache] if ccache else []
    os.makedirs(wd, exist_ok=True)
    own = {HERE + "/harness/" + s for s in g["harness"]}

    def job(src):
        # flags for the workload only: groups of one property share the objects of the library
        extra = g.get("hflags", []) if src in own else []
        obj = wd + "/" + objname(src, b["flags"] + extra)
        cmd = pre + [b["cxx"]] + b["flags"] + extra + b["inc"] + ["-c", src, "-o", obj]
        return (src, obj, cmd)

    jobs = [job(s) for s in b["srcs"] + b["lib"]]
    return b, jobs


def link_group(prop, g, wd, b, jobs):
    exe = wd + "/" + prop + "_" + g["name"]
    def link(objs):
        return run([b["cxx"]] + b["ld"] + ["-pthread", "-fuse-ld=lld"] + objs + ["-o", exe] + g.get("libs", []), env=ENV) \
            if shutil.which("ld.lld") else run([b["cxx"]] + b["ld"] + ["-pthread"] + objs + ["-o", exe] + g.get("libs", []), env=ENV)
    r = link([j[1] for j in jobs])
    if r.returncode != 0 and "undefined" in r.stdout:
        # code moved to a translation unit that is not in the list of this check: use the whole library
        have = {j[0] for j in jobs}
        more = [s for s in all_library_sources(b["kokkos"]) if s not in have]
        pre = [shutil.which("ccache")] if shutil.which("ccache") else []
        mj = []
        for s in more:
            obj = wd + "/" + objname(s, b["flags"])
            mj.append((s, obj, pre + [b["cxx"]] + b["flags"] + b["inc"] + ["-c", s, "-o", obj]))
        compile_many(mj)
        r = link([j[1] for j in jobs + mj])
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (exe, r.stdout[-4000:]))
    return exe


def shard_cmd(exe, g, seed, first, count, tier, out, prog):
    c = [exe, "--seed", str(seed), "--first", str(first), "--count", str(count), "--out", out, "--progress", prog]
    if tier == "thorough":
        c.append("--thorough")
    c += g.get("args", [])
    return c


BAD = {65: "oracle", 66: "monitor", 67: "sanitizer", 69: "race detector"}


def run_proc(cmd, timeout, log, env):
    t0 = time.time()
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                             start_new_session=True, cwd=os.path.dirname(log))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = "timeout"
    # children the workload left behind
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return rc, time.time() - t0


def tail(path, n=6000):
    try:
        s = open(path, "rb").read()
    except OSError:
        return ""
    s = s.decode("utf8", "replace")
    for mark in ("CHECK-FAILED", "NFM-VIOLATION", "runtime error:", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer"):
        i = s.find(mark)
        if i >= 0:
            i = max(0, s.rfind("\n", 0, i))
            return s[i:i + n]
    return s[-n:]


def classify(rc, log):
    s = ""
    try:
        s = open(log, "rb").read().decode("utf8", "replace")
    except OSError:
        pass
    if rc == 0:
        return None
    if rc == "timeout":
        return "timeout"
    if rc in BAD:
        return BAD[rc]
    if rc == 97:
        return "harness-error"
    if "CHECK-FAILED" in s:
        return "oracle"
    if "NFM-VIOLATION" in s:
        return "monitor"
    if "AddressSanitizer" in s or "runtime error:" in s:
        return "sanitizer"
    if "ThreadSanitizer" in s:
        return "race detector"
    if isinstance(rc, int) and rc == -signal.SIGKILL:
        return "harness-error"
    if isinstance(rc, int) and rc < 0:
        return "crash (signal %d)" % -rc
    if isinstance(rc, int):
        return "unexpected exit %s" % rc
    return "harness-error"


def known_for(prop):
    try:
        data = json.load(open(KNOWN_FILE))
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == prop and k["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--only", help="only the group of this name")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        for c in ("clang++",):
            print(run([tool(c), "--version"]).stdout.splitlines()[0])
        print("ok: %d checks" % len(CHECKS))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        a.property, a.tier, a.seed, a.only = r["property"], r["tier"], r["seed"], r["group"]
        return check(a, replay=r)
    return check(a)


def check(a, replay=None):
    prop, tier, seed = a.property, a.tier, a.seed
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVID + "/replay", exist_ok=True)
    wd0 = BUILD + "/" + prop + ("-%d" % os.getpid())
    os.makedirs(wd0, exist_ok=True)
    try:
        return check_in(a, prop, tier, seed, c, t0, wd0, replay)
    finally:
        if not a.keep:
            shutil.rmtree(wd0, ignore_errors=True)


def check_in(a, prop, tier, seed, c, t0, wd0, replay):
    groups = [g for g in c["groups"] if not a.only or g["name"] == a.only]
    if tier == "quick":
        groups = [g for g in groups if g.get("quick", 0) > 0] or groups
    try:
        built = []
        alljobs = {}
        for g in groups:
            wd = wd0 + "/obj"
            b, jobs = build_group(prop, g, wd)
            built.append((g, wd, b, jobs))
            for j in jobs:
                alljobs[j[1]] = j
        compile_many(list(alljobs.values()))
        exes = {}
        with ThreadPoolExecutor(max_workers=JOBS) as ex:
            futs = [(g, ex.submit(link_group, prop, g, wd, b, jobs)) for g, wd, b, jobs in built]
            for g, f in futs:
                exes[g["name"]] = f.result()
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        # a documented interface that client code cannot use at all
        for g in groups:
            if e.src and os.path.basename(e.src) in g.get("probe", []):
                path = "%s/replay/%s-%s-build.json" % (EVID, prop, g["name"])
                with open(path, "w") as f:
                    json.dump(dict(property=prop, tier=tier, seed=seed, group=g["name"], first=0, count=1, kind="client code does not compile", report=str(e)), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        print("ERROR property=%s build failed" % prop)
        return 2
    tbuild = time.time() - t0
    known = known_for(prop)
    env = dict(RUNENV)
    env["NFM_KNOWN"] = ",".join(k["id"] for k in known)

    shards = []
    for g in groups:
        n = int((g["thorough"] if tier == "thorough" else g["quick"]) * a.scale) or 1
        ns = max(1, min(g.get("shards", JOBS), n))
        if replay:
            shards.append((g, replay["first"], replay["count"]))
            continue
        if tier == "thorough":
            ns = max(ns, min(n, ns * g.get("tshards", 4)))
        base = 0
        for i in range(ns):
            k = n // ns + (1 if i < n % ns else 0)
            if k:
                shards.append((g, base, k))
                base += k
    results = []
    lock = threading.Lock()
    stop = threading.Event()

    def one(i, sh):
        g, first, cnt = sh
        if stop.is_set():
            return None
        out = "%s/out%d.json" % (wd0, i)
        prog = "%s/prog%d" % (wd0, i)
        log = "%s/log%d" % (wd0, i)
        to = g.get("timeout", 240) if tier == "quick" else g.get("ttimeout", 3600)
        e2 = dict(env)
        e2.update(g.get("env", {}))
        if g.get("leaks") or os.environ.get("NFM_ALL_LEAKS"):
            e2["ASAN_OPTIONS"] = e2["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
            e2["NFM_LEAKS"] = "1"
        rc, dt = run_proc(shard_cmd(exes[g["name"]], g, seed, first, cnt, tier, out, prog), to, log, e2)
        kind = classify(rc, log)
        if kind:
            stop.set()
        return dict(g=g, first=first, cnt=cnt, out=out, prog=prog, log=log, rc=rc, kind=kind, dt=dt, env=e2, to=to)

    width = min([JOBS] + [g["width"] for g in groups if "width" in g])
    with ThreadPoolExecutor(max_workers=width) as ex:
        for r in ex.map(lambda t: one(*t), list(enumerate(shards))):
            if r:
                results.append(r)

    bad = [r for r in results if r["kind"]]
    viol = None
    errors = []
    for r in bad:
        if r["kind"] == "harness-error":
            errors.append(r)
            continue
        try:
            case = int(open(r["prog"]).read().split()[0])
        except (OSError, ValueError, IndexError):
            case = r["first"]
        # confirm on the single case; if it needs the history of the shard, on the shard
        g = r["g"]
        conf, first, cnt, log = False, case, 1, r["log"]
        slow = r["kind"] == "timeout"
        for f, n in ((case, 1), (r["first"], case - r["first"] + 1)):
            clog = r["log"] + ".confirm"
            rc, _ = run_proc(shard_cmd(exes[g["name"]], g, seed, f, n, tier, r["out"] + ".c", r["prog"] + ".c"),
                             120 if slow else r["to"], clog, r["env"])
            k = classify(rc, clog)
            if k and k != "harness-error":
                conf, first, cnt, log = True, f, n, clog
                break
            if slow:
                break
        if slow and not conf:
            errors.append(r)   # slow machine, not a hang
            continue
        viol = dict(property=prop, tier=tier, seed=seed, group=g["name"], variant=g["variant"], case=case, first=first,
                    count=cnt, kind=r["kind"], confirmed=conf, rc=str(r["rc"]), report=tail(log) or tail(r["log"]))
        break

    # merge what was observed
    tot = dict(cases=0, checks=0)
    counters, maxima, sets, samples, sigs, knownseen = {}, {}, {}, [], set(), {}
    bygroup = {}
    for r in results:
        try:
            d = json.load(open(r["out"]))
        except (OSError, ValueError):
            continue
        tot["cases"] += d["cases"]
        tot["checks"] += d["checks"]
        gname = r["g"]["name"]
        bg = bygroup.setdefault(gname, dict(variant=r["g"]["variant"], cases=0, oracle_evaluations=0, wall_s=0.0))
        bg["cases"] += d["cases"]
        bg["oracle_evaluations"] += d["checks"]
        bg["wall_s"] = round(max(bg["wall_s"], r["dt"]), 2)
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            maxima[k] = max(maxima.get(k, v), v)
        for k, v in d["sets"].items():
            sets.setdefault(k, set()).update(v)
        for s in d["samples"]:
            if len(samples) < 8 and s not in samples:
                samples.append(s)
        for s in d["sigs"]:
            sigs.add(gname + s if r["g"].get("sig_per_group") else s)
        for s in d.get("known", []):
            knownseen[s] = knownseen.get(s, 0) + 1
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["cases"], distinct_nontrivial=len(sigs), rule=c["rule"],
                            samples=samples or ["(none)"], oracle_evaluations=tot["checks"],
                            observed=counters, maxima=maxima,
                            distinct_observed={k: len(v) for k, v in sets.items()}, groups=bygroup,
                            build_s=round(tbuild, 2)),
              assumptions=ASSUME["core" if not any(g.get("kokkos", True) for g in c["groups"]) else "kokkos"] + c.get("assume", []),
              wall_s=round(wall, 2), violations=1 if viol else 0)
    if knownseen:
        ev["coverage"]["known_findings_seen"] = knownseen
    if not replay:
        with open("%s/%s.json" % (EVID, prop), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if k["id"] in knownseen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        path = "%s/replay/%s-%s-%d-%d.json" % (EVID, prop, viol["group"], seed, viol["case"])
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        sys.stderr.write(viol["report"][:5000] + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s, group %s, case %d, seed %d (confirmed: %s)" % (viol["kind"], viol["group"], viol["case"], seed, viol["confirmed"]))
        return 1
    if errors:
        for r in errors:
            sys.stderr.write("shard %s %d+%d: %s rc=%s\n%s\n" % (r["g"]["name"], r["first"], r["cnt"], r["kind"], r["rc"], tail(r["log"], 3000)))
        print("ERROR property=%s workload did not finish" % prop)
        return 2
    short = c.get("min", 2)
    if len(sigs) < short:
        print("ERROR property=%s only %d distinct cases observed" % (prop, len(sigs)))
        return 2
    print("OK property=%s cases=%d distinct=%d oracle_evaluations=%d build=%.1fs wall=%.1fs"
          % (prop, tot["cases"], len(sigs), tot["checks"], tbuild, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
