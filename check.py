#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decide one property by bounded symbolic execution.

Builds the engine, the bitcode of every source file of /repo and the property's harness
(all cached by content hash under build/), runs the harness entries, replays every
counterexample natively and writes evidence/<property>.json.
"""
import sys, os, json, hashlib, subprocess, time, re, shutil, threading, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
import checks as CFG

CLANG = "clang++-18"
SYM_FLAGS = ["-std=c++20", "-DVP_SYM", "-O1", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize",
             "-fno-unroll-loops", "-gline-tables-only",
             "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,float-cast-overflow,builtin,bounds",
             "-fsanitize-trap=all", "-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "engine"), "-emit-llvm", "-c", "-w"]
NAT_FLAGS = ["-std=c++20", "-O0", "-gline-tables-only", "-DNDEBUG", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "engine")]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def fdata(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(fdata(p))
    return h.hexdigest()


def sources():
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                r.append(os.path.join(d, f))
    return r


def make(out, cmd, log=None):
    """run a build command producing `out` atomically; returns (ok, message)"""
    if os.path.exists(out):
        return True, ""
    tmp = out + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run([tmp if c == "@OUT" else c for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return False, r.stdout.decode("utf-8", "replace")
    os.replace(tmp, out)
    return True, ""


def engine_job():
    src = [os.path.join(ROOT, "engine", f) for f in ("symex.cpp", "interp.h", "expr.h")]
    out = os.path.join(BUILD, "symex-" + sha(*[fdata(s) for s in src]))
    return out, ["g++", "-O2", "-g1", "-std=c++20", "-w", src[0], "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib",
                 "-lLLVM-18", "-lz3", "-lpthread", "-o", "@OUT"]


def hdeps():
    return b"".join(fdata(os.path.join(ROOT, "harness", f)) for f in sorted(os.listdir(os.path.join(ROOT, "harness"))) if f.endswith(".h")) + fdata(os.path.join(ROOT, "engine", "vp.h"))


def build(harnesses, skip):
    """-> (symex, {harness: bc}, [lib bcs])"""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    jobs = []
    eng, ecmd = engine_job()
    jobs.append((eng, ecmd))
    hb = {}
    for h in harnesses:
        p = os.path.join(ROOT, "harness", h)
        out = os.path.join(BUILD, "h-" + sha(th, fdata(p), hdeps(), " ".join(SYM_FLAGS)) + ".bc")
        hb[h] = out
        jobs.append((out, [CLANG] + SYM_FLAGS + [p, "-o", "@OUT"]))
    libs = []
    for s in sources():
        if os.path.basename(s) in skip:
            continue
        out = os.path.join(BUILD, "s-" + sha(th, os.path.relpath(s, REPO), " ".join(SYM_FLAGS)) + ".bc")
        libs.append(out)
        jobs.append((out, [CLANG] + SYM_FLAGS + [s, "-o", "@OUT"]))
    rt = os.path.join(ROOT, "engine", "rt.cpp")
    out = os.path.join(BUILD, "rt-" + sha(fdata(rt), " ".join(SYM_FLAGS)) + ".bc")
    libs.append(out)
    jobs.append((out, [CLANG] + SYM_FLAGS + [rt, "-o", "@OUT"]))
    # longest first
    order = {"xchar.cpp": 0, "format.cpp": 1}
    jobs.sort(key=lambda j: min([order.get(os.path.basename(c), 5) for c in j[1]] + [1 if "/harness/" in c else 5 for c in j[1]]))
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        res = list(ex.map(lambda j: (j, make(*j)), jobs))
    for j, (ok, msg) in res:
        if not ok:
            print("BUILD-FAILED: " + " ".join(j[1]))
            print(msg[-6000:])
            sys.exit(2)
    return eng, hb, libs


RUNNING = set()
LOCK = threading.Lock()


def run_symex(eng, bcs, run, deadline, outdir):
    """execute one entry; returns the merged result"""
    name = run["entry"] + "".join("_%d" % p for p in run.get("params", []))
    out = os.path.join(outdir, name + ".json")
    for f in os.listdir(outdir):
        if f.startswith(name + ".json"):
            os.unlink(os.path.join(outdir, f))
    left = deadline - time.time()
    mt = min(run.get("time", 600), left)
    if mt < 1:
        return {"name": name, "skipped": True, "complete": False, "timed_out": True}
    cmd = [eng, "--entry", run["entry"], "--out", out, "--jobs", str(run.get("jobs", 1)), "--max-time", "%.1f" % mt,
           "--max-insn", str(run.get("max_insn", 3000000)), "--query-timeout", str(run.get("qt", 30000)), "--max-errors", str(run.get("max_errors", 6)),
           "--mem", str(run.get("mem", 3500 if run.get("jobs", 1) > 1 else 3500))]
    for p in run.get("params", []):
        cmd += ["--param", str(p)]
    if os.environ.get("VP_SHOW"):
        print(" ".join(cmd + bcs), flush=True)
    p = subprocess.Popen(cmd + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    with LOCK:
        RUNNING.add(p.pid)
    try:
        o, _ = p.communicate(timeout=mt + 90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        o += b"\nkilled: over time"
    with LOCK:
        RUNNING.discard(p.pid)
    parts = []
    if p.returncode == 0 and os.path.exists(out):
        for f in sorted(os.listdir(outdir)):
            if f == name + ".json" or f.startswith(name + ".json."):
                try:
                    parts.append(json.load(open(os.path.join(outdir, f))))
                except ValueError:
                    parts.append({"complete": False})
    if not parts:
        return {"name": name, "engine_error": (o or b"").decode("utf-8", "replace")[-1500:], "complete": False}
    m = {"name": name, "complete": True, "timed_out": False, "reach": {}, "functions": {}, "errors": [], "unsupported": [], "samples": []}
    for q in parts:
        m["complete"] &= bool(q.get("complete"))
        m["timed_out"] |= bool(q.get("timed_out"))
        for k in ("paths", "completed", "assumed_away", "errored", "forks", "insns", "queries", "cache_hits", "sat", "unsat", "unknown", "dropped", "asserts", "assert_queries", "solver_s"):
            m[k] = m.get(k, 0) + q.get(k, 0)
        for k in ("max_query_s", "wall_s"):
            m[k] = max(m.get(k, 0), q.get(k, 0))
        for k, v in q.get("reach", {}).items():
            m["reach"][k] = m["reach"].get(k, 0) + int(v)
        for k, v in q.get("functions", {}).items():
            m["functions"][k] = m["functions"].get(k, 0) + int(v)
        m["errors"] += q.get("errors", [])
        m["samples"] += q.get("samples", [])
        m["unsupported"] = sorted(set(m["unsupported"]) | set(q.get("unsupported", [])))
    if m["unsupported"] or m.get("dropped"):
        m["complete"] = False
    return m


# ------------------------------------------------------------------ native replay
def native_build(harness, kind, skip):
    """kind: asan | plain"""
    th = tree_hash()
    p = os.path.join(ROOT, "harness", harness)
    fl = NAT_FLAGS + (["-fsanitize=address,undefined", "-fno-omit-frame-pointer"] if kind == "asan" else [])
    objs, jobs = [], []
    for s in [s for s in sources() if os.path.basename(s) not in skip] + [p, os.path.join(ROOT, "engine", "vp_native.cpp")]:
        o = os.path.join(BUILD, "n-" + sha(th, s, fdata(s), hdeps() if s.startswith(ROOT) else "", " ".join(fl)) + ".o")
        objs.append(o)
        jobs.append((o, [CLANG] + fl + ["-c", s, "-o", "@OUT"]))
    jobs.sort(key=lambda j: {"xchar.cpp": 0, "format.cpp": 1}.get(os.path.basename(j[1][-3]), 1 if "/harness/" in j[1][-3] else 5))
    exe = os.path.join(BUILD, "n-" + sha("exe", *objs))
    if not os.path.exists(exe):
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            for ok, msg in ex.map(lambda j: make(*j), jobs):
                if not ok:
                    return None, msg
        ok, msg = make(exe, [CLANG] + (["-fsanitize=address,undefined"] if kind == "asan" else []) + objs + ["-rdynamic", "-o", "@OUT", "-lpthread", "-ldl"])
        if not ok:
            return None, msg
    return exe, ""


def replay_native(harness, entry, path, kind, skip, timeout=30):
    """-> (verdict, detail): verdict in violated | held | assume | unknown"""
    uninit = kind == "uninit"
    exe, msg = native_build(harness, "plain" if uninit else "asan", skip)
    if not exe:
        return "unknown", "native build failed: " + msg[-800:]
    cmd = (["valgrind", "-q", "--error-exitcode=9"] if uninit else []) + [exe, path, entry]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=9:detect_container_overflow=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=9:print_stacktrace=1")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout * (6 if uninit else 1), cwd="/tmp")
    except subprocess.TimeoutExpired:
        return "violated", "did not terminate within %d s" % timeout
    t = r.stdout.decode("utf-8", "replace")
    if r.returncode == 77:
        return "assume", t[-600:]
    if r.returncode == 0 and "HELD" in t:
        return "held", t[-600:]
    if "NO-ENTRY" in t:
        return "unknown", t[-600:]
    return "violated", t[:1800]


def write_replay(pid, n, harness, run, err):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (pid, n))
    with open(p, "w") as f:
        f.write("# property %s\n# harness %s\n# entry %s\n# kind %s: %s\n# at %s\n" % (pid, harness, run["entry"], err["kind"], err["msg"], err["where"]))
        for l in err["stack"].splitlines():
            f.write("# " + l + "\n")
        for q in run.get("params", []):
            f.write("param %d\n" % q)
        for nm, hx in err["input"]:
            f.write("in %s %s\n" % (re.sub(r"\s", "_", nm) or "x", hx or "-"))
    return p


def known():
    """finding ids listed in known_findings.txt: {(property, id): text}"""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    prop = CFG.CHECKS[pid]
    runs = [dict(r) for r in prop["runs"] if r.get("tier", "both") in ("both", tier)]
    if only:
        runs = [r for r in runs if re.search(only, r["entry"] + "".join("_%d" % p for p in r.get("params", [])))]
    for r in runs:
        if tier == "thorough" and "thorough" in r:
            r.update(r["thorough"])
    budget = prop.get("budget", {}).get(tier, 300 if tier == "quick" else 3600)
    harnesses = sorted(set(r.get("file", pid + ".cpp") for r in runs))
    skip = prop.get("skip", ["winapi.cpp", "xchar.cpp", "print.cpp", "color.cpp"])
    eng, hb, libs = build(harnesses, skip)
    tb = time.time() - t0
    deadline = time.time() + budget
    outdir = os.path.join(BUILD, "out-" + pid + "-" + tier)
    os.makedirs(outdir, exist_ok=True)
    slots = threading.Semaphore(os.cpu_count())
    big = threading.Lock()

    def one(r):
        n = min(r.get("jobs", 1), os.cpu_count())
        with big:
            for _ in range(n):
                slots.acquire()
        try:
            return run_symex(eng, [hb[r.get("file", pid + ".cpp")]] + libs, r, deadline, outdir)
        finally:
            for _ in range(n):
                slots.release()
    runs.sort(key=lambda r: -r.get("weight", 1))
    with ThreadPoolExecutor(64) as ex:
        res = list(ex.map(one, runs))

    kn = known()
    seen_known = {}
    violations, unconfirmed, problems = [], [], []
    errkeys = set()
    n = 0
    todo = []
    for r, m in zip(runs, res):
        for e in m.get("errors", []):
            k = re.match(r"KF:(\S+?):", e["msg"])
            if k and (pid, k.group(1)) in kn:
                seen_known.setdefault(k.group(1), e)
                continue
            todo.append((r, m, e))
    # confirm natively, most distinct first
    for r, m, e in todo:
        key = (e["kind"], e["msg"], e["where"])
        if key in errkeys or n >= 8 or time.time() - t0 > 780 and violations:
            continue
        errkeys.add(key)
        n += 1
        h = r.get("file", pid + ".cpp")
        path = write_replay(pid, n, h, r, e)
        v, detail = replay_native(h, r["entry"], path, e["kind"], skip)
        with open(path, "a") as f:
            f.write("# native: %s\n" % v)
            for l in detail.splitlines()[:30]:
                f.write("#   " + l + "\n")
        rec = (path, r, m, e, v, detail)
        if v == "violated":
            violations.append(rec)
            if len(violations) >= 3:
                break
        else:
            unconfirmed.append(rec)
    for r, m in zip(runs, res):
        if not m.get("complete") and not m.get("errors"):
            problems.append("%s: exploration incomplete (%s)" % (m["name"], m.get("engine_error") or "; ".join(m.get("unsupported", [])[:4]) or ("time" if m.get("timed_out") else "solver timeouts: %d" % m.get("dropped", 0))))
        elif m.get("complete") and not m.get("errors"):
            for want in r.get("reach", ["end"]):
                if not m["reach"].get(want):
                    problems.append("%s: label '%s' never reached (vacuous)" % (m["name"], want))
    for rec in unconfirmed:
        problems.append("%s: solver counterexample not confirmed natively (%s: %s at %s; native %s) %s" % (rec[2]["name"], rec[3]["kind"], rec[3]["msg"], rec[3]["where"], rec[4], rec[0]))

    # sampled path models replayed against the native build (validates the encoding)
    validated = 0
    if tier == "thorough" and not violations or os.environ.get("VP_VALIDATE"):
        for r, m in zip(runs, res):
            for i, s in enumerate(m.get("samples", [])[:8]):
                h = r.get("file", pid + ".cpp")
                p = write_replay(pid, 9000, h, r, {"kind": "sample", "msg": "", "where": "", "stack": "", "input": s})
                v, detail = replay_native(h, r["entry"], p, "sample", skip)
                if v == "held":
                    validated += 1
                else:
                    q = p.replace("9000", "s-%s-%d" % (m["name"], i))
                    shutil.copy(p, q)
                    problems.append("%s: native run of a completed path disagrees (%s) %s %s" % (m["name"], v, q, detail[:200]))

    for k, e in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[(pid, k)]))
    for (p, k), text in sorted(kn.items()):
        if p == pid and k not in seen_known and not only and text:
            problems.append("known finding %s was not observed in this run" % k)
    tot = lambda k: sum(m.get(k, 0) or 0 for m in res)
    fnset = {}
    for m in res:
        for k, v in m.get("functions", {}).items():
            fnset[k] = fnset.get(k, 0) + v
    names = sorted(fnset)
    try:
        d = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    except Exception:
        d = names
    lib_fns = sorted(set(x for x in d if "papilio::" in x and not x.startswith("std::") and not x.startswith("void std::")))
    samples = []
    for r, m in zip(runs, res):
        for s in m.get("samples", [])[-1:]:
            samples.append({"entry": m["name"], "inputs": {"%d:%s" % (i, a): b for i, (a, b) in enumerate(s)}})
    complete = all(m.get("complete") for m in res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "other"),
        "coverage": {
            "explanation": prop["what"] + " Each harness entry is executed symbolically from LLVM bitcode compiled from the current /repo sources; every branch, assertion, memory access and arithmetic trap with a symbolic operand is decided by z3 for all values within the bounds; counterexamples are replayed against a native sanitizer build.",
            "bounds": prop["bounds"],
            "complete_within_bounds": complete,
            "entries": [{"entry": m["name"], "complete": m.get("complete"), "paths": m.get("paths", 0), "completed_paths": m.get("completed", 0), "assumed_away": m.get("assumed_away", 0), "instructions": m.get("insns", 0), "queries": m.get("queries", 0), "solver_s": round(m.get("solver_s", 0), 2), "wall_s": round(m.get("wall_s", 0), 2), "reached": m.get("reach", {}), "unsupported": m.get("unsupported", [])} for m in res],
            "paths": tot("paths"), "completed_paths": tot("completed"), "instructions": tot("insns"), "forks": tot("forks"),
            "queries": tot("queries"), "query_cache_hits": tot("cache_hits"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "assertions_checked": tot("asserts"), "assertions_needing_solver": tot("assert_queries"),
            "solver_s": round(tot("solver_s"), 2), "max_query_s": round(max([m.get("max_query_s", 0) for m in res] or [0]), 2),
            "functions_encoded": len(fnset), "library_functions_encoded": len(lib_fns), "library_functions": [x[:200] for x in lib_fns[:60]],
            "native_validated_samples": validated, "samples": samples[:6], "build_s": round(tb, 1), "problems": problems,
        },
        "assumptions": CFG.COMMON_ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d entries, %d paths, %d queries (%.1f s solver, max %.1f s), %d functions, %s, build %.0f s, wall %.0f s" % (
        pid, tier, len(res), tot("paths"), tot("queries"), tot("solver_s"), ev["coverage"]["max_query_s"], len(fnset), "complete within bounds" if complete else "INCOMPLETE", tb, time.time() - t0))
    if os.environ.get("VP_DETAIL"):
        for m in res:
            print("   %-40s paths %6d insns %9d queries %6d solver %7.1f wall %6.1f %s %s" % (m["name"], m.get("paths", 0), m.get("insns", 0), m.get("queries", 0), m.get("solver_s", 0), m.get("wall_s", 0), ("ok" if m.get("complete") else "INCOMPLETE") + (" ERRORS %d" % len(m["errors"]) if m.get("errors") else ""), m.get("reach")))
    for p in problems:
        print("NOTE: " + p)
    for path, r, m, e, v, detail in violations:
        print("  %s: %s: %s at %s" % (m["name"], e["kind"], e["msg"], e["where"]))
        print("    " + "\n    ".join(detail.splitlines()[:6]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
