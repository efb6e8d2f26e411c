#!/usr/bin/env python3
"""Decides one property by generated-input search.

  run.py C07                 quick or thorough tier (VERIF_TIER), seed VERIF_SEED
  run.py --replay FILE       re-executes one recorded case
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import PLAN, BUILDS, LEVEL, ASSUME  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
NCPU = 8
CASE_LIMIT = 120  # seconds; cases take milliseconds, those of the big modes seconds
STOP = {"at": float("inf")}  # when workers still running are to be ended, because there is a violation already


class CheckError(Exception):
    pass


def build(name):
    b = BUILDS[name]
    tdir = os.path.join(VERIF, "target", name)
    cmd = ["cargo"] + ([b["toolchain"]] if b.get("toolchain") else []) + ["build", "--offline", "--target-dir", tdir] + b["args"]
    env = dict(os.environ)
    env.update(b.get("env", {}))
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        if k not in b.get("env", {}):
            env.pop(k, None)
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build %s failed:\n%s" % (name, p.stdout[-4000:]))
    exe = os.path.join(tdir, b["out"])
    if not os.path.exists(exe):
        raise CheckError("no binary " + exe)
    return exe


JAVA = os.path.join(VERIF, "target", "java")


def build_java():
    """the Java binding, from the tree the harness depends on"""
    repo = re.search(r'imagequant = \{ path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read()).group(1)
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS")}
    p = subprocess.run(["bash", os.path.join(VERIF, "java", "build.sh"), repo, JAVA], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build of the Java binding failed:\n" + p.stdout[-4000:])


def run_env(job, bname):
    env = dict(os.environ)
    if job.get("java"):
        env["LIQ_JAVA"] = JAVA
    if job.get("peer"):
        # a second process of this or another build that the first one compares itself with
        env["LIQ_PEER"] = os.path.join(VERIF, "target", job["peer"], BUILDS[job["peer"]]["out"])
        env["LIQ_PEER_THREADS"] = str(job.get("peer_threads", 1))
    env["RAYON_NUM_THREADS"] = str(job.get("threads", 1))
    env["MALLOC_ARENA_MAX"] = "2"
    env.update(BUILDS[bname].get("run_env", {}))
    env.update(job.get("env", {}))
    return env


def died(rc, bname):
    """the process was ended by the code under test"""
    if rc < 0 and -rc in CRASH:
        return True
    return rc == BUILDS[bname].get("crash_rc", -999)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def confirm_hang(cur, bname, job, exe, env, limit):
    """a case that does not end: a violation when it does not end on its own either"""
    case = json.load(open(cur))
    p = subprocess.Popen([exe, "replay", "--case", cur], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=WORK, start_new_session=True)
    try:
        p.wait(limit)
        return {"error": "a case exceeded %d s, but ended when it was repeated" % limit}
    except subprocess.TimeoutExpired:
        kill_group(p)
    case["message"] = "the calls of this case did not return within %d s" % limit
    return {"evaluations": case.get("index", 0) + 1, "nontrivial": [], "labels": {}, "samples": [], "rule": "", "violation": case, "build": bname, "job": job}


def worker(prop, job, exe, bname, w, seed, thorough, cases, timeout):
    out = os.path.join(WORK, "%s-%s-%s-%d.json" % (prop, bname, job.get("mode", ""), w))
    cur = out[:-5] + ".cur.json"
    for f in (out, cur):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "run", "--prop", prop, "--mode", job.get("mode", ""), "--cases", str(cases), "--seed", str(seed), "--worker", str(w), "--out", out]
    if thorough:
        cmd.append("--thorough")
    env = run_env(job, bname)
    limit = job.get("case_limit", CASE_LIMIT)
    errf = open(out[:-5] + ".stderr", "w+b")
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=errf, cwd=WORK, start_new_session=True)
    end = time.time() + timeout
    while p.poll() is None:
        time.sleep(0.2)
        now = time.time()
        try:
            hung = now - os.path.getmtime(cur) > limit
        except OSError:
            hung = False
        if hung or now > end or now > STOP["at"]:
            kill_group(p)
            if hung:
                return confirm_hang(cur, bname, job, exe, env, limit)
            if now > STOP["at"]:
                return {"stopped": True}
            return {"error": "worker %s exceeded its time limit of %d s" % (os.path.basename(out), timeout)}
    errf.seek(0)
    perr = errf.read()
    errf.close()
    if p.returncode in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        d["build"], d["job"] = bname, job
        return d
    err = perr.decode("utf-8", "replace")
    if died(p.returncode, bname) and os.path.exists(cur):
        case = json.load(open(cur))
        case["message"] = "the process died (%d): %s" % (p.returncode, err[:1500])
        # reproduce in isolation and shrink; keep the original when that does not work
        try:
            q = subprocess.run(cmd + ["--isolate-from", str(case.get("index", 0))], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150, cwd=WORK)
            if q.returncode == 1 and os.path.exists(out):
                v = json.load(open(out)).get("violation")
                if v:
                    case = v
        except subprocess.TimeoutExpired:
            pass
        return {"evaluations": case.get("index", 0) + 1, "nontrivial": [], "labels": {}, "samples": [], "rule": "", "violation": case, "build": bname, "job": job}
    return {"error": "worker %s ended with %s: %s" % (os.path.basename(out), p.returncode, err[-1500:])}


def known():
    f = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(f))["findings"] if k.get("status") == "open"] if os.path.exists(f) else []


def is_known(prop, v):
    return [x for x in known() if x["property"] == prop and re.search(x["match"], v["message"])]


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    jobs = [j for j in PLAN[prop] if thorough or not j.get("thorough_only")]
    exes = {}
    for j in jobs:
        exes.setdefault(j["build"], None)
        if j.get("peer"):
            exes.setdefault(j["peer"], None)
    for b in exes:
        exes[b] = build(b)
    if any(j.get("java") for j in jobs):
        build_java()
    tb = time.time() - t0
    tasks = []
    for j in jobs:
        n = j["thorough"] if thorough else j["quick"]
        for w in range(j.get("workers", NCPU)):
            tasks.append((j, w, n))
    # long ones first, workers of one job side by side
    results, errors = [], []
    timeout = 3 * 3600 if thorough else 600
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        futs = []
        for j, w, n in sorted(tasks, key=lambda t: -t[0].get("weight", 1)):
            futs.append(ex.submit(worker, prop, j, exes[j["build"]], j["build"], w, seed, thorough, n, timeout))
        for f in cf.as_completed(futs):
            if f.cancelled():
                continue
            r = f.result()
            if r.get("stopped"):
                continue
            (errors if "error" in r else results).append(r)
            if r.get("violation") and not is_known(prop, r["violation"]):
                for g in futs:
                    g.cancel()
                # others may find a smaller case
                STOP["at"] = min(STOP["at"], time.time() + 15)
    results = [r for r in results if r]
    violations, knowns = [], []
    for r in results:
        v = r.get("violation")
        if v:
            v["build"] = r["build"]
            for k in ("threads", "peer", "peer_threads", "java"):
                if k in r["job"]:
                    v[k] = r["job"][k]
            k = is_known(prop, v)
            (knowns if k else violations).append((v, k))
    hashes = set()
    labels, evals, samples, rules = {}, 0, [], []
    by_mode = {}
    for r in results:
        evals += r["evaluations"]
        hashes.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if r["rule"] and r["rule"] not in rules:
            rules.append(r["rule"])
        m = "%s/%s" % (r["build"], r["job"].get("mode") or "main")
        by_mode[m] = by_mode.get(m, 0) + r["evaluations"]
    for r in results:
        if len(samples) < 4:
            samples += r["samples"][:1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": " | ".join(rules) or "none", "samples": samples,
                     "labels": dict(sorted(labels.items())), "cases_by_build_and_mode": by_mode, "build_s": round(tb, 1)},
        "assumptions": ASSUME.get(prop, []) + ASSUME["*"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v, k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
    if violations:
        v = min((v for v, _ in violations), key=lambda v: len(json.dumps(v)))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        txt = json.dumps(v, indent=1)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        open(path, "w").write(txt)
        print(v["message"][:1000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e["error"], file=sys.stderr)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.0f s" % (prop, evals, len(hashes), time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    b = v.get("build", "rel")
    exe = build(b)
    if v.get("peer"):
        build(v["peer"])
    if v.get("java"):
        build_java()
    try:
        rc = subprocess.run([exe, "replay", "--case", os.path.abspath(path)], env=run_env(v, b), timeout=CASE_LIMIT * 3).returncode
    except subprocess.TimeoutExpired:
        rc = 1
    if rc == 0:
        return 0
    if rc == 1 or died(rc, b):
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    return 2


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return check(prop, tier, seed)
    except CheckError as e:
        print("ERROR", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
