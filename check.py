#!/usr/bin/env python3
"""Runs the property-based check of one property.

  check.py <ID>                 tier from VERIF_TIER (quick), seed from VERIF_SEED
  check.py <ID> --thorough      same, thorough tier
  check.py <ID> --replay FILE   replays a recorded violation

Exit 0: the property held on everything generated. Exit 1 with a VIOLATION line:
it is broken. Exit 2: no answer (build failure, time limit, lack of memory).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

GO127 = "/opt/veriftools/go1.27.3/bin"
REPO_FRAME = "github.com/sp301415/tfhe-go"


def go_env():
    e = dict(os.environ)
    if os.path.isdir(GO127):
        e["PATH"] = GO127 + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false",
             GOWORK="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def build(pkg, config, out):
    """Builds a test binary from /repo's working tree."""
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if config == "purego":
        cmd.append("-tags=purego")
    if config == "race":
        # The race detector cannot see the assembly's accesses.
        cmd += ["-race", "-tags=purego"]
    cmd.append("./" + pkg)
    # The module file goes through a copy, so that the committed one stays as it is.
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def run_shard(job):
    """Runs one process; returns a dict with its outcome."""
    env = go_env()
    env["VERIF_TIER"] = job["tier"]
    env["VH_SHARDS"] = str(job["shards"])
    env["VH_SHARD"] = str(job["shard"])
    env["VH_DIV"] = str(job["div"])
    env["VH_STATS"] = os.path.join(job["dir"], "stats.json")
    env["GOMAXPROCS"] = str(job.get("procs", 2))
    env["GOMEMLIMIT"] = "3500MiB"
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env.pop("GODEBUG", None)
    if job["config"] == "cpuoff":
        env["GODEBUG"] = "cpu.all=off"
    cmd = [job["bin"], "-test.run", "^(%s)$" % job["tests"], "-test.timeout", "%ds" % job["timeout"],
           "-rapid.seed=%d" % job["seed"]]
    if job.get("failfile"):
        cmd.append("-rapid.failfile=" + job["failfile"])
    start = time.time()
    p = subprocess.Popen(cmd, cwd=job["dir"], env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=job["timeout"] + 20)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        code = -999
    text = out.decode("utf-8", "replace")
    stats = []
    try:
        stats = json.load(open(env["VH_STATS"]))
    except Exception:
        pass
    return dict(job=job, code=code, out=text, stats=stats, wall=time.time() - start)


def classify(res):
    """ok, violation or error."""
    code, out = res["code"], res["out"]
    if code == 0:
        return "ok"
    if "out of memory" in out or code in (-9, 137):
        return "error"
    if "WARNING: DATA RACE" in out:
        return "violation" if REPO_FRAME in out else "error"
    if "VH-HANG" in out:
        return "violation" if REPO_FRAME in out.split("VH-HANG", 1)[1] else "error"
    if code == -999 or "panic: test timed out" in out:
        return "error"
    if "fatal error:" in out or re.search(r"^(panic|SIG\w+|unexpected fault)", out, re.M):
        if "--- FAIL" in out and "[rapid]" in out:
            return "violation"
        return "violation" if REPO_FRAME in out else "error"
    if "--- FAIL" in out:
        if "[rapid] flaky" in out and "VH-CONC" not in out:
            pass
        if "unable to generate a valid value" in out or "[rapid] only generated" in out:
            return "error"
        return "violation"
    return "error"


def summary(out):
    """The lines of a failing test's output that say what failed."""
    keep = [l.strip() for l in out.splitlines()
            if re.search(r"(_test\.go:\d+|\[rapid\]|panic|fatal error|DATA RACE|VH-HANG|--- FAIL)", l)]
    return keep[:12]


def load_known(prop):
    """Entries of KNOWN_FINDINGS.txt: 'finding: property=ID match=<regex> what' and 'fixed: ...'."""
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    return known


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    try:
        base_seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base_seed = 1
    check = CHECKS[prop]
    start = time.time()
    budget = 800 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "7200"))

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    code = 2
    try:
        code = work(prop, check, tier, base_seed, replay, scratch, start, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def work(prop, check, tier, base_seed, replay, scratch, start, budget):
    runs = check["runs"]
    rp = None
    if replay:
        rp = json.load(open(replay))
        runs = [dict(pkg=rp["pkg"], tests=rp["tests"], config=rp["config"])]

    bins = {}
    for r in runs:
        c = r.get("config", "default")
        bc = "default" if c == "cpuoff" else c
        bins[(r["pkg"], bc)] = None
    for (pkg, bc) in bins:
        out = os.path.join(scratch, "%s-%s.test" % (pkg, bc))
        rc, msg = build(pkg, bc, out)
        if rc != 0 or not os.path.exists(out):
            print("ERROR property=%s the %s harness does not build (%s):\n%s" % (prop, pkg, bc, msg))
            return 2
        bins[(pkg, bc)] = out

    jobs = []
    for ri, r in enumerate(runs):
        c = r.get("config", "default")
        if r.get("thorough_only") and tier != "thorough":
            continue
        shards = 1 if replay else r.get("shards", 1)
        if tier == "thorough" and not replay:
            shards = r.get("tshards", max(8, shards) if c == "default" else max(4, shards))
        for s in range(shards):
            d = os.path.join(scratch, "run%d-%d" % (ri, s))
            os.mkdir(d)
            h = hashlib.sha256(("%d|%s|%s|%s|%d" % (base_seed, prop, r["tests"], c, s)).encode()).digest()
            seed = int.from_bytes(h[:8], "little") >> 2 or 1
            job = dict(bin=bins[(r["pkg"], "default" if c == "cpuoff" else c)], pkg=r["pkg"],
                       tests=r["tests"], config=c, shards=shards, shard=s, div=r.get("div", 1),
                       dir=d, seed=seed, tier=tier, procs=r.get("procs", 2),
                       timeout=max(60, int(budget - (time.time() - start))))
            if replay:
                job.update(seed=rp["seed"], shards=rp["shards"], shard=rp["shard"], tier=rp["tier"])
                if rp.get("failfile"):
                    ff = os.path.join(d, "replay.fail")
                    open(ff, "w").write(rp["failfile"])
                    job["failfile"] = ff
            jobs.append(job)

    workers = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    workers = max(1, min(workers, check.get("workers", 8)))
    results = []
    with ThreadPoolExecutor(workers) as ex:
        for res in ex.map(run_shard, jobs):
            results.append(res)

    violations, errors, findings = [], [], {}
    known = load_known(prop)
    for res in results:
        for line in res["out"].splitlines():
            m = re.search(r"VH-FINDING key=(\S+)", line)
            if m:
                findings.setdefault(m.group(1), []).append((res, line))
        k = classify(res)
        if k == "violation":
            violations.append(res)
        elif k == "error":
            errors.append(res)
    known_keys = {k for k, _ in known}
    for key, lst in findings.items():
        if key not in known_keys:
            violations.append(lst[0][0])

    if not replay:
        write_evidence(prop, check, tier, base_seed, results, violations, time.time() - start)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    for res in results:
        j = res["job"]
        print("run %s %s [%s] shard %d/%d: exit %d in %.1fs, %s" % (
            j["pkg"], j["tests"], j["config"], j["shard"] + 1, j["shards"], res["code"], res["wall"],
            ", ".join("%s %d cases" % (s["test"], s["evals"]) for s in res["stats"]) or "no statistics"))
    if violations:
        for res in violations[:3]:
            path = save_replay(prop, res)
            for l in summary(res["out"]):
                print("  " + l[:400])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for res in errors[:3]:
            print("ERROR property=%s %s [%s] exit %d" % (prop, res["job"]["tests"], res["job"]["config"], res["code"]))
            print(res["out"][-3000:])
        return 2
    print("OK property=%s %d cases in %.1fs" % (prop, sum(s["evals"] for r in results for s in r["stats"]), time.time() - start))
    return 0


def save_replay(prop, res):
    j = res["job"]
    fail = None
    td = os.path.join(j["dir"], "testdata", "rapid")
    for root, _, files in os.walk(td):
        for f in files:
            if f.endswith(".fail"):
                fail = open(os.path.join(root, f), errors="replace").read()
    tests = j["tests"]
    m = re.search(r"--- FAIL: (\w+)", res["out"])
    if m:
        tests = m.group(1)
    rec = dict(property=prop, pkg=j["pkg"], tests=tests, config=j["config"], seed=j["seed"],
               shards=j["shards"], shard=j["shard"], tier=j["tier"], failfile=fail,
               output=res["out"][-20000:])
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((rec["output"] + tests).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, tests.split("|")[0], h))
    json.dump(rec, open(path, "w"), indent=1)
    return path


def write_evidence(prop, check, tier, seed, results, violations, wall):
    tests = {}
    configs = {}
    for res in results:
        for s in res["stats"]:
            t = tests.setdefault(s["test"], dict(rule=s["rule"], evals=0, distinct=set(), labels={}, samples=[]))
            t["evals"] += s["evals"]
            t["distinct"].update(s["hashes"] or [])
            for k, v in s["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            t["samples"] += s["samples"] or []
            c = res["job"]["config"]
            configs[c] = configs.get(c, 0) + s["evals"]
    samples = []
    for n, t in tests.items():
        step = max(1, len(t["samples"]) // 4)
        samples += ["%s: %s" % (n, x) for x in t["samples"][::step][:4]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(t["evals"] for t in tests.values()),
            distinct_nontrivial=sum(len(t["distinct"]) for t in tests.values()),
            rule="; ".join("%s: %s" % (n, t["rule"]) for n, t in tests.items()),
            samples=samples,
            per_test={n: dict(evaluations=t["evals"], distinct_nontrivial=len(t["distinct"]), classes=t["labels"]) for n, t in tests.items()},
            per_config=configs,
        ),
        assumptions=check.get("assumptions", []),
        wall_s=round(wall, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
