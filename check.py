#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property by deterministic simulation: builds the simulator from
/repo's working tree, runs seeded simulated executions on all cores, confirms,
minimises and replays what fails, and writes /verif/evidence/<property>.json.

exit 0  the property held on every simulated execution
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself could not give an answer
"""
import collections, concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
sys.path.insert(0, V)
from tools.table import TABLE, KINDS

def die(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.exit(2)

def tree_key(flavour):
    h = hashlib.sha256(flavour.encode())
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(V, "sim")]
    files = [os.path.join(REPO, "CMakeLists.txt"), os.path.join(V, "tools", "build.sh")]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            files += [os.path.join(d, f) for f in sorted(fn)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
        h.update(b"\0")
    return flavour + "-" + h.hexdigest()[:20]

def build(flavour):
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key(flavour)
        out = os.path.join(V, "build", key)
        exe = os.path.join(out, "sim")
        if os.path.exists(exe): return exe, 0.0
        t = time.time()
        tmp = os.path.join(V, "build", "tmp-" + flavour)
        shutil.rmtree(tmp, ignore_errors=True)
        r = subprocess.run(["bash", os.path.join(V, "tools", "build.sh"), flavour, tmp, REPO], capture_output=True, text=True)
        if r.returncode: die("build failed:\n" + r.stdout[-2000:] + r.stderr[-6000:])
        os.makedirs(out + ".new", exist_ok=True)
        shutil.copy2(os.path.join(tmp, "sim"), os.path.join(out + ".new", "sim"))
        os.rename(out + ".new", out)
        shutil.rmtree(tmp, ignore_errors=True)
        old = sorted((d for d in os.listdir(os.path.join(V, "build")) if d.startswith(flavour + "-") and d != key),
                     key=lambda d: os.path.getmtime(os.path.join(V, "build", d)))
        for d in old[:-3]: shutil.rmtree(os.path.join(V, "build", d), ignore_errors=True)
        return exe, time.time() - t

def known_findings(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.rstrip("\n"))
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    if len(sys.argv) < 2: die(__doc__)
    prop = sys.argv[1]
    if prop == "--setup":
        for f in sorted({t["flavour"] for t in TABLE.values()}): print("built %s (%.1f s)" % build(f))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = TABLE[prop]
    t0 = time.time()
    exe, build_s = build(spec["flavour"])
    ncpu = os.cpu_count() or 4
    total = spec["runs"][tier]
    wall = 240 if tier == "quick" else 3000
    per = max(1, total // ncpu)
    scratch = os.path.join(V, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    ev = {}
    try:
        rc = explore(prop, tier, seed, spec, exe, build_s, ncpu, per, wall, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def sim(exe, *a, timeout=4000):
    return subprocess.run([exe] + [str(x) for x in a], capture_output=True, text=True, timeout=timeout)

def search(exe, prop, seed, first, stride, count, out, wall):
    r = sim(exe, "search", prop, seed, first, stride, count, out, wall)
    if r.returncode or not os.path.exists(out): die("simulator failed (%d): %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-2000:]))
    return json.load(open(out))

def replay(exe, f):
    r = sim(exe, "replay", f)
    m = re.search(r"class=(\S+) hash=(\S+) expected_class=(\S+) expected_hash=(\S+)", r.stdout)
    return m.groups() if m else (None, None, None, None)

def explore(prop, tier, seed, spec, exe, build_s, ncpu, per, wall, scratch, t0):
    ts = time.time()
    with concurrent.futures.ThreadPoolExecutor(ncpu) as ex:
        res = list(ex.map(lambda w: search(exe, prop, seed, w, ncpu, per, os.path.join(scratch, "w%d.json" % w), wall), range(ncpu)))
    search_s = time.time() - ts
    # determinism: the same seeds again, in one other process and order
    want = {i: h for r in res for i, h in r["samplehash"]}
    nck = 24 if tier == "quick" else 200
    again = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda k: search(exe, prop, seed, k, 4, nck // 4, os.path.join(scratch, "d%d.json" % k), 120), range(4)): again += r["samplehash"]
    mism = [i for i, h in again if i in want and want[i] != h]
    matched = sum(1 for i, h in again if i in want and want[i] == h)

    fails = sorted((r["fail"] for r in res if r["fail"]), key=lambda f: f["idx"])
    known = known_findings(prop)
    violations, knownhits, unrepro = [], [], []
    seen = set()
    for f in fails:
        if f["cls"] in seen or len(violations) >= 3: continue
        k = [x for x in known if x[0] == f["cls"] and re.search(x[1], f["msg"])]
        if k: knownhits.append(k[0]); continue
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        dst = os.path.join(V, "replays", "%s-seed%d-run%d.replay" % (prop, seed, f["idx"]))
        sim(exe, "minimise", f["file"], dst)
        ok = False
        for cand in (dst, f["file"]):
            if not os.path.exists(cand): continue
            a, b = replay(exe, cand), replay(exe, cand)
            if a == b and a[0] == f["cls"] and (a[1] == a[3] or cand == dst and a[1] == b[1]):
                if cand != dst: shutil.copy(cand, dst)
                ok = True; break
        if ok:
            seen.add(f["cls"]); violations.append((f, dst))
        else:
            unrepro.append(f)
    for f in fails:
        pass

    tot = collections.Counter(); ctr = collections.Counter(); hashes = set(); samples = []
    allh = 0; sim_s = 0.0
    for r in res:
        for k in ("runs", "nontrivial", "evals", "steps", "iocalls", "fault_runs", "fault_fired_runs"): tot[k] += r[k]
        for k, v in r["counters"].items(): ctr[k] += v
        hashes |= set(r["hashes"]); allh += r["all_hashes"]; sim_s += r["sim_s"]; samples += r["samples"]
    faults = {k[6:]: v for k, v in ctr.items() if k.startswith("fault:")}
    other = {k: v for k, v in ctr.items() if not k.startswith("fault:")}
    wall_s = time.time() - t0
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": spec["rule"] + " Executions are counted as distinct by the hash of their full event log (operations and outcomes, disk calls with sizes and injected faults, schedule); non-trivial means that the oracle compared at least one result of the code under test or judged at least one injected failure.",
            "samples": samples[:4],
            "simulated_runs_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
            "simulated_time_s": round(sim_s, 6),
            "oracle_comparisons": tot["evals"],
            "instrumented_steps": tot["steps"],
            "intercepted_calls": tot["iocalls"],
            "fault_free_runs": tot["runs"] - tot["fault_runs"],
            "fault_injecting_runs": tot["fault_runs"],
            "runs_in_which_a_fault_fired": tot["fault_fired_runs"],
            "faults_injected": faults,
            "probes": other,
            "determinism": {"runs_repeated_in_other_processes": len(again), "identical_event_hash": matched, "different": len(mism)},
            "real_components": spec["real"], "stubbed_components": spec["stub"],
            "build_s": round(build_s, 2), "search_s": round(search_s, 2), "workers": ncpu,
        },
        "assumptions": spec["assume"],
        "wall_s": round(wall_s, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh: json.dump(evd, fh, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d with faults fired, %.1f s build, %.1f s search"
          % (prop, tier, seed, tot["runs"], len(hashes), tot["fault_fired_runs"], build_s, search_s))
    for k in sorted(set(knownhits)): print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for f, dst in violations:
        print("  %s: %s" % (f["cls"], f["msg"][:700]))
        print("  replay: %s replay %s trace" % (exe, dst))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    if violations: return 1
    if unrepro: die("a failure did not reproduce: " + json.dumps(unrepro[0])[:1500])
    if mism: die("executions were not repeatable: run indices %s" % mism[:10])
    return 0

if __name__ == "__main__": main()
