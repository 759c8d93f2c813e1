#!/usr/bin/env python3
"""plant.py ID...   confirm planted bugs in a scratch copy: the demonstration passes on the unchanged
tree, the change applies, builds, passes the stable tests, and the demonstration then fails.
plant.py --check ID [PROP]  apply it to /repo, run the quick check of its property, undo it."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "24f920b"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def confirm(i):
    d = f"{V}/seeded/{i}"
    # /opt/vp/build.sh works on /repo, so the scratch copy is the demonstration's folder and /repo is restored at once
    s = f"/tmp/plant_{i}"; shutil.rmtree(s, ignore_errors=True); shutil.copytree(d, s)
    for f in ("patch.diff", "meta.json"):
        os.path.exists(f"{s}/{f}") and os.remove(f"{s}/{f}")
    ok = True
    try:
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        sh("bash /opt/vp/build.sh")
        r = sh(f"bash {s}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode != 0: ok = False; print(i, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:], r.stderr[-800:])
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); return False
        r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        o = json.load(open("/tmp/plant_out.json"))
        need = {"configuration","distribution_numericms","domain","int_rkdp45","magnetic_luke","magnetic_numeric2d","sfile_hdf5","sfile_matlab","sfile_sdt"}
        if not need <= set(o["passed"]): ok = False; print(i, "TESTS FAIL", need - set(o["passed"]), r.stdout[-500:], r.stderr[-500:])
        r = sh(f"bash {s}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode == 0: ok = False; print(i, "DEMO PASSES WITH THE CHANGE")
        else: print(i, "demo:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        # original lines only
        for f in sh(f"git -C /repo diff --name-only").stdout.split():
            rm = [l[1:] for l in sh(f"git -C /repo diff -U0 {f}").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig = set(sh(f"git -C /repo show {BASE}:{f}").stdout.splitlines())
            bad = [l for l in rm if l not in orig]
            if bad: print(i, "note: removed lines not in the original:", bad)
            if not [l for l in rm if l in orig and l.strip()]: print(i, "note: no original line removed in", f)
    finally:
        sh("git -C /repo checkout -- ."); shutil.rmtree(s, ignore_errors=True); sh("bash /opt/vp/build.sh")
    print(i, "OK" if ok else "NOT OK"); return ok
def check(i, prop=None, tier="quick"):
    d = f"{V}/seeded/{i}"; prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
        r = sh(f"python3 {V}/check.py {prop} {tier}", env={**os.environ, "VERIF_SEED": "1"})
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, prop, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", v[:1], r.stdout.splitlines()[-2:] if not v else "", r.stderr[-300:] if r.returncode not in (0,1) else "")
        return bool(v)
    finally: sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        ids = sorted(os.listdir(V + "/seeded")) if len(a) == 1 else [a[1]]
        for i in ids: check(i, *(a[2:3] if len(a) > 2 else []))
    else:
        for i in a: confirm(i)
