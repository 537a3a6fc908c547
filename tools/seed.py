#!/usr/bin/env python3
"""Developer tool: confirms a planted bug.  seed.py <id> [--nocheck]
seeded/<id>/ holds patch.diff, demo.sh, meta.json.  Applies the patch to /repo, builds, runs the stable
tests and the demo, runs the property's quick check, and always undoes the patch."""
import json, os, subprocess, sys
R = "/verif/seeded/"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): 
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-1500:]
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; o = set(json.load(open("/tmp/seed_o.json"))["passed"])
    return [x for x in b if x not in o]
def one(i, check=True, also=()):
    d = R + i; meta = json.load(open(d + "/meta.json")); p = meta["property"]
    if sh("git -C /repo status --porcelain").stdout.strip(): raise SystemExit("/repo is not clean")
    ok, out = build(); r0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    res = {"id": i, "property": p, "demo_clean": r0.returncode}
    if r0.returncode: print(r0.stdout[-800:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); return
    try:
        ok, out = build(); res["builds"] = ok
        if not ok: print(out)
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300); res["demo_patched"] = r1.returncode
        res["stable_failed"] = tests()[:5]
        if check:
            for q in [p] + list(also):
                c = sh("python3 check.py %s quick" % q, cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res["check_" + q] = c.returncode; res["line_" + q] = [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("case ")][:2]
    finally:
        sh("git -C /repo checkout -- ."); 
    good = res["demo_clean"] == 0 and res.get("demo_patched") not in (0, None) and res.get("builds") and not res["stable_failed"]
    res["counts"] = bool(good)
    print(json.dumps(res))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(R))
for i in ids: one(i, "--nocheck" not in sys.argv)
build()
