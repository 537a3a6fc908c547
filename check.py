#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds from /repo's working tree, runs the property's generated-input
search, writes evidence/<property>.json.  Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
check.py --replay <file>: re-runs one recorded case."""
import json, os, re, subprocess, sys, time
import build, props

ROOT = os.path.dirname(os.path.abspath(__file__))

def findings(prop):
    """Known findings (recorded, unrepaired defects) of one property; 'fixed:' lines suppress nothing."""
    r = []
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: r.append(m.group(2))
    return r

def main():
    if sys.argv[1] == "--replay":
        f = sys.argv[2]; prop = re.search(r"^property (\S+)", open(f).read(), re.M).group(1)
        sys.exit(props.run_replay(prop, f))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = os.path.join(ROOT, "evidence")
    os.makedirs(out, exist_ok=True)
    ev = os.path.join(out, prop + ".json")
    for p in (ev, os.path.join(out, prop + ".stats.json")):
        if os.path.exists(p): os.unlink(p)
    t0 = time.time()
    rc, stats = props.run(prop, seed, tier, out)
    if stats is None or rc not in (0, 1):
        print("check of %s did not complete (status %s)" % (prop, rc)); sys.exit(2)
    cov = {k: stats[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}
    if stats.get("discarded"): cov["discarded"] = stats["discarded"]
    if stats.get("labels"): cov["labels"] = stats["labels"]
    if stats.get("capped"): cov["stopped_by_time_cap"] = True
    if stats.get("note"): cov["note"] = stats["note"]
    e = dict(property=prop, tier=tier, seed=seed, level=stats.get("level", "exploration"), coverage=cov,
             wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0, assumptions=props.assumptions(prop))
    with open(ev, "w") as f: json.dump(e, f, indent=1)
    sp = os.path.join(out, prop + ".stats.json")
    if os.path.exists(sp): os.unlink(sp)
    for k in findings(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()
