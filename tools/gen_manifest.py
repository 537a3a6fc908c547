#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import props
sys.path.insert(0, R + "/tools"); import notes_tech
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
have = set(sum((d["props"] for d in props.GROUPS.values()), []))
checks, na = [], []
for p in P:
    i = p["id"]
    if i in have:
        t, lv, note = notes_tech.TECH.get(i, (None, None, None))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=t or "model-based random histories (property-based testing)", level=lv or "exploration",
                           level_note=note or "bounded random exploration; see DESIGN.md"))
    else:
        na.append(dict(property=i, reason=notes_tech.NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
         notes="All checks are generated-input searches (choice-sequence property-based testing with shrinking) against explicit models; see DESIGN.md. No hooks are compiled into /repo.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
