#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (the verdicts come from tools/seed.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {'(missed)' if d in missed else m['property'] + ' quick'} |")
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a not in s:
    s = s.replace("(table of planted bugs: see below, filled as they are planted)", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
