#!/usr/bin/env python3
"""Developer tool: mkseed.py SPEC.py creates seeded/<id>/ from a list SEEDS of dicts
(id, property, file, old, new [or edits=[(file, old, new)..]], demo (C), needs, breaks)."""
import json, os, subprocess, sys
spec = {}; exec(open(sys.argv[1]).read(), spec)
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, non-zero when the planted change is there
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
gcc -w -std=gnu99 -g -D_FILE_OFFSET_BITS=64 -Ic/include "$D/demo.c" _build/src/c/libferret.a -lm -lpthread -o "$T/demo" || exit 99
cd "$T" && timeout 200 ./demo
'''
for s in spec["SEEDS"]:
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            p = "/repo/" + f; t = open(p, encoding="latin-1").read()
            if t.count(old) != 1: raise SystemExit("%s: pattern occurs %d times in %s" % (s["id"], t.count(old), f))
            open(p, "w", encoding="latin-1").write(t.replace(old, new))
        open(d + "/patch.diff", "w", encoding="latin-1").write(subprocess.check_output(["git", "-C", "/repo", "diff"]).decode("latin-1"))
    finally: subprocess.call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    if "demo" in s:
        open(d + "/demo.c", "w").write(spec.get("PRE", "") + s["demo"]); open(d + "/demo.sh", "w").write(SH)
    if "demo_rb" in s:
        open(d + "/demo.rb", "w").write(s["demo_rb"])
        open(d + "/demo.sh", "w").write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
cd "$T" && timeout 200 ruby -r/opt/vp/support/ruby_compat.rb -I"$R/_build/src/ruby/lib" -I"$R/_build/src/ruby/ext" "$D/demo.rb"
''')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
