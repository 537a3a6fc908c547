"""Which harness decides which property, and how to run it."""
import json, os, subprocess
import build

# group: harness sources, properties it decides, symbols wrapped at link time
GROUPS = {
    "index": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "g_index.cpp"], props=["P01", "P02", "P03"]),
    "index2": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "g_index2.cpp"], props=["P04", "P05", "P08", "P09", "P10"], wraps=["frt_micro_sleep"]),
    "search": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "sq.cpp", "g_search.cpp"], props=["P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P28"]),
    "parse": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "sq.cpp", "g_parse.cpp"], props=["P20", "P21"]),
    "analysis": dict(srcs=["engine.cpp", "g_analysis.cpp"], props=["P22"]),
    "cont": dict(srcs=["engine.cpp", "g_cont.cpp"], props=["P25"]),
    "store": dict(srcs=["engine.cpp", "g_store.cpp"], props=["P24"]),
    "hl": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "sq.cpp", "g_hl.cpp"], props=["P23"]),
    "ruby": dict(ruby=True, props=["P26", "P27", "P29", "P30", "P31"]),
    "crash": dict(srcs=["engine.cpp", "model.cpp", "hist.cpp", "g_crash.cpp"], props=["P06", "P07"],
                  wraps=["frt_micro_sleep", "open", "open64", "creat", "creat64", "write", "pwrite64", "ftruncate64", "close", "rename", "remove", "unlink"]),
}
RUBY = ["the Ruby extension is built from /repo's working tree the way its Rakefile does it; an unexpected exception, crash or endless loop in a case counts as a violation",
        "Ruby's garbage collector runs only at generated points of a case, so that cases repeat",
        "every random choice is a function of VERIF_SEED and the case number; a failing case is replayed three times before it is reported"]
COMMON = ["the harness is built with AddressSanitizer; any sanitizer report, failed assertion, crash or endless loop in a case counts as a violation",
          "every random choice is a function of VERIF_SEED and the case number; a failing case is replayed three times before it is reported"]

def group_of(prop):
    for g, d in GROUPS.items():
        if prop in d["props"]: return g
    raise SystemExit("unknown property " + prop)

def build_group(g):
    d = GROUPS[g]
    if d.get("ruby"): return build.build_ruby()
    return build.build(d["srcs"], g, d.get("flavour", "asan"), d.get("wraps", ()))

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=32"
    e["LC_ALL"] = "C.UTF-8"; e.pop("LANG", None)
    return e

def program(prop):
    g = group_of(prop); b = build_group(g)
    return ["env"] + build.ruby_env() + ["ruby", os.path.join(build.ROOT, "harness/ruby/main.rb"), b] if GROUPS[g].get("ruby") else [b]

def run(prop, seed, tier, out):
    """-> (exit status, stats dictionary)"""
    cmd = program(prop) + ["--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--max-wall", "420" if tier == "quick" else "7200", "--shrink", "60" if tier == "quick" else "300"]
    r = subprocess.run(cmd, env=env())
    try: st = json.load(open(os.path.join(out, prop + ".stats.json")))
    except Exception: st = None
    return r.returncode, st

def run_replay(prop, f):
    return subprocess.run(program(prop) + ["--replay", f], env=env()).returncode

def assumptions(prop):
    return (RUBY if GROUPS[group_of(prop)].get("ruby") else COMMON) + GROUPS.get(group_of(prop), {}).get("assume", {}).get(prop, [])
