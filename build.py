#!/usr/bin/env python3
"""Builds the Ferret C library from /repo's working tree plus one harness, with AddressSanitizer.

Objects are cached under /verif/build by the hash of everything they are made from (source text,
all headers, flags), so a changed tree never reuses stale objects."""
import os, re, sys, glob, hashlib, subprocess, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
C = os.path.join(REPO, "c")

SAN = ["-fsanitize=address", "-fsanitize=bounds-strict" if False else "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CDEFS = ["-DBZ_NO_STDIO", "-D_FILE_OFFSET_BITS=64", "-DDEBUG", "-D_POSIX_C_SOURCE=2"]
INCS = ["-I" + os.path.join(C, "include"), "-I" + os.path.join(C, "lib/libstemmer_c/include"), "-I" + os.path.join(C, "lib/bzlib")]

def flavour(name):
    if name == "asan":
        return ["-O1", "-g1"] + SAN
    if name == "tsan":
        return ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
    return ["-O1", "-g1"]

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def lib_sources():
    srcs = sorted(glob.glob(C + "/src/*.c"))
    mk = open(C + "/lib/libstemmer_c/mkinc.mak").read()
    m = re.search(r"snowball_sources\s*=(.*?)(?:\n\s*\n|\nsnowball_headers)", mk, re.S)
    ext = [os.path.join(C, "lib/libstemmer_c", x) for x in m.group(1).replace("\\", " ").split()]
    bz = ["blocksort.c", "huffman.c", "crctable.c", "randtable.c", "compress.c", "decompress.c", "bzlib.c"]
    ext += [os.path.join(C, "lib/bzlib", x) for x in bz]
    return srcs, ext

def headers_hash():
    hs = sorted(glob.glob(C + "/include/*.h") + glob.glob(C + "/src/*.h"))
    ext = sorted(glob.glob(C + "/lib/**/*.h", recursive=True))
    return digest(*[rd(p) for p in hs]), digest(*[rd(p) for p in ext])

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-8000:] + "\n")
        raise SystemExit(2)

def build(harness_srcs, name, fl="asan", wraps=(), verbose=False):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    flags = flavour(fl)
    hh, eh = headers_hash()
    jobs, objs = [], []
    def add(src, cmd_prefix, key):
        obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((os.path.getsize(src), cmd_prefix + ["-c", src, "-o"], obj))
    srcs, ext = lib_sources()
    cc = ["gcc", "-std=c99", "-w", "-fno-common"] + flags + CDEFS + INCS
    for s in srcs: add(s, cc, digest(rd(s), hh, eh, " ".join(cc)))
    ccx = ["gcc", "-std=c99", "-w", "-O1"] + CDEFS + INCS
    for s in ext:
        # bzlib allocates megabytes per value; the harness keeps such blocks in a cache
        cx = ccx + (["-Dmalloc=vp_cached_malloc", "-Dfree=vp_cached_free", "-include", os.path.join(ROOT, "harness/bzalloc.h")] if "/bzlib/" in s and fl == "asan" else [])
        add(s, cx, digest(rd(s), eh, " ".join(cx)))
    nlib = len(objs)
    hd = os.path.join(ROOT, "harness")
    hhash = digest(*[rd(p) for p in sorted(glob.glob(hd + "/*.hpp"))])
    cxx = ["g++", "-std=c++17", "-w", "-D_FILE_OFFSET_BITS=64", "-I" + hd] + flags + INCS
    for s in harness_srcs:
        p = os.path.join(hd, s)
        add(p, cxx, digest(rd(p), hhash, hh, eh, " ".join(cxx)))
    jobs.sort(reverse=True)
    def one(j):
        tmp = "%s.%d.tmp" % (j[2], os.getpid())
        run(j[1] + [tmp]); os.rename(tmp, j[2])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    exe = os.path.join(BUILD, "%s-%s" % (name, digest(*(objs + list(wraps) + flags))))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run(["g++"] + flags + ["-Wl,--wrap=%s" % w for w in wraps] + objs[nlib:] + objs[:nlib] + ["-o", tmp, "-lm", "-lpthread", "-lz"])
        os.rename(tmp, exe)
    return exe

RB = os.path.join(REPO, "ruby")
def build_ruby():
    """Builds the Ruby extension the way the Rakefile does but with AddressSanitizer, in a copy; returns the directory holding lib/ and ext/ferret_ext.so."""
    import shutil
    files = [p for pat in ("/src/*.[ch]", "/include/*.h", "/lib/bzlib/*.[ch]", "/lib/libstemmer_c/*.mak", "/lib/libstemmer_c/*/*.[ch]") for p in glob.glob(C + pat)]
    files += [p for pat in ("/Rakefile", "/lib/**/*.rb", "/ext/*.[ch]", "/ext/extconf.rb", "/bin/*") for p in glob.glob(RB + pat, recursive=True) if not os.path.islink(p)]
    files = sorted(p for p in files if os.path.isfile(p))
    compat = [os.path.join(ROOT, "harness/ruby", x) for x in ("compat.h", "compat.rb")]
    key = digest(*[x for p in files for x in (os.path.relpath(p, REPO), rd(p))] + [rd(p) for p in compat] + ["asan"])
    dest = os.path.join(BUILD, "ruby-" + key)
    if os.path.exists(dest): return dest
    os.makedirs(BUILD, exist_ok=True)
    tmp = "%s.%d.tmp" % (dest, os.getpid()); shutil.rmtree(tmp, ignore_errors=True)
    for p in files:
        d = os.path.join(tmp, os.path.relpath(p, REPO)); os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copyfile(p, d)
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "RUBYLIB", "MAKEFLAGS")}
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", RUBYOPT="-r" + compat[1], MAKEFLAGS="-j8 cppflags=-include" + compat[0] + "\\ -fsanitize=address\\ -g1")
    r = subprocess.run(["rake", "build"], cwd=tmp + "/ruby", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(tmp + "/ruby/ext/ferret_ext.so"):
        sys.stderr.write(r.stdout[-8000:] + "\n"); raise SystemExit(2)
    out = tmp + ".out"; os.makedirs(out + "/ext"); shutil.copytree(tmp + "/ruby/lib", out + "/lib"); shutil.copyfile(tmp + "/ruby/ext/ferret_ext.so", out + "/ext/ferret_ext.so")
    shutil.rmtree(tmp); os.rename(out, dest)
    return dest

def ruby_env():
    """The environment in which a Ruby process can load the extension."""
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return ["LD_PRELOAD=" + lib, "ASAN_OPTIONS=detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0:allocator_may_return_null=1"]

if __name__ == "__main__":
    import props
    for g in (sys.argv[1:] or props.GROUPS):
        print(props.build_group(g))
