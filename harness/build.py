#!/usr/bin/env python3
"""Builds picotm from /repo's working tree, in several flavours, with ninja.

flavours:  plain  - gcc -O1 -g, asserts enabled
           sched  - the same plus -fsanitize=thread instrumentation, linked against our own
                    run-time (harness/vsched.c), which turns accesses into scheduling points
"""
import os, subprocess, sys, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICOTM_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CFG = os.path.join(VERIF, "harness", "config")
MODULES = ["tm", "txlib", "libc", "libm", "cast", "arithmetic", "ptrdata", "libpthread"]

def incs():
    r = []
    for m in MODULES:
        r += ["-iquote", f"{CFG}/modules/{m}/include", "-iquote", f"{REPO}/modules/{m}/include"]
    r += ["-iquote", f"{CFG}/include", "-iquote", f"{REPO}/include", "-include", f"{CFG}/config/config.h"]
    return r

COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-w", "-fno-strict-aliasing"]
FLAV = {"plain": [], "sched": ["-fsanitize=thread"]}
# wrapped symbols per driver are given in the driver's first lines: "// WRAP: sym sym", "// FLAVOUR: plain"

def sources():
    out = []
    for base in ["src"] + [f"modules/{m}/src" for m in MODULES]:
        for root, _, files in sorted(os.walk(os.path.join(REPO, base))):
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".c")]
    return out

def driver_meta(path):
    meta = {"FLAVOUR": "plain", "WRAP": "", "EXTRA": "", "LIBS": ""}
    for l in open(path):
        if l.startswith("// ") and ":" in l:
            k, v = l[3:].split(":", 1)
            if k in meta:
                meta[k] = v.strip()
        else:
            break
    return meta

def q(l): return " ".join(l)

def main(drivers):
    os.makedirs(BUILD, exist_ok=True)
    L = ["builddir = " + BUILD,
         "rule cc", "  command = gcc $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rcs $out $in",
         "rule link", "  command = gcc -o $out $in $libs", ""]
    need = {}
    hd = os.path.join(VERIF, "harness")
    metas = {}
    for d in drivers:
        metas[d] = driver_meta(os.path.join(hd, d + ".c"))
        need.setdefault(metas[d]["FLAVOUR"], []).append(d)
    for fl in need:
        objs = []
        for s in sources():
            o = f"{BUILD}/{fl}/" + os.path.relpath(s, REPO).replace("/", "__") + ".o"
            L.append(f"build {o}: cc {s}")
            rel = os.path.relpath(s, REPO)
            base = os.path.join(REPO, rel[:rel.index("src/") + 3])
            L.append(f"  flags = {q(COMMON + FLAV[fl] + ['-I' + base] + incs())}")
            objs.append(o)
        L.append(f"build {BUILD}/{fl}/libpicotm-all.a: ar {' '.join(objs)}")
    targets = []
    for fl, ds in need.items():
        for d in ds:
            m = metas[d]
            srcs = [d + ".c"] + m["EXTRA"].split()
            objs = []
            for s in srcs:
                o = f"{BUILD}/drv_{fl}/{d}__{s}.o"
                L.append(f"build {o}: cc {hd}/{s}")
                L.append(f"  flags = {q([c for c in COMMON if c != '-w'] + ['-Wno-all', '-Werror=implicit-function-declaration'] + incs() + (FLAV[fl] if s.startswith("inst_") else []))} -I{hd}")  # inst_*: inline functions of picotm, instrumented like the library
                objs.append(o)
            libs = [f"{BUILD}/{fl}/libpicotm-all.a"]
            wrap = " ".join(f"-Wl,--wrap={w}" for w in m["WRAP"].split())
            L.append(f"build {BUILD}/{d}: link {' '.join(objs)} | {libs[0]}")
            L.append(f"  libs = {wrap} -Wl,--whole-archive {libs[0]} -Wl,--no-whole-archive -lm -lpthread {m['LIBS']}")
            targets.append(f"{BUILD}/{d}")
    import tempfile, fcntl
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tag = hashlib.sha1(" ".join(drivers).encode()).hexdigest()[:8]
        nf = os.path.join(BUILD, f"build-{tag}.ninja")
        txt = "\n".join(L) + "\n"
        if not os.path.exists(nf) or open(nf).read() != txt:
            open(nf, "w").write(txt)
        r = subprocess.run(["ninja", "-f", nf] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
        return r.returncode

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
