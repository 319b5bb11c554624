"""mkseed(id, prop, [(file, old, new)], needs, breaks, demo_c, extra libs)"""
import os, subprocess, json, shutil, tempfile
DEMO_SH = r'''#!/bin/bash
# Exits with 0 if the property holds for the built library.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I="-I$R/include -I$R/_build/include"; L=
for m in libpthread txlib ptrdata arithmetic cast libm libc tm; do
    I="$I -I$R/modules/$m/include -I$R/_build/modules/$m/include"
    for a in "$R/_build/modules/$m/src/.libs/"*.a; do [ -f "$a" ] && L="$L $a"; done
done
gcc -std=gnu11 -g -O1 -w -D_GNU_SOURCE $I "$D/demo.c" -o "$W/demo" -Wl,--start-group $L "$R"/_build/src/.libs/*.a -Wl,--end-group -lpthread -lm || exit 99
cd "$W" || exit 99
timeout 120 ./demo
'''
def mkseed(id, prop, edits, needs, breaks, demo):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff = ""
    w = tempfile.mkdtemp()
    for f, old, new in edits:
        for side in "ab":
            os.makedirs(os.path.dirname(f"{w}/{side}/{f}"), exist_ok=True)
        src = open(f"/repo/{f}").read() if not os.path.exists(f"{w}/b/{f}") else open(f"{w}/b/{f}").read()
        assert src.count(old) == 1, (id, f, src.count(old))
        if not os.path.exists(f"{w}/a/{f}"): shutil.copy(f"/repo/{f}", f"{w}/a/{f}")
        open(f"{w}/b/{f}", "w").write(src.replace(old, new))
    r = subprocess.run(["diff", "-ru", "a", "b"], cwd=w, stdout=subprocess.PIPE, text=True)
    out = []
    for l in r.stdout.splitlines():
        if l.startswith("diff -ru "):
            p = l.split()[-1][2:]; out.append(f"diff --git a/{p} b/{p}")
        elif l.startswith("--- ") or l.startswith("+++ "): out.append(l.split("\t")[0])
        else: out.append(l)
    open(f"{d}/patch.diff", "w").write("\n".join(out) + "\n")
    open(f"{d}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.c", "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w)
