#!/bin/bash
# seedtest.sh [-n] ID...   tries planted bugs in copies of /repo; -n: skips the repository's tests
NT=; [ "$1" = -n ] && { NT=1; shift; }
one() {
    id=$1; S=/verif/seeded/$id; W=/tmp/sd-$id; rm -rf "$W"; mkdir -p "$W"
    cp -a /repo "$W/repo"
    cp -a "$S" "$W/demo"
    (cd "$W/repo" && git apply "$S/patch.diff") || { echo "$id: patch does not apply"; return; }
    pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    r0=$(unshare -Urm bash -c "cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo \$?")
    unshare -Urm bash -c "mount --bind $W/repo /repo && bash /opt/vp/build.sh >$W/build.log 2>&1 && { [ -n '$NT' ] || bash /opt/vp/test.sh $W/o.json >$W/test.log 2>&1; }" || { echo "$id: build failed"; tail -3 $W/build.log; }
    r1=$(unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo \$?")
    [ -n "$NT" ] && t="(skipped)" || t=$(tail -1 $W/test.log)
    c=$(cd /verif && PICOTM_REPO=$W/repo VERIF_BUILD=$W/b timeout 900 python3 checks/run.py $pid 2>$W/c.err | tail -2 | cut -c1-300; )
    echo "== $id property=$pid demo unchanged=$r0 patched=$r1 tests: $t"; echo "$c"
    rm -rf "$W/repo" "$W/b"
}
for i in "$@"; do one $i; done
