#!/bin/bash
# tools/seedtest.sh ID...: confirm planted bugs (demo, build, stable tests) and run their checks against them.
# Options via environment: NOTEST=1 skips the tests, NOCHECK=1 the check.
cd /verif || exit 2
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
    tmp=$(mktemp -d); cp "$d"/* "$tmp"; rm -f "$tmp"/*.diff "$tmp"/meta.json
    (cd /repo && timeout 300 bash "$tmp/demo.sh" >"$tmp/out0" 2>&1); clean=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: build fails"
    (cd /repo && timeout 300 bash "$tmp/demo.sh" >"$tmp/out1" 2>&1); bad=$?
    tests=skipped
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh "$tmp/t.json" >/dev/null 2>&1
        tests=$(python3 - "$tmp/t.json" <<'P'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(sys.argv[1]))
def names(x):
    for k in ("stable", "passed"):
        if k in x: return set(map(str, x[k]))
    return set()
miss = names(base) - names(got)
print("ok" if not miss else f"BROKEN {sorted(miss)[:3]}")
P
)
    fi
    res=skipped
    if [ -z "$NOCHECK" ]; then
        t0=$(date +%s); VERIF_SEED=${SEED:-1} ./check "$prop" --tier quick >"$tmp/check" 2>&1; rc=$?
        res="rc=$rc $(grep -m1 -A1 VIOLATION "$tmp/check" | tr '\n' ' ') $(($(date +%s)-t0))s"
    fi
    git -C /repo checkout -q -- .
    echo "$id [$prop] demo clean=$clean patched=$bad tests=$tests check: $res"
    [ $clean = 0 ] || tail -5 "$tmp/out0"
    [ $bad != 0 ] || tail -5 "$tmp/out1"
    rm -rf "$tmp"
done
bash /opt/vp/build.sh >/dev/null 2>&1
