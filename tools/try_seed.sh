#!/bin/bash
# usage: tools/try_seed.sh ID...   confirms a planted change and runs the check of its property on it
# (in /repo, undone afterwards)
cd "$(dirname "$(realpath "$0")")/.."
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo checkout -q -- .
    bash /opt/vp/build.sh >/dev/null 2>&1
    rm -rf /tmp/seed_demo; mkdir -p /tmp/seed_demo; cp -r $d/. /tmp/seed_demo/; rm -f /tmp/seed_demo/*.diff /tmp/seed_demo/meta.json
    (cd /repo && timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/demo.log 2>&1); a=$?
    git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
    t=$(python3 -c "
import json;d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(set(b['stable'])-set(d['passed'])))")
    (cd /repo && timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/demo2.log 2>&1); b=$?
    c=skipped
    if [ -z "$NOCHECK" ]; then
        VERIF_SEED=${VERIF_SEED:-1} ./check ${CHECK:-$prop} >/tmp/c.log 2>&1; c=$?
    fi
    echo "$id [$prop]: demo $a -> $b, tests failing $t, check $c: $(grep -v VIOLATION /tmp/c.log | head -1 | cut -c1-200)"
    git -C /repo checkout -q -- .
done
