#!/bin/bash
# seedtest.sh ID...: every planted bug applied to /repo, built, tested, demonstrated and checked, then undone
V=$(cd "$(dirname "$0")/.." && pwd)
python3 $V/tools/mkseed.py
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
rc=0
for id in "$@"; do
    d=$V/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -n "$NOBASE" ] || { bash $d/demo.sh > /tmp/seed_$id.base 2>&1; b=$?; }
    git apply $d/patch.diff || { echo "$id: does not apply"; rc=1; continue; }
    bash /opt/vp/build.sh > /tmp/seed_$id.build 2>&1; bb=$?
    bash /opt/vp/test.sh /tmp/seed_$id.json > /tmp/seed_$id.test 2>&1
    t=$(grep -o '"failed": \[.*' /tmp/seed_$id.json)
    bash $d/demo.sh > /tmp/seed_$id.demo 2>&1; m=$?
    c=skipped
    if [ -z "$NOCHECK" ]; then
        s=$(date +%s)
        python3 $V/run.py ${CHECK:-$p} > /tmp/seed_$id.check 2>&1; c="$? $(grep -c ^VIOLATION /tmp/seed_$id.check) violations $(($(date +%s)-s)) s"
    fi
    git checkout -q -- .
    echo "$id ($p): base $b build $bb tests $t demo $m check $c | $(grep ^DEMO /tmp/seed_$id.base) | $(grep ^DEMO /tmp/seed_$id.demo)"
done
bash /opt/vp/build.sh > /dev/null 2>&1
exit $rc
