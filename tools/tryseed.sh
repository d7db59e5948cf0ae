#!/bin/bash
# tryseed.sh ID...: builds, tests and demonstrates planted bugs in /repo, which is restored
cd /repo || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
    D=/verif/seeded/$i
    git checkout -q -- .
    bash $D/demo.sh > /tmp/seed-demo0.log 2>&1; A=$?
    git apply $D/patch.diff || { echo "$i: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; B=$?
    bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1
    T=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-test.json'))
p=set(b['stable']); q=set(r['passed'])
print(len(p-q), *sorted(p-q)[:4])
P
)
    bash $D/demo.sh > /tmp/seed-demo1.log 2>&1; C=$?
    git checkout -q -- .
    echo "$i: demo without $A, build $B, lost tests: $T, demo with $C: $(grep -m1 -A1 panicked /tmp/seed-demo1.log | tr '\n' ' ')"
done
