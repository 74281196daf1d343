#!/bin/bash
# trybug.sh ID [CHECK...]: applies the planted change in /repo, builds, tests, runs the property's check (or those named), reverts.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo not clean"; exit 9; }
git -C /repo apply $d/patch.diff || exit 9
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/tb.json > /tmp/tb.log 2>&1
python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/tb.json'))['passed'])
print('$id', 'tests ok' if s<=p else 'TESTS FAIL: %s' % sorted(s-p)[:5])
P
fi
for c in ${@:-$prop}; do s=$(date +%s); python3 /verif/check.py $c > /tmp/tb_$c.log 2>&1; rc=$?; echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/tb_$c.log)"; done
git -C /repo checkout -- .
