#!/bin/bash
# tryseeded.sh ID...: is it a bug by the rules, and do the checks see it?  Leaves /repo as it was.
cd /verif
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || { echo "$id: does not build"; tail -20 /tmp/seed.build; }
    (cd /repo && bash $d/demo.sh > /tmp/seed.demo 2>&1); demo=$?
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh /tmp/seed.json > /dev/null 2>&1
        tests=$(python3 -c "
import json; r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('tests pass' if set(b)<=set(r['passed']) else 'TESTS FAIL %s' % sorted(set(b)-set(r['passed'])))")
    fi
    t0=$SECONDS
    timeout 900 python3 harness/check.py $p quick > /tmp/seed.check 2>&1; rc=$?
    t1=$((SECONDS-t0))
    git -C /repo checkout -- .
    echo "$id ($p): demo with patch $demo ($(tail -1 /tmp/seed.demo | cut -c1-150)); $tests; check exit $rc in $t1 s: $(grep -c VIOLATION /tmp/seed.check) $(grep 'in suite' /tmp/seed.check | head -1 | cut -c1-160)"
done
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
for id in "$@"; do (cd /repo && bash /verif/seeded/$id/demo.sh > /tmp/seed.demo 2>&1) || { echo "$id: DEMO FAILS on the unchanged tree: $(tail -3 /tmp/seed.demo)"; }; done
