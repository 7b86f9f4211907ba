#!/bin/bash
# tryseed.sh ID [nochecks]: validates a planted bug (clean demo, patch, build, tests, demo) and runs its property's check against it
set -u
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
bash $d/demo.sh >/tmp/demo.out 2>&1; r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seedtest.json'))
print("tests: stable not passing:", sorted(b-set(r['passed']))[:5])
P
bash $d/demo.sh >/tmp/demo2.out 2>&1; r1=$?
echo "demo clean=$r0 (want 0) patched=$r1 (want !=0): $(tail -2 /tmp/demo2.out | tr '\n' ' ')"
[ $r0 = 0 ] || cat /tmp/demo.out
if [ "${2:-}" != nochecks ]; then
  cd /verif; for p in ${2:-$prop}; do ./check $p 2>&1 | cut -c1-400 | tail -6; done
fi
