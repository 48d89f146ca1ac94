#!/bin/bash
# seedtest.sh [-n] ID...: apply each planted bug to /repo, build, run the stable tests, the demo
# and the check of its property, undo.  -n: skip build and tests.
notest=0; [ "$1" = -n ] && { notest=1; shift; }
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=$PWD/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /repo && bash "$d/demo.sh" >/tmp/demo0.log 2>&1 ); d0=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t=skipped
  if [ $notest = 0 ]; then
    bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 || t=BUILDFAIL
    bash /opt/vp/test.sh /tmp/seedout.json >/tmp/seedt.log 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/seedout.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]
print('ok' if not m else m)")
  fi
  ( cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo1.log 2>&1 ); d1=$?
  cmd=$(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
  s=$(date +%s)
  if [ -n "$cmd" ]; then
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$cmd" >/tmp/seedchk.log 2>&1; c=$?
    v=$(grep -m1 '^VIOLATION' /tmp/seedchk.log)
  else c=none; v=; fi
  git -C /repo checkout -q -- .
  echo "$id $prop demo $d0/$d1 tests $t check=$c ($(( $(date +%s)-s ))s) $v"
done
[ $notest = 0 ] && bash /opt/vp/build.sh >/dev/null 2>&1
