#!/bin/bash
# seedtest.sh [-t] ID...: for each planted bug: demo on the clean tree, then with the patch; the property's
# check with the patch; with -t also the stable tests. Leaves /repo as it was.
T=; [ "$1" = -t ] && { T=1; shift; }
clean() { git -C /repo checkout -q -- .; }
trap 'clean; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  clean
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: clean build failed"
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.$id.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || echo "$id: build failed"
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.$id.patched 2>&1); p=$?
  tests=-
  if [ -n "$T" ]; then
    bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
    tests=$(python3 - <<PY
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("/tmp/seed.$id.json"))
print("lost:%s" % sorted(b-set(r["passed"])))
PY
)
  fi
  s=$(date +%s)
  (cd /verif && timeout 900 bash check.sh $prop >/tmp/seed.$id.check 2>&1); k=$?
  echo "$id prop=$prop demo_clean=$c demo_patched=$p tests=$tests check=$k ($(( $(date +%s)-s )) s) $(grep -m1 VIOLATION /tmp/seed.$id.check | cut -c1-200)"
  clean
done
