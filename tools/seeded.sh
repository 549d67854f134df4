#!/bin/bash
# usage: tools/seeded.sh <id>...   confirms planted changes and says whether their property's quick check catches them
# (applies the change to /repo, so nothing else may be using /repo meanwhile; undoes it afterwards)
cd /verif || exit 2
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  if ! git -C /repo apply "$d/patch.diff"; then echo "$id $prop BAD: does not apply"; continue; fi
  if ! bash /opt/vp/build.sh > /tmp/seeded.build.log 2>&1; then echo "$id $prop BAD: does not build"; tail -20 /tmp/seeded.build.log; undo; continue; fi
  bash /opt/vp/test.sh /tmp/seeded.json > /dev/null 2>&1
  t=$(python3 -c 'import json
b=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open("/tmp/seeded.json"))
m=sorted(set(b["stable"])-set(o["passed"]))
print("ok" if not m else "FAIL "+",".join(m)[:200])')
  (cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seeded.demo.log 2>&1); demo=$?
  s=$(date +%s)
  timeout 900 /verif/check "$prop" quick > /tmp/seeded.$id.log 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  v=$(grep -c "^VIOLATION property=$prop " /tmp/seeded.$id.log)
  undo
  if [ "$SKIP_CLEAN" = 1 ]; then clean=skipped; else
    bash /opt/vp/build.sh > /dev/null 2>&1
    (cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seeded.clean.log 2>&1); clean=$?
  fi
  if [ "$rc" = 1 ] && [ "$v" -gt 0 ]; then c=CAUGHT; else c="MISSED(rc=$rc)"; fi
  echo "$id $prop tests=$t demo_with=$demo demo_without=$clean $c ${e}s"
done
