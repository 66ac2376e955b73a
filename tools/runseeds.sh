#!/bin/bash
# usage: runseeds.sh [-a] [ids]: applies each planted bug to /repo, runs the check of its property (-a: all checks), undoes it
cd /verif
ALL=0; [ "$1" = -a ] && { ALL=1; shift; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  if [ $ALL = 1 ]; then list=$(ls harness/c[0-9]*.py | sed 's/.*\/c/C/;s/\.py//'); else list=$p; fi
  res=""
  for q in $list; do
    out=$(timeout 900 ./check.sh $q --tier quick 2>&1); rc=$?
    if echo "$out" | grep -q "^VIOLATION property=$q" && [ $rc = 1 ]; then res="$res $q:CAUGHT($(echo "$out" | grep -o 'job=[a-zA-Z0-9_-]*' | sort -u | head -2 | tr '\n' ','))"; elif [ $rc != 0 ]; then res="$res $q:RC$rc"; elif [ $ALL = 0 ]; then res="$res $q:missed"; fi
  done
  git -C /repo checkout -q -- .
  echo "$d [$p]$res"
done
