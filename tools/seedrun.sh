#!/bin/bash
# seedrun.sh [ID...]: applies each planted bug to a scratch copy and runs the check of its property on it
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo "$t/r" && git -C "$t/r" apply "$PWD/seeded/$id/patch.diff"
  o=$(VF_REPO=$t/r VF_NOEV=1 timeout 900 python3 run.py $p --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$o" | grep -c 'VIOLATION') violations, $(echo "$o" | grep VIOLATION | grep -c no-failing) without input; $(echo "$o" | tail -1)"
  rm -rf "$t"
done
