#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])") || continue
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(timeout 900 ./check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$prop " <<<"$out")
  if [ $rc = 1 ] && [ "$v" -gt 0 ]; then echo "$id $prop CAUGHT ($v)"; else echo "$id $prop MISSED rc=$rc"; fi
done
