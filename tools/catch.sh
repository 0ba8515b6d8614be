#!/bin/bash
# Development tool: applies each planted bug to /repo, runs the check of its property, undoes it. catch.sh [id...]
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id $p NOAPPLY"; continue; }
  s=$(date +%s)
  out=$(bash run.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - s ))s $(grep -m1 VIOLATION <<<"$out" | cut -c1-160)"
done
