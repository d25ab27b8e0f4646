#!/bin/bash
# tools/runseed.sh [seed ids...]: run the owning property's quick check with each planted bug applied to /repo
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(bash check.sh "${CHECK:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 clause | cut -c1-200)"
  [ $rc -gt 1 ] && echo "$out" | tail -5
done
bash /opt/vp/build.sh >/dev/null 2>&1
