#!/bin/bash
# runseeds.sh [ID...]: run each planted bug's own check (quick) against it; -a runs all checks
cd /verif/seeded || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
ids="$*"; [ -n "$ids" ] || ids="$(ls)"
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 bash /verif/check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'VIOLATION|violat' | head -1 | cut -c1-200)"
done
