#!/bin/bash
# run the owning check against each planted bug: tools/runseeds.sh [ids...]
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  W=$(mktemp -d)
  git clone -q /repo $W/r && git -C $W/r apply "$PWD/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; rm -rf "$W"; continue; }
  s=$(date +%s)
  out=$(ROFL_REPO=$W/r python3-vt check.py $p 2>&1); rc=$?
  e=$(date +%s)
  echo "$i $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 -E 'VIOLATION|NOTE' | sed 's/replay=[^ ]*//') $(echo "$out" | grep -m1 FAIL | cut -c1-150)"
  rm -rf "$W"
done
