#!/bin/bash
# development tool: for each seeded/<id> (or those given) apply it to /repo, run its property's check, revert; prints the outcome
cd "$(dirname "$0")/.."
for i in $(cd seeded; for a in "${@:-}"; do ls -d "$a"*; done); do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i NOAPPLY"; continue; }
  s=$(date +%s); out=$(./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VIOL' | tail -1 | cut -c1-150)"
done
