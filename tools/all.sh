#!/bin/bash
# runs every registered check once (quick unless VERIF_TIER=thorough) and prints the outcome and the time
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*sorted(c.get('property') or c.get('id') for c in json.load(open('MANIFEST.json'))['checks']))"); do
  s=$(date +%s%N); ./check.sh $i >/tmp/q.$i 2>&1; r=$?; e=$(( ($(date +%s%N)-s)/1000000 )); echo "$i rc=$r ${e}ms"; done
