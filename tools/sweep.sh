#!/bin/bash
# usage: tools/sweep.sh TIER "SEEDS" [JOBS] [ids...]: runs the checks with several seeds and prints every one that is not quiet
tier=${1:-quick}; seeds=${2:-"1 2 3"}; jobs=${3:-2}; shift $(( $# < 3 ? $# : 3 ))
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for s in $seeds; do for i in $ids; do echo "$s $i"; done; done |
  xargs -P "$jobs" -L 1 bash -c 'o=$(VERIF_SEED=$0 VERIF_TIER='"$tier"' ./check.sh $1 --tier '"$tier"' 2>&1); rc=$?; echo "rc=$rc seed=$0 $(echo "$o" | tail -1 | cut -c1-400)"' |
  tee "/tmp/sweep-$tier.log" | grep -v '^rc=0'
echo "$(grep -c '^rc=0' "/tmp/sweep-$tier.log") quiet of $(wc -l < "/tmp/sweep-$tier.log")"
