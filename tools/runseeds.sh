#!/bin/bash
# runseeds.sh ID...: does the property's quick check report the planted change? (in a scratch copy; never touches /repo)
cd /verif; wt=/tmp/seedchk; rm -rf /tmp/seedchk; git clone -q /repo $wt
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C $wt checkout -q -- . ; git -C $wt apply seeded/$i/patch.diff 2>/dev/null || git -C $wt apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  python3 tools/build.py --repo $wt --out /tmp/seedchk_b >/tmp/seedchk.log 2>&1 || { echo "$i: build failed"; tail -3 /tmp/seedchk.log; continue; }
  n=$(awk -v p=$p '$1==p{print $2}' checks/runs.txt); s=$(date +%s)
  mkdir -p /tmp/seedchk_r; timeout 700 /tmp/seedchk_b/consim check $p --tier quick --seed ${SEED:-1} --runs $n --budget 300 --evidence /tmp/seedchk_r/e.json --replays /tmp/seedchk_r --known known-findings.jsonl --jobs 8 > /tmp/seedchk.out 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seedchk.out | cut -c1-80) :: $(grep -v VIOLATION /tmp/seedchk.out | head -3 | tr '\n' ' ' | cut -c1-300)"
done
rm -rf /tmp/seedchk /tmp/seedchk_b /tmp/seedchk_r
