#!/bin/bash
# checks/run.sh PROPERTY quick|thorough: build from /repo's working tree and search for violations.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: could not decide.
cd "$(dirname "$0")/.." || exit 2
prop=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
python3 tools/build.py || exit 2
runs=$(awk -v p="$prop" -v t="$tier" '$1 == p { print (t == "thorough" ? $3 : $2) }' checks/runs.txt)
[ -n "$runs" ] || { echo "unknown property $prop" >&2; exit 2; }
if [ "$tier" = thorough ]; then budget=1500; else budget=300; fi
mkdir -p evidence replays
exec build/consim check "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --budget "$budget" \
    --evidence "evidence/$prop.json" --replays "replays" --known known-findings.jsonl --jobs 8
