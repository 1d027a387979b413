#!/bin/bash
# tools/sweep.sh [args...]   runs every check in turn, prints result lines and times
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
    s=$(date +%s.%N)
    o=$(bash check.sh "$i" "$@" 2>&1); rc=$?
    echo "$i rc=$rc $(python3 -c "import time;print(round(time.time()-$s,1))")s $(echo "$o" | tail -3 | cut -c1-400 | tr '\n' ' ')"
done
