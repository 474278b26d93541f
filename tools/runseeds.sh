#!/bin/bash
# usage: runseeds.sh [-a] [id-substring ...]: run the property's check (-a: all checks) against each planted bug, applied to /repo
all=; [ "$1" = -a ] && { all=1; shift; }
ids=$(cd /verif && python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null)
for d in /verif/seeded/*/; do
    id=$(basename "$d")
    if [ $# -gt 0 ]; then m=; for x in "$@"; do case $id in *$x*) m=1 ;; esac; done; [ -n "$m" ] || continue; fi
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    for c in $([ -n "$all" ] && echo $ids || echo $p); do
        t0=$(date +%s)
        out=$(bash /verif/check.sh $c 2>&1); rc=$?
        v=$(echo "$out" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-150)
        echo "$id $c rc=$rc $(( $(date +%s) - t0 ))s $v"
    done
    git -C /repo checkout -q -- .
done
