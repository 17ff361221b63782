#!/bin/bash
# Run the quick check of the property of each planted bug against it, in a
# scratch clone of /repo: tools/trybugs.sh [ID...]
# prints "ID PROP rc seconds" and records the sub-check that caught it in tools/catches.json.
cd "$(dirname "$0")/.."
V=$PWD
for id in ${*:-$(ls seeded)}; do
    p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
    d=$(mktemp -d /tmp/tryXXXXXX)
    git clone -q /repo $d/repo
    git -C $d/repo apply $V/seeded/$id/patch.diff || echo "no apply $id"
    s=$(date +%s)
    VERIF_REPO=$d/repo VERIF_OUT=$d VERIF_SEED=${VERIF_SEED:-1} ./check.sh ${PROP:-$p} ${OPTS:---first} >$d/out 2>&1
    rc=$?
    by=$(sed -n 's/^--- //p' $d/out | sort -u | tr '\n' ' ')
    echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s) - s ))s $by"
    if [ -z "$PROP" ]; then python3 - "$id" "$rc" "$by" <<'P'
import json, os, sys
p = 'tools/catches.json'
d = json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]] = sys.argv[3].strip() if sys.argv[2] == '1' else '**not caught**'
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
P
    fi
    rm -rf "$d"
done
