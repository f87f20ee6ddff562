#!/bin/bash
# runseed.sh ID [props]: applies a planted bug, runs checks, undoes it
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
git -C /repo checkout -q -- . ; git -C /repo apply $d/patch.diff || exit 3
cd /verif; for q in ${@:-$p}; do timeout 900 python3 check.py $q 2>&1 | grep -E "VIOLATION|obligations" | cut -c1-300; done
git -C /repo checkout -q -- .
