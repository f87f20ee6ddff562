#!/bin/bash
# tryseed.sh ID [props]: runs checks against a copy of /repo with a planted bug applied
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
w=$(mktemp -d /tmp/tryseed_XXXXXX); cp -a /repo $w/repo; git -C $w/repo apply $d/patch.diff || exit 3
cd /verif; for q in ${@:-$p}; do SA_REPO=$w/repo SA_EVIDENCE=$w timeout 900 python3 -W ignore check.py $q 2>&1 | grep -E "^VIOLA|UNDECIDED|obligations" | cut -c1-${COLS:-300}; done
rm -rf "$w"
