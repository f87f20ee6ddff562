#!/bin/bash
# mkbaseline.sh: records, on the current tree, which replaced functions each law reaches (laws/baseline.json)
cd "$(dirname "$0")/.." || exit 1
rm -f laws/baseline.json
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
  [ $p = C24 ] || SA_BASELINE=1 SA_EVIDENCE=/tmp/oo python3 check.py $p > /dev/null 2>&1
done
wc laws/baseline.json
