#!/bin/bash
# allchecks.sh: every check on the current tree, four at a time, one line each
cd /verif
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do echo $p; done | \
 xargs -P 6 -I{} sh -c 'timeout 900 python3 check.py {} > /tmp/o_{}.txt 2>&1; echo "rc=$? $(grep obligations /tmp/o_{}.txt | tail -1)"; grep -h ^VIOLATION /tmp/o_{}.txt'
