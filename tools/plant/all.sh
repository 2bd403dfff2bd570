#!/bin/bash
# all.sh seeds...  run all checks on /repo
for s in "$@"; do for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))" 2>/dev/null || seq -f 'C%02g' 1 26); do
t=$(date +%s); VERIF_SEED=$s ./check.sh $p > /tmp/w/all.$p.$s 2>&1; rc=$?; echo "seed $s $p rc=$rc $(($(date +%s)-t))s $(grep -c KNOWN-FINDING /tmp/w/all.$p.$s)"; done; done
