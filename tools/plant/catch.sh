#!/bin/bash
# catch.sh id [props]  -> runs own property's check against a patched copy
id=$1; prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
W=/tmp/w/cp-$id; [ -d "$W" ] && { rm -rf "/tmp/w/cp-$id"; }; cp -a /repo "$W"; git -C "$W" apply /verif/seeded/$id/patch.diff || exit 9
for p in ${2:-$prop}; do
s=$(date +%s); VERIF_REPO=$W VERIF_SEED=${SEED:-1} /verif/check.sh $p > /tmp/w/catch.$id.$p 2>&1; rc=$?
echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/w/catch.$id.$p | cut -c1-160)"
done
rm -rf "$W"
