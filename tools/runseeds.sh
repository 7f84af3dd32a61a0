#!/bin/bash
# runseeds.sh [ids...]: own check (quick) against every seed in scratch copy /tmp/wts
. /opt/vp/env.sh; cd /verif
[ $# -gt 0 ] && ids="$*" || ids=$(ls seeded)
rm -rf /tmp/wts; cp -a /repo /tmp/wts
for id in $ids; do
 (cd /tmp/wts && git checkout -q -- . && git clean -fdq && git apply /verif/seeded/$id/patch.diff) || { echo "$id NOAPPLY"; continue; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 s=$(date +%s)
 /tmp/gosym -repo /tmp/wts -prop $p -noev -out /tmp/rsout > /tmp/rs_$id.txt 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -B2 VIOLATION /tmp/rs_$id.txt | head -1 | cut -c1-140)"
done
