#!/bin/bash
. /opt/vp/env.sh; cd /verif
rm -rf /tmp/wtr; cp -a /repo /tmp/wtr
for c in $*; do
 (cd /tmp/wtr && git checkout -q -- . && git clean -fdq && git apply /tmp/combo/$c.diff) || { echo "$c NOAPPLY"; continue; }
 for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28}; do
 s=$(date +%s)
 GOSYM_DEBUG=1 /tmp/gosym -repo /tmp/wtr -prop $p -evdir /tmp/ev -out /tmp/rsout -v > /tmp/rc_$c-$p.txt 2>&1; rc=$?
 l=$(tail -1 /tmp/rc_$c-$p.txt)
 a=$(echo "$l" | sed -n 's/.* \([0-9]*\) harnesses (\([0-9]*\) exhausted.*/\1 \2/p')
 set -- $a
 echo "$c $p rc=$rc $(( $(date +%s)-s ))s"
 if [ $rc != 0 ] || [ "$1" != "$2" ] || grep -q UNCONF /tmp/rc_$c-$p.txt; then echo "  BAD $(echo $l | cut -c1-200) $(grep -B2 VIOLATION /tmp/rc_$c-$p.txt | head -1 | cut -c1-140)"; fi
 done
 echo "$c done"
done
