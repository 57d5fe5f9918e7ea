#!/bin/bash
# sweep.sh "P13 P14" tier seed0 seed1 : prints everything that is not OK
cd "$(dirname "$0")/.."
for p in $1; do for s in $(seq $3 $4); do o=$(VERIF_SEED=$s ./check.sh $p $2); rc=$?; [ $rc -ne 0 ] && echo "$p seed $s rc=$rc: $o"; done; echo "$p swept $3..$4; last: $(echo "$o" | tail -1)"; done
