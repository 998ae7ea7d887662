#!/bin/bash
# usage: seeds.sh DIR SEED...   runs all quick checks from a clone
D=$1; shift
git clone -q /verif $D
cd $D
for s in "$@"; do for i in $(seq 1 30); do P=C$(printf %02d $i); t=$(date +%s); VERIF_SEED=$s timeout 900 nice python3 run.py $P quick > $D.one 2>&1; r=$?; echo "seed $s $P rc=$r $(( $(date +%s)-t ))s $(grep -h VIOLATION $D.one | head -1)"; [ $r -ne 0 ] && tail -5 $D.one | cut -c1-600; done; done
echo done
