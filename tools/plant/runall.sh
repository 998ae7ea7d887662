#!/bin/bash
# runall.sh DIR LOG [props]
D=$1; L=$2; shift 2
P=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27}
: > $L
cd /verif
echo $P | tr ' ' '\n' | VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$D xargs -P 2 -I{} bash -c 's=$(date +%s); o=$(timeout 900 python3 run.py {} quick 2>&1); r=$?; echo "{} rc=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -E "VIOLATION|KNOWN|held|Error|error" | head -3)" >> '$L
echo done >> $L
