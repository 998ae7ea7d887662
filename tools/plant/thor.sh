cd /tmp/exp/vt
for p in "$@"; do s=$(date +%s); VERIF_REPO=/tmp/exp/wr2 VERIF_TIER=thorough nice timeout 1500 ./run.py $p thorough > /tmp/exp/t_$p.log 2>&1; echo "$p rc $? $(( $(date +%s) - s ))s $(tail -1 /tmp/exp/t_$p.log | cut -c1-200)" >> /tmp/exp/thor.log; done
