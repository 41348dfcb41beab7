#!/bin/bash
# sweep.sh PROP [count] [seed] [show]: quick look at many seeds
cd /verif; python3 tools/build.py > /tmp/sweep_$1_build.txt 2>&1 || { head -30 /tmp/sweep_$1_build.txt; exit 1; }
build/sim/tirosim run --property $1 --seed ${3:-1} --count ${2:-400} > /tmp/sweep_$1.txt 2>/dev/null
awk '/scenario/{print $4,$5,$6}' /tmp/sweep_$1.txt | sort | uniq -c | sort -rn | head -40
grep -a status=2 /tmp/sweep_$1.txt | cut -c1-${5:-260} | head -${4:-12}
