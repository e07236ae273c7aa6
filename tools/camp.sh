#!/bin/bash
# camp.sh N PROP...: build, run a campaign of N runs for each property, and summarise
cd /verif; n=$1; shift; mkdir -p out
python3 lib/build.py asan > out/build.log 2>&1 || { grep -E "error|Error" out/build.log | head -20; exit 1; }
for p in "$@"; do timeout 600 build/asan/tsim campaign $p --seed ${SEED:-1} --runs $n --time ${TIME:-60} --mintime ${MIN:-4} --out /verif/out 2>&1 | tail -5;  python3 tools/summ.py $V $p; done
