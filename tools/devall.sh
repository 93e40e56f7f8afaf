#!/bin/bash
# devall.sh "PROPS" FEATURES: verbose runs of several properties, with a summary
V=$(cd "$(dirname "$0")/.." && pwd)
for c in $1; do $V/tools/dev.sh $c "${2-std error sval2 serde1 test owned seq}" > ${O-/tmp/o_}$c 2>&1; echo $c ok=$(grep -c ^ok ${O-/tmp/o_}$c) fail=$(grep -c ^FAIL ${O-/tmp/o_}$c) und=$(grep -c ^UNDEC ${O-/tmp/o_}$c); grep -A1 "^FAIL\|^UNDEC" ${O-/tmp/o_}$c | cut -c1-${W-400} | head -${N-8}; grep -m5 "^error" -A6 ${O-/tmp/o_}$c; done
