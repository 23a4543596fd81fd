#!/bin/bash
# q.sh PROP... : runs checks, prints only the end of the output (development aid)
cd ${VF:-/verif}
for p in "$@"; do
  s=$(date +%s); timeout 900 python3 check.py $p > /tmp/q_$p.log 2>&1; rc=$?
  echo "== $p rc=$rc $(( $(date +%s)-s ))s"; tail -n ${L:-6} /tmp/q_$p.log | cut -c1-${W:-600}
done
