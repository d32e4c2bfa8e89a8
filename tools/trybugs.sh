#!/bin/bash
# trybugs.sh [pattern...]: run each seeded bug's property check against a scratch tree with the bug
cd /verif
for s in seeded/*/; do
  id=$(basename $s); if [ $# -gt 0 ]; then ok=; for a in "$@"; do case $id in *$a*) ok=1;; esac; done; [ $ok ] || continue; fi
  d=$(mktemp -d /tmp/tb.XXXX); git clone -q /repo $d/r && git -C $d/r apply /verif/$s/patch.diff || { echo "$id PATCH FAILS"; rm -rf $d; continue; }
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  XVC_REPO=$d/r XVC_EVID=$d timeout 900 python3-vt check.py $p quick > $d/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c VIOLATION $d/out) $(grep VIOLATION $d/out | tail -1 | cut -c1-120)"
  [ $rc -gt 1 ] && tail -5 $d/out
  rm -rf $d
done
