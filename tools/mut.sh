#!/bin/bash
# tools/mut.sh SEED [CHECK...]: runs the checks against a scratch copy of /repo with the planted change applied
s=$1; shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo $d/r && git -C $d/r checkout -q . && git -C $d/r apply /verif/seeded/$s/patch.diff || exit 9
for c in ${@:-${s:0:3}}; do
  VERIF_REPO=$d/r timeout 900 python3-vt /verif/checks/$c.py > $d/out 2>&1; rc=$?
  echo "$s $c rc=$rc $(grep -c ^VIOLATION $d/out) $(tail -1 $d/out | cut -c1-60)"
done
rm -rf "$d"
