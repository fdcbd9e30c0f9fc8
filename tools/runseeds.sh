#!/bin/bash
# usage: runseeds.sh [ID...]: runs each planted bug's check on a scratch copy of /repo with the bug applied.
cd /verif/seeded
w=$(mktemp -d)
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cp -a /repo $w/r
  git -C $w/r apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  out=$(VERIF_REPO=$w/r VERIF_OUT=$w timeout 900 /verif/check.sh $p 2>&1); rc=$?
  rm -rf $w/r
  echo "$s $p rc=$rc $([ $rc = 1 ] && echo caught || echo MISSED) | $(echo "$out" | sed -n 2p | cut -c1-220)"
done
rm -rf $w
