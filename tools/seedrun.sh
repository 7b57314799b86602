#!/bin/bash
# seedrun.sh [seed...]: runs the check of each seed's property against a copy of /repo with the seed applied
cd "$(dirname "$0")/.."
S=${SEEDS:-$PWD/seeded}
for s in ${@:-$(ls $S)}; do
  d=/tmp/seedrun_wt; rm -rf /tmp/seedrun_wt; cp -a /repo $d; git -C $d checkout -q .; git -C $d apply "$S/$s/patch.diff" || { echo "$s: patch does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$S/$s/meta.json'))['property'])")}
  out=$(VERIF_REPO=$d timeout 900 bash run.sh $p ${TIER:-quick} 2>&1); rc=$?
  echo "$s $p rc=$rc $([ $rc = 1 ] && echo CAUGHT || echo MISSED) $(echo "$out" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-150) $(echo "$out" | tail -1 | grep -o 'wall.*')"
done
rm -rf /tmp/seedrun_wt
