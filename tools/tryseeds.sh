#!/bin/bash
# runs each seeded change's check (or the checks named in CHECKS) against a scratch copy with the change; usage: tryseeds.sh [ID...]
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
S=$(mktemp -d /tmp/tryseed.XXXXXX)
for id; do
  rm -rf "$S/repo"; git clone -q /repo "$S/repo"
  git -C "$S/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
    VMON_REPO=$S/repo ./run.sh "$p" ${TIER:-quick} >"$S/out" 2>&1; rc=$?
    echo "$id $p rc=$rc $(grep -m1 VIOLATION "$S/out" | cut -c1-100)"
  done
done
rm -rf "$S"
