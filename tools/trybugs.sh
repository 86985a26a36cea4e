#!/bin/bash
# Runs the check of each planted bug's property against a scratch copy of /repo with the bug (development tool).
# usage: trybugs.sh [id ...]
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  w=$(mktemp -d /tmp/try_XXXXXX)
  git clone -q /repo "$w/r" && git -C "$w/r" apply "$PWD/seeded/$id/patch.diff" || { echo "NOAPPLY $id"; rm -rf "$w"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO=$w/r VERIF_EVIDENCE=$w/ev python3 check.py $prop 2>&1); rc=$?
  if [ $rc -eq 1 ]; then echo "caught  $id $prop: $(echo "$out" | grep -m1 '^  ' | cut -c1-220)"; else echo "MISSED  $id $prop rc=$rc $(echo "$out" | tail -1)"; fi
  rm -rf "$w"
done
