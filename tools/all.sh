#!/bin/bash
# every registered check, one after another; prints those that are not quiet
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); out=$(VERIF_DEBUG=1 python3 check.py $c 2>&1); r=$?
  echo "$c exit=$r $(( $(date +%s)-s ))s $(echo "$out" | head -1 | cut -c1-120)"
  [ $r = 0 ] || echo "$out" | cut -c1-400 | head -${LINES_MAX:-12}
done
