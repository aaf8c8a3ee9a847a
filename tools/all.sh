#!/bin/bash
# runs every claimed check, one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  VERIF_SEED=${VERIF_SEED:-1} python3-vt check.py $p 2>&1 | grep -v KNOWN-FINDING | cut -c1-500 | head -6
done
