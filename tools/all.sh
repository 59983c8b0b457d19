#!/bin/bash
# every claimed check, one after another
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 check.py --property $p "$@" || echo "EXIT $?"
done
