#!/bin/bash
# run every check of MANIFEST.json (8 at a time)
cd "$(dirname "$0")/.."
python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])" | xargs -P 8 -I{} sh -c 'python3 -m sa.runner {} '"${1:-quick}"' > /tmp/all.{}.log 2>&1; echo "rc=$? $(tail -n 3 /tmp/all.{}.log | cut -c1-300 | tr "\n" " ")"'
