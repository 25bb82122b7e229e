#!/bin/bash
# Runs every check (or those named) and prints one line each.
cd /verif
for i in ${@:-$(python3 -c "import json;print(*[p['property'] if 'property' in p else p['id'] for p in json.load(open('MANIFEST.json'))['checks']])")}; do o=$(python3 check.py $i); echo "$? $(echo "$o" | grep obligations) $(echo "$o" | grep -m1 undecided: | cut -c1-200)"; done
