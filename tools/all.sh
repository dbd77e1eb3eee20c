#!/bin/bash
# all.sh [tier] [ids...]: run the registered checks, one line each
cd "$(dirname "$0")/.."
t=${1:-quick}; shift
ids=${@:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for c in $ids; do
  s=$(date +%s.%N); python3 check.py $c $t > /tmp/all_$c.txt 2>&1; rc=$?
  echo "$c rc=$rc $(echo "$(date +%s.%N) - $s" | bc | cut -c1-6)s $(grep -c KNOWN /tmp/all_$c.txt) $(grep -E 'VIOLATION|NO VERDICT' /tmp/all_$c.txt | head -2 | cut -c1-150)"
done
