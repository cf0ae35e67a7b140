#!/bin/bash
# Runs all quick checks and keeps their sizes for the table of DESIGN.md.
cd "$(dirname "$0")/.." && mkdir -p tools/quick
for p in ${*:-$(grep -o '"id": "P[0-9]*"' properties.jsonl | grep -o 'P[0-9]*')}; do
  ./check $p quick | tail -1
  python3 - $p <<'P'
import json, sys
d = json.load(open('evidence/%s.json' % sys.argv[1])); c = d['coverage']
assert not d['violations']
json.dump({'n': c.get('traces_validated_against_impl', c.get('evaluations')),
           'states': c.get('states', c.get('distinct_nontrivial')),
           'wall': d['wall_s']}, open('tools/quick/%s.json' % sys.argv[1], 'w'))
P
done
python3 tools/tables.py
