#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked by TLC; '
NOTES = json.load(open(V + '/lib/manifest_notes.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
           'technique': T + NOTES[p][0], 'level': 'model_checking', 'level_note': NOTES[p][1]} for p in props if p in NOTES]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in NOTES],
     'notes': 'See DESIGN.md. Known and fixed defects: known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
