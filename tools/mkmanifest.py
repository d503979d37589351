#!/usr/bin/env python3
"""Write MANIFEST.json from checks.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(here + '/checks.json'))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
na = {}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    c = checks.get(p['id'])
    if not c:
        m['not_applicable'].append({'property': p['id'], 'reason': na.get(p['id'], 'The check is not built yet.')})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
        'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
m['notes'] = 'No hooks in /repo: instrumented builds are made by a build overlay from the working tree (see DESIGN.md).'
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
