#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        out['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        out['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'check under construction')})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(out['checks']), 'checks;', [x['property'] for x in out['not_applicable']])
