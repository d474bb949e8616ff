#!/usr/bin/env python3
"""Write MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import config
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in config.PROPS:
        p = config.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'],
                       'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
