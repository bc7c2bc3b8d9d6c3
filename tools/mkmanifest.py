"""writes MANIFEST.json from the registry"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                   'technique': p.get('technique', 'contract-based deductive verification: VC generation from the real source, obligations discharged by normal form + z3'),
                   'level': p.get('level', 'proof'),
                   'level_note': p.get('note', 'All inputs, all sizes, under: ' + '; '.join(p['assumptions'])[:1500])})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'/verif\'); import registry"', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contract within reach yet (work in progress)')} for i in ids if i not in PROPS],
     'notes': NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
