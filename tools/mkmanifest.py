"""Rewrites MANIFEST.json: one check per property with contracts/cXX.py or bounded/cXX.py (see tools/notes.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    n = notes.get(p)
    if n and 'level' in n:
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
                       'technique': n['technique'], 'level': n['level'], 'level_note': n['level_note']})
    else:
        na.append({'property': p, 'reason': (n or {}).get('reason', 'no check built yet')})
m = {'version': 1, 'setup_cmd': "./py -c 'import z3, cvc5, plasTeX'", 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
