"""Regenerate MANIFEST.json from sa/rules.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/sa')
from rules import RULES, TECH, NA
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
ids = [p['id'] for p in props]
checks, na = [], []
for p in ids:
    if p in RULES:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'technique': TECH[RULES[p][0]], 'level': 'other', 'level_note': RULES[p][1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no static check for it has been built yet')})
m = {'version': 1, 'setup_cmd': 'mkdir -p build && bash tools/build_irtool.sh build/irtool', 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
