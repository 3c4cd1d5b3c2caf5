"""Regenerate sa/spec/<prop>.json from the current tree (development only; reviewed by hand): freeze_facts.py <prop> [subject regex]"""
import sys, json, os, re
sys.path.insert(0, '/verif/sa')
sys.setrecursionlimit(20000)
import facts, importlib
import freeze_map
prop = sys.argv[1]
mod, fn = freeze_map.MAP[prop]
sub = getattr(importlib.import_module(mod), fn)
out = {}
for name, c, fs, where in [x for cfg in (['up', 'fullacc'] if prop in ('P18', 'P19') else ['up']) for x in sub(cfg) if cfg == 'up' or 'FULL' in x[0]]:
    out[name] = facts.freeze(c, fs, rel=prop in ('P30', 'P19'))
    print(name, len(fs))
    if '-v' in sys.argv:
        for n, cs in out[name]['facts'].items():
            print('    %s = %s' % (n, ' | '.join('%s%s' % (t, '' if not cl else ' when ' + ' and '.join('(' + ' or '.join(('' if p else 'not ') + a for a, p in x) + ')' for x in cl)) for t, cl in cs)))
if '-n' not in sys.argv:
    json.dump(out, open(facts.specfile(prop), 'w'), indent=0, sort_keys=True)
