"""Freeze the names of struct members and parameters (development only): sa/spec/names.json lets the tables survive a renaming"""
import sys, json
sys.path.insert(0, '/verif/sa')
import front
from cond import Mod
import glob
Mod.NAMES = {'fields': {}, 'params': {}}
F, P = {}, {}
bcs = []
for cfg in ('up', 'fullacc'):
    bc = front.compile_bc(front.lib_sources() + [], cfg)
    d = front.dump(bc, ['--roots=.*', '--alltypes', '--noinline=.*'], 'names_' + cfg)
    m = Mod(d)
    for t in m.types:
        if t['kind'] in ('struct', 'union') and t.get('name') and t.get('mem') and not t.get('decl'):
            v = [x[0] for x in t['mem']]
            n = t['name'].split('<')[0]                                # an instance of a template has the members of the template
            if v not in F.setdefault(n, []):
                F[n].append(v)
    for f in m.fns.values():
        if f.get('args'):
            P.setdefault(f['name'], [a.get('n') for a in f['args']])
F = {k: v for k, v in F.items() if k.strip() and not k.startswith('_')}
print(len(F), len(P))
json.dump({'fields': F, 'params': P}, open('/verif/sa/spec/names.json', 'w'), sort_keys=True, separators=(',', ':'))
