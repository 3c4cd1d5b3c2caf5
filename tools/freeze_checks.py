"""Regenerate sa/spec/checks.json from the current tree (development only; the result is reviewed by hand)."""
import sys, json, re
sys.path.insert(0, '/verif/sa')
import chk, front
src = open(front.LIB + '/private/src/mli_check.cc').read() + open(front.LIB + '/private/mli_check.h').read()
cand = {n for n in re.findall(r'\b(mli_chk_\w+|mli_tensor_is_scalar)\s*\(', src) if chk.prop_of(n)}
m = chk.load(cand)
fs = chk.byname(m)
out = {}
for n in sorted(cand):
    assert len(fs.get(n, [])) == 1, (n, len(fs.get(n, [])))
    c, ok = chk.analyse(fs[n][0], m)
    e = chk.freeze_entry(c, ok)
    e['prop'] = chk.prop_of(n)
    out[n] = e
json.dump(out, open(chk.SPECFILE, 'w'), indent=0, sort_keys=True)
print(len(out), {p: sum(1 for e in out.values() if e['prop'] == p) for p in ('P02', 'P03', 'P04', 'P05')}, sum(len(e['clauses']) for e in out.values()))
