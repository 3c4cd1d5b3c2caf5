"""P02-P05: every parameter check accepts exactly what its confirmed requirement table states."""
import json
import chk, front
from front import Broken
from cond import Mod, Cond

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'convergent']}


def where(c, f):
    return '%s:%s' % (front.rel(f.get('file', '?')), f.get('line', 0))


def run(R):
    spec = json.load(open(chk.SPECFILE))
    mine = sorted(k for k, v in spec.items() if v['prop'] == R.prop)
    if not mine:
        raise Broken('no requirement tables for ' + R.prop)
    allnames = sorted(spec)
    for cfg in CFG[R.tier]:
        m = chk.load(allnames, cfg)
        by = chk.byname(m)
        for key in mine:
            nm = key
            L = by.get(nm, [])
            f = L[0] if len(L) == 1 else None
            if f is None:
                raise Broken('%s: function %s not found in mli_check.cc (%s)' % (R.prop, key, cfg))
            c, ok = chk.analyse(f, m)
            if c.problems:
                raise Broken('%s: %s' % (key, c.problems[:3]))
            miss, extra = chk.compare(c, ok, spec[key])
            w = where(c, f)
            R.count('functions')
            R.count('requirement clauses', len(spec[key]['clauses']))
            R.count('paths joined (blocks)', len(f['blocks']))
            R.obl += len(spec[key]['clauses']) + 1
            R.units.append('%s (%s): %d clauses' % (key, cfg, len(spec[key]['clauses'])))
            for x in miss:
                R.violation(nm, w, 'accepts arguments that break the requirement: ' + chk.clause_text(x))
            for x in extra:
                R.violation(nm, w, 'rejects arguments every requirement allows: it additionally demands ' + chk.clause_text(x))
            for e in c.events.values():
                if e[0] == 'store' and not local_store(c, e[3]):
                    R.violation(nm, '%s:%s' % (front.rel(str(c.loc(e[3])[0])), c.loc(e[3])[1]), 'a parameter check writes to memory it was given: ' + str(e[2][0])[:100])
                    R.count('stores to caller memory')


def local_store(c, ins):
    """every object the stored-to pointer may denote is a local variable"""
    seen, st = set(), [ins['ops'][1]]
    while st:
        o = st.pop()
        if o[0] != 'i':
            return False
        if o[1] in seen:
            continue
        seen.add(o[1])
        i = c.inst[o[1]]
        if i['op'] == 'alloca':
            continue
        if i['op'] == 'getelementptr':
            st.append(i['gep'][0])
        elif i['op'] == 'phi':
            st += [v for _, v in i['in']]
        elif i['op'] == 'select':
            st += i['ops'][1:]
        elif i['op'] in ('bitcast', 'freeze'):
            st.append(i['ops'][0])
        else:
            return False
    return True
