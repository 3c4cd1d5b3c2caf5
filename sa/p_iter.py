"""P27: every constructor and method of the buffer, tensor and iterator classes: what each field of each object is afterwards."""
import os, re
import front, facts, m3
from front import Broken
from cond import Mod
from m3 import PCond

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'release', 'convergent']}
PROBE = front.VERIF + '/sa/probes/iter.cc'


def skip_(c, m):
    return {a.s for a in c.args if a.bt is not None and a.bt >= 0 and m.types[m.strip(a.bt)]['kind'] in ('struct', 'union')}


def subj(cfg, only=None):
    p = front.tmp() + '/iter_%s.cc' % cfg
    with open(p, 'w') as f:
        f.write(open(PROBE).read().replace('@FULL@', m3.full_tensor()))
    bc = front.compile_bc([p], cfg, ['-fno-access-control', '-fstandalone-debug'])
    d = front.dump(bc, ['--roots=^p_', '--inline-main', '--inline=.*', '--globals'] + front.NORMAL, 'iter_' + cfg)
    m = Mod(d)
    keep = facts.load('P27') if os.path.exists(facts.specfile('P27')) else {}      # expected to change: shown even where it no longer does
    names = re.findall(r'\b(p_\w+)\(', open(PROBE).read())
    for n in names:
        if only and not re.search(only, n):
            continue
        f = m.fns.get(n)
        if f is None or not f['blocks']:
            raise Broken('probe %s missing' % n)
        c = PCond(m, f)
        fs = facts.retfact(c)
        if f.get('ret') == 'void' or not fs['return'][0]:
            fs.pop('return')
        for a in c.args:
            bt = m.strip(a.bt) if a.bt is not None and a.bt >= 0 else -1
            if bt >= 0 and m.types[bt]['kind'] in ('struct', 'union'):
                st = facts.state(c, a, bt, a.s)
                fs.update({k: v for k, v in st.items() if k in keep.get(n[2:], {}).get('facts', ()) or len(v[0]) != 1 or v[0][0][1] != '%s->%s' % (a.s, k[len(a.s):].lstrip('.'))})
        for a in c.args:
            if a.s in ('inc', 'out') and a.s not in skip_(c, m):
                for k in range(1 if n == 'p_it_next_offset' else 3):
                    cs, tot = [], 0
                    for (Rr, v, ins), tm in zip(c.rets, c.rets_t):
                        tot = c.b.OR(tot, Rr)
                        cs += [(g, x.s) for g, x in ((c.b.AND(g, Rr), x) for g, x in c.read(a, 4 * k, 4, 'i32', tm, Rr)) if g]
                    if '%s[%d]' % (a.s, k) in keep.get(n[2:], {}).get('facts', ()) or len(cs) != 1 or cs[0][1] not in ('%s[%d]' % (a.s, k), '*%s' % a.s):
                        fs['%s[%d]' % (a.s, k)] = (cs, tot)
        skip = skip_(c, m) | {'inc', 'out'}
        mine = {x.get('n') or 'tmp%d' % x['id'] for bl in f['blocks'] for x in bl if x['op'] == 'alloca'}
        par = {a.s for a in c.args}
        fs = {k: v for k, v in fs.items() if not any('bytes[' in t for g, t in v[0])}       # a member copied as part of a wider access
        fs = {k: v for k, v in fs.items() if not any('ite{' in t or len(t) > 260 for g, t in v[0])}          # followed in the probes of lower rank
        fs.update(facts.stores(c, lambda t: not re.match(r'&?(%s)(->|\[|$|\+|\))' % '|'.join(map(re.escape, skip or {'-'})), t) and (re.match(r'[&(*]*([\w~.]*)', t).group(1).split('.')[0] in par or re.match(r'[&(*]*([\w~]*)', t).group(1) not in mine)))
        yield n[2:], c, fs, 'include/mli_iterator.hpp' if re.match('p_(cfg|bit|it)_', n) else 'include/mli_types.hpp'


def run(R):
    facts.run(R, subj, CFG[R.tier])


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    import time
    for n, c, fs, w in subj('up', sys.argv[1] if len(sys.argv) > 1 else None):
        print(n, len(fs))
        for k, (cs, R) in fs.items():
            print('    %s = %s' % (k, ' | '.join('%s%s' % (t, '' if c.b.AND(g, R) == R else ' [%s]' % c.b.show(g)[:150]) for g, t in cs)[:260]))
