"""P01: every public entry applies its own parameter check, to its own arguments, before anything else.
P07: every public kernel runs the instantiation its name promises."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import front
from front import Broken, VERIF, REPO
from cond import Mod, Cond

SPEC = VERIF + '/sa/spec/entries.json'
CFG = {'quick': ['up'], 'thorough': ['up', 'convergent', 'full']}
MEMW = ('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memset', 'memmove')
QUIET = ('printf', '__assert_fail', 'abort', 'puts')


def api_names():
    src = ''
    for h in ('mli_kernels_api.h', 'mli_helpers_api.h', 'mli_mov_api.h'):
        src += open(REPO + '/include/api/' + h).read()
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    src = re.sub(r'//.*', '', src)
    return sorted(set(re.findall(r'\b(mli_(?:krn|hlp|mov)_\w+)\s*\(', src)))


def head(cdem):
    """demangled name -> (name, template argument list)"""
    s = cdem
    if s.endswith(')') or s.endswith(') const'):
        d, i = 0, len(s) - 1 if s.endswith(')') else len(s) - 7
        while i >= 0:
            if s[i] == ')':
                d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0:
                    break
            i -= 1
        s = s[:i]
    ta = []
    if s.endswith('>'):
        d, i = 0, len(s) - 1
        while i >= 0:
            if s[i] == '>':
                d += 1
            elif s[i] == '<':
                d -= 1
                if d == 0:
                    break
            i -= 1
        body, s = s[i + 1:-1], s[:i]
        cur, d = '', 0
        for ch in body:
            if ch in '<([':
                d += 1
            if ch in '>)]':
                d -= 1
            if ch == ',' and d == 0:
                ta.append(cur.strip())
                cur = ''
            else:
                cur += ch
        ta.append(cur.strip())
    return s.split(' ')[-1], ta


class Entry:
    def __init__(self, m, f):
        self.c = c = Cond(m, f)
        self.f, self.m = f, m
        self.name = f['name']
        self.checks, self.impl, self.effects, self.stores = [], [], [], []
        for e in c.events.values():
            k, R, p, i = e
            if k == 'call':
                cd = i.get('cdem') or '?'
                base, ta = head(cd)
                if any(cd.startswith(q) for q in QUIET):
                    continue
                args = ['|'.join(sorted(str(t) for _, t in a)) for a in p[1]]
                if base.startswith('mli_chk_'):
                    self.checks.append(('%s(%s)' % (base, ', '.join(args)), R, i))
                elif cd.startswith('llvm.') and not cd.startswith(MEMW):
                    continue
                elif cd.startswith(MEMW):
                    if not self.local(i['ops'][0]):
                        self.effects.append(('write', R, i, 'memory block write'))
                    if cd.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                        g = self.rootg(i['ops'][1])
                        self.stores.append((self.text(p[1][0]), 'block:' + (g or self.text(p[1][1])), R))
                else:
                    self.impl.append((base, ta, args, R, i))
                    self.effects.append(('call', R, i, 'call of ' + base))
            elif k == 'store':
                # payload: (value cases of the address, stored value)
                for cnd, t in p[0]:
                    pl = c.place(t, i.get('size'), i.get('oty'))
                    for v in c.ascases(p[1]):
                        self.stores.append((pl, str(v[1]), R))
                if not self.local(i['ops'][1]):
                    self.effects.append(('write', R, i, 'store'))
            elif k == 'load':
                if not self.local(i['ops'][0]) and not self.constg(i['ops'][0]):
                    self.effects.append(('read', R, i, 'load', {re.match(r'\*?[\w$]*', str(t)).group(0) for _, t in p} | {t.base for _, t in p}))
            elif k == 'div':
                pass

    def text(self, cases):
        return '|'.join(sorted(str(t) for _, t in cases))

    def root(self, o, seen=None):
        seen = seen or set()
        while o[0] == 'i' and o[1] not in seen:
            seen.add(o[1])
            i = self.c.inst[o[1]]
            if i['op'] == 'getelementptr':
                o = i['gep'][0]
            elif i['op'] == 'alloca':
                return 'local'
            elif i['op'] == 'phi':
                r = {self.root(v, seen) for _, v in i['in']}
                return r.pop() if len(r) == 1 else 'mixed'
            elif i['op'] == 'select':
                r = {self.root(v, seen) for v in i['ops'][1:3]}
                return r.pop() if len(r) == 1 else 'mixed'
            else:
                return 'other'
        return {'g': 'g:' + str(o[1]), 'a': 'arg'}.get(o[0], self.root(o[1], seen) if o[0] == 'xgep' else 'other')

    def local(self, o):
        return self.root(o) == 'local'

    def constg(self, o):
        r = self.root(o)
        g = self.m.globals.get(r[2:]) if r.startswith('g:') else None
        return bool(g and g['const'])

    def rootg(self, o):
        """global a copied block comes from, also through a pointer stored in a global"""
        r = self.root(o)
        if r.startswith('g:'):
            return r[2:]
        if o[0] == 'i':
            i = self.c.inst[o[1]]
            while i['op'] == 'getelementptr' and i['gep'][0][0] == 'i':
                i = self.c.inst[i['gep'][0][1]]
            if i['op'] == 'load':
                r = self.root(i['ops'][0])
                if r.startswith('g:'):
                    return '*' + r[2:]
        return None

    def where(self, i):
        return '%s:%s' % (front.rel(self.c.loc(i)[0]), self.c.loc(i)[1])


def load(cfg, names, implre):
    bcs = front.compile_bc(front.lib_sources(), cfg)

    def one(b):
        a = ['--inline-main', '--strip-inline=' + implre, '--inline-callers=^mli_chk_', '--inline=.*',
             '--noinline=^mli_chk_|^(%s)$|' % '|'.join(names) + implre, '--roots=^(%s)$' % '|'.join(names), '--internalize', '--globals'] + front.NORMAL
        return front.dump([b], a, 'entry_%s_%s' % (cfg, re.sub(r'\W', '', os.path.basename(b))))
    out = {}
    with ThreadPoolExecutor(8) as ex:
        for d in ex.map(one, bcs):
            m = Mod(d)
            for f in m.fns.values():
                if f['name'] in names and f['blocks']:
                    out[f['name']] = Entry(m, f)
    return out


def implre(spec):
    """functions that stay calls: the confirmed implementation functions; everything else is inlined"""
    n = sorted({b for e in spec.values() for b, _, _ in e['impl']})
    return '^([^(]* )?(' + '|'.join(re.escape(x) for x in n) + r')([<(]|$)'


def entries(cfg):
    spec = json.load(open(SPEC))
    names = api_names()
    es = load(cfg, set(names) | set(spec), implre(spec))
    if len(es) < 140:
        raise Broken('only %d public entries found' % len(es))
    return spec, es


def run(R):
    for cfg in CFG[R.tier]:
        spec, es = entries(cfg)
        for n in sorted(spec):
            if n not in es:
                raise Broken('public function %s is no longer defined' % n)
        for n in sorted(es):
            (p01 if R.prop == 'P01' else p07)(R, es[n], spec.get(n), cfg)


def p01(R, E, sp, cfg):
    c, b = E.c, E.c.b
    fl = '%s:%s' % (front.rel(E.f.get('file', '?')), E.f.get('line', 0))
    own = (sp or {}).get('checks') or []
    if sp is None:
        own = [t for t, _, _ in E.checks]
    if not own:
        R.count('entries without a check of their own')
        return
    R.count('entries')
    R.units.append('%s: %s' % (E.name, ' ; '.join(own)))
    key = E.name
    have = {}
    for t, r, i in E.checks:
        have.setdefault(t, []).append((r, i))
    for t in own:
        if not R.obligation(t in have, key, fl, 'does not apply its parameter check %s to its arguments (applied: %s)' % (t, ', '.join(sorted(have)) or 'none')):
            return
    prim = (sp or {}).get('primary') or own
    fail = (sp or {}).get('fail')
    atoms = {}
    for t in prim:
        a = [x for x in c.atoms if x.startswith(t + ' == ')]
        if len(a) != 1:
            R.obligation(False, key, fl, 'the status of %s is never tested' % t)
            return
        atoms[t] = b.var(a[0])
    allok = 1
    for v in atoms.values():
        allok = b.AND(allok, v)
    guarded = set()
    for t in prim:
        guarded |= {x for x in re.findall(r'\w+', t) if x in c.argnames}
    for ev in E.effects:
        kind, r, i, txt = ev[:4]
        if kind == 'read' and not (ev[4] & guarded or any(str(x).startswith(g) for x in ev[4] if x for g in guarded)):
            continue
        R.count('guarded effects')
        R.obligation(b.implies(r, allok), key, E.where(i), '%s at this point is not guarded by %s == MLI_STATUS_OK' % (txt, ' and '.join(prim)))
    # later checks only once the earlier ones passed
    for k in range(1, len(prim)):
        for r, i in have[prim[k]]:
            R.obligation(b.implies(r, atoms[prim[k - 1]]), key, E.where(i), '%s runs although %s failed' % (prim[k], prim[k - 1]))
    # status of the failing check is returned
    for r, v, i in c.rets:
        if v is None:
            continue
        for cnd, t in c.ascases(v):
            g = b.AND(r, cnd)
            bad = b.AND(g, b.NOT(allok))
            if bad != 0:
                R.count('rejecting returns')
                if fail is not None:
                    R.obligation(str(t) == fail, key, E.where(i), 'returns %s after a failed check' % t)
                else:
                    R.obligation(str(t) in atoms and b.implies(bad, b.NOT(atoms[str(t)])), key, E.where(i),
                                 'returns %s when the check failed, instead of the status of the check' % t)
            good = b.AND(g, allok)
            if good != 0 and t.c is not None and fail is None:
                R.obligation(t.c == 0 or str(t) in (sp or {}).get('status', []), key, E.where(i), 'returns error %s although the check passed' % t)
            # a status reported by the computation is not dropped
            if good != 0 and fail is None:
                for base, ta, args, r2, i2 in E.impl:
                    if base not in (sp or {}).get('reports', []):
                        continue
                    both = b.AND(good, r2)
                    if both != 0:
                        R.count('reported statuses')
                        R.obligation(str(t) in callterm(E, i2), key, E.where(i), 'returns %s although %s reported the status' % (t, base))


def callterm(E, i):
    v = E.c.env.get(i['id'])
    return {str(t) for _, t in v} if v and not isinstance(v, tuple) else set()


def p07(R, E, sp, cfg):
    if not E.name.startswith('mli_krn_') or sp is None:
        return
    fl = '%s:%s' % (front.rel(E.f.get('file', '?')), E.f.get('line', 0))
    R.count('kernels')
    cur = [(b, ta, args, E.where(i)) for b, ta, args, r, i in E.impl]
    R.units.append('%s -> %s' % (E.name, '; '.join('%s<%s>' % (b, ', '.join(t)) for b, t, a, w in cur)[:200]))
    left = [list(x) for x in sp['impl']]
    for b, ta, args, w in cur:
        hit = None
        for x in left:
            if x[0] == b and subseq(x[1], ta) and x[2] == args:
                hit = x
                break
        if hit:
            left.remove(hit)
        R.obligation(hit is not None, E.name, w, 'runs %s<%s>(%s); its name promises %s' % (
            b, ', '.join(ta), ', '.join(args), ' ; '.join('%s<%s>(%s)' % (x[0], ', '.join(x[1]), ', '.join(x[2])) for x in sp['impl']) or 'no implementation call'))
    for x in left:
        R.obligation(False, E.name, fl, 'never runs %s<%s>(%s)' % (x[0], ', '.join(x[1]), ', '.join(x[2])))
    for t in sp['checks']:
        R.obligation(any(t == y[0] for y in E.checks), E.name, fl, 'does not validate with %s' % t)
    cs = stores(E)
    for pl, v in sp.get('stores', []):
        R.obligation([pl, v] in cs, E.name, fl, '%s is not set to %s (set to %s)' % (pl, v, ', '.join(y for x, y in cs if x == pl) or 'nothing'))


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def stores(E):
    """header fields and blocks the entry itself writes, locals resolved"""
    loc = {}
    for pl, v, r in E.stores:
        loc.setdefault(pl, set()).add(v)
    out = []
    for pl, v, r in E.stores:
        n = 0
        while v in loc and len(loc[v]) == 1 and n < 8:
            v = next(iter(loc[v]))
            n += 1
        v = re.sub(r'[A-Za-z_]\w*(?:\.\w+)+', lambda mm: next(iter(loc[mm.group(0)])) if len(loc.get(mm.group(0), ())) == 1 else mm.group(0), v)
        if [pl, v] not in out:
            out.append([pl, v])
    return sorted(out)


def freeze():
    spec = {}
    names = api_names()
    es = load('up', set(names), r'mli::')
    for n, E in sorted(es.items()):
        spec[n] = {'checks': [t for t, _, _ in sorted(E.checks, key=lambda x: x[2]['id'])], 'impl': [[b, ta, args] for b, ta, args, r, i in E.impl]}
        rep = {str(t) for r, v, i in E.c.rets if v is not None for _, t in E.c.ascases(v)}
        spec[n]['reports'] = sorted({b for b, ta, args, r, i in E.impl if callterm(E, i) & rep})
        for b, ta, args, r, i in E.impl:
            if i['ty'] == 'i32' and b not in spec[n]['reports']:
                print('unreported', n, b)
        if n.startswith('mli_krn_'):
            spec[n]['stores'] = [x for x in stores(E) if re.match(r'(out|lut)\b', x[0])]
    spec['mli_hlp_count_elem_num']['fail'] = '0'
    for n in ('mli_hlp_point_to_subtensor', 'mli_hlp_create_subtensor'):
        spec[n]['status'] = ['6']     # element type without elements: MLI_STATUS_NOT_SUPPORTED
    spec['mli_mov_prepare']['primary'] = spec['mli_mov_prepare']['checks'][:1]
    return spec
