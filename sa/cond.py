"""Condition data-flow over normalised LLVM IR.

For every program point the analysis computes, as a boolean function over canonical
atoms (comparisons between access paths, constants and opaque call results), the
condition under which the point is reached, and for every value the guarded set of
canonical terms it may denote.  Joins are exact disjunctions of the incoming
conditions (no path enumeration); loops are summarised once, with loop-invariant
constant hypotheses, monotone flags and universally quantified atoms for per-iteration
conditions.  Nothing is executed and no solver is called.
"""
import json, hashlib, os, re
from bdd import BDD


class Mod:
    def __init__(self, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        self.types = d['types']
        self.fns = {}
        for f in d['functions']:
            self.fns[f['name']] = f
        self.globals = {g['name']: g for g in d.get('globals', [])}
        self.canon()

    NAMES = None

    def canon(self):
        """members and parameters keep the names they have in the tables: a renaming in the source is not a change"""
        if Mod.NAMES is None:
            p = os.path.dirname(os.path.abspath(__file__)) + '/spec/names.json'
            Mod.NAMES = json.load(open(p)) if os.path.exists(p) else {'fields': {}, 'params': {}}
        for t in self.types:
            if t['kind'] not in ('struct', 'union') or not t.get('mem') or not t.get('name'):
                continue
            cur = [m[0] for m in t['mem']]
            ws = [w for w in Mod.NAMES['fields'].get(t['name'].split('<')[0], ()) if len(w) == len(cur)]
            if not ws or any(sorted(w) == sorted(cur) for w in ws):
                continue
            w = max(ws, key=lambda w: sum(a == b for a, b in zip(w, cur)))
            for n, m in zip(w, t['mem']):
                if n not in cur and m[0] not in w:
                    m[0] = n
        for f in self.fns.values():
            w = Mod.NAMES['params'].get(f['name'])
            if w and f.get('args') and len(w) == len(f['args']):
                for n, a in zip(w, f['args']):
                    if n is not None and a.get('n') is not None:
                        a['n'] = n

    def strip(self, t):
        while t is not None and t >= 0 and self.types[t]['kind'] in ('typedef', 'const', 'other'):
            t = self.types[t]['base']
        return t if t is not None else -1

    def T(self, t):
        t = self.strip(t)
        return self.types[t] if t >= 0 else None

    def pointee(self, t):
        x = self.T(t)
        if x and x['kind'] in ('ptr', 'ref'):
            return self.strip(x['base'])
        return -1

    def tname(self, t):
        t = self.strip(t)
        return self.types[t]['name'] if t >= 0 else '?'

    def walk(self, t, off, idx, size=None, ty=None):
        """render (suffix, type, rest) of byte offset `off` plus variable parts idx=[(scale,str)] inside type t"""
        t = self.strip(t)
        if t < 0:
            return None if idx else ('', t, off)
        x = self.types[t]
        if x['kind'] == 'union':
            cands = []
            scal = all((self.T(m[3]) or {}).get('kind') not in ('struct', 'union', 'array') for m in x['mem'])
            if scal:
                if idx:
                    return None
                return ('.' + ('p' if ty == 'ptr' else ty) if size is not None and ty else '', t, off)
            for m in x['mem']:
                if m[1] <= off < m[1] + max(m[2], 1):
                    w = self.walk(m[3], off - m[1], idx, size, ty)
                    if w is None:
                        continue
                    sc = 0
                    T = self.types[w[1]] if w[1] >= 0 else None
                    if w[2] == 0 and T is not None:
                        if size is None:
                            sc = 0
                        elif T['size'] == size:
                            sc = 2 + ((T['kind'] in ('ptr', 'ref')) == (ty == 'ptr'))
                            if T['kind'] == 'union':
                                sc = 3
                    cands.append((sc, '.' + m[0] + w[0], w[1], w[2]))
            if not cands:
                return None
            if size is None and len(cands) > 1:
                return None if idx else ('', t, off)
            best = max(cands, key=lambda c: c[0])
            return best[1:]
        if x['kind'] == 'struct':
            best = None
            for m in x['mem']:
                if m[1] <= off < m[1] + max(m[2], 1):
                    best = m
            if best is None:
                return None
            if size is not None and not idx and off == 0 and x['size'] == size and len(x['mem']) > 1:
                return '', t, off
            if size is None and not idx and off == 0:
                return '', t, off
            w = self.walk(best[3], off - best[1], idx, size, ty)
            if w is None:
                return None
            return ('' if best[0] == '<base>' else '.' + best[0]) + w[0], w[1], w[2]
        if x['kind'] == 'array':
            et = self.strip(x['base'])
            if size is None and not idx and off == 0:
                return '', t, off
            esz = self.types[et]['size']
            dims = x['dims']
            idx = list(idx)
            suf = ''
            if esz <= 0:
                return None
            for di in range(len(dims)):
                sz = esz
                for d in dims[di + 1:]:
                    sz *= max(d, 1)
                mine = [(s, v) for s, v in idx if s % sz == 0]
                idx = [(s, v) for s, v in idx if s % sz != 0]
                c = off // sz
                off -= c * sz
                parts = [v if s == sz else '%d*%s' % (s // sz, v) for s, v in mine]
                if c or not parts:
                    parts.append(str(c))
                suf += '[' + '+'.join(sorted(parts)) + ']'
            w = self.walk(et, off, idx, size, ty)
            if w is None:
                return None
            return suf + w[0], w[1], w[2]
        if idx:
            return None
        return '', t, off


class Term:
    __slots__ = ('s', 'c', 'base', 'bt', 'off', 'idx', 'dt', 'lin', 'uns', 'w', 'elt')

    def __init__(self, s, c=None, dt=-1):
        self.s = s
        self.c = c
        self.base = None   # pointer: base string
        self.bt = -1       # pointee type of the base
        self.off = 0
        self.idx = ()
        self.dt = dt
        self.lin = None
        self.uns = False
        self.w = 0
        self.elt = None

    def __repr__(self):
        return self.s


def const(c, w=32):
    t = Term(str(c), c)
    t.lin = (c, ())
    t.w = w
    return t


NULL = Term('null', 0)
NULL.lin = (0, ())

INTRINSIC_IGN = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')


def hsh(s):
    return hashlib.sha1(s.encode()).hexdigest()[:8]


class Cond:
    def __init__(self, mod, fn, pure=None, argnames=None, opaque_calls=None, maxcases=24):
        self.prods = {}
        self.tripterms = {}
        self.m = mod
        self.f = mod.fns[fn] if isinstance(fn, str) else fn
        self.b = BDD()
        self.atoms = {}    # name -> ('cmp',D,c,kind) etc.
        self.maxcases = maxcases
        self.env = {}
        self.events = {}
        self.rets = []
        self.Rabs = {}
        self.prefix = [1]
        self.problems = []
        self.ndepth = 0
        self.blocks = self.f['blocks']
        self.inst = {}
        self.blk = {}
        for bi, b in enumerate(self.blocks):
            for i in b:
                self.inst[i['id']] = i
                self.blk[i['id']] = bi
        self._cfg()
        self._loops()
        self._args(argnames)
        self.places = {}
        self.lemmas = []
        self.upward = {}        # header test -> the counter, where it counts 0, 1, 2, ...
        self.ovr = []
        self.cblk = 0
        self.nskol = {}
        self.run()

    # ---------- CFG
    def succs(self, b):
        t = self.blocks[b][-1]
        if t['op'] == 'br':
            return list(t['succ'])
        if t['op'] == 'switch':
            return [t['def']] + [c[1] for c in t['cases']]
        if t['op'] == 'invoke':
            return list(t['succ'])
        return []

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [sorted(set(self.succs(i)), key=self.succs(i).index) for i in range(n)]
        self.pred = [[] for _ in range(n)]
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                st.pop()
                order.append(u)
        self.rpo = order[::-1]
        self.reach = seen
        for u in seen:
            for v in self.succ[u]:
                self.pred[v].append(u)
        idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dom(self, a, b):
        while b != a and b != 0:
            b = self.idom[b]
        return a == b

    def _loops(self):
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dom(v, u):
                    body = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += self.pred[x]

    def _args(self, argnames):
        self.args = []
        sig = self.f.get('sig')
        for i, a in enumerate(self.f['args']):
            n = a.get('n') or 'arg%d' % i
            if argnames:
                n = argnames[i]
            t = Term(n, None, a.get('t', -1))
            if a['ty'] == 'ptr':
                t.base = n
                t.bt = self.m.pointee(a.get('t', -1))
                if a.get('byval') or (t.bt < 0 and self.m.T(a.get('t', -1)) and self.m.T(a.get('t', -1))['kind'] in ('struct', 'union')):
                    t.bt = self.m.strip(a['t'])
            else:
                t.lin = (0, ((n, 1),))
            tt = self.m.T(a.get('t', -1))
            if tt and tt.get('kind') == 'basic':
                t.uns = tt.get('enc') in (7, 8, 2)
            self.args.append(t)
        self.argnames = [a.s for a in self.args]

    # ---------- atoms
    def atom(self, name, info=None):
        self.atoms.setdefault(name, info)
        return self.b.var(name)

    def lin_of(self, t):
        if t.lin is not None:
            return t.lin
        return (0, ((t.s, 1),))

    def lin_str(self, l):
        c, vs = l
        parts = []
        for n, k in vs:
            parts.append(n if k == 1 else '%d*%s' % (k, n))
        if c or not parts:
            parts.append(str(c))
        return ' + '.join(parts) if len(parts) == 1 else '(' + ' + '.join(parts) + ')'

    def lin_add(self, a, b, kb=1):
        d = dict(a[1])
        for n, k in b[1]:
            d[n] = d.get(n, 0) + k * kb
        return (a[0] + kb * b[0], tuple(sorted((n, k) for n, k in d.items() if k)))

    def enumname(self, t, c):
        x = self.m.T(t.dt) if t.dt >= 0 else None
        if x and x['kind'] == 'enum':
            for n, v in x['vals']:
                if v == c:
                    return n
        return None

    def prodterm(self, fs, t, w):
        n = fs[0] if len(fs) == 1 else '(%s)' % ' * '.join(sorted(fs))
        if len(fs) > 1:
            self.prods[n] = tuple(sorted(fs))
        x = Term(n)
        x.w = w
        return self.binop('mul', x, t, w)

    def headercmp(self, k, pred, a, b, w):
        return self.cmp(pred, a, b, w)

    def cmp(self, pred, a, b, w=32):
        """bdd for icmp pred a,b on terms"""
        if a.c is not None and b.c is not None and a is not NULL and b is not NULL or (a is NULL and b is NULL):
            x, y = a.c, b.c
            m = (1 << w) - 1
            u, v = x & m, y & m
            return int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': u < v, 'ule': u <= v, 'ugt': u > v, 'uge': u >= v}[pred])
        if pred == 'ne':
            return self.b.NOT(self.cmp('eq', a, b, w))
        if pred in ('sgt', 'ugt'):
            return self.cmp(pred[0] + 'lt', b, a, w)
        if pred in ('sge', 'uge'):
            return self.b.NOT(self.cmp(pred[0] + 'lt', a, b, w))
        if pred in ('sle', 'ule'):
            return self.b.NOT(self.cmp(pred[0] + 'lt', b, a, w))
        if pred == 'eq':
            if a.base is not None or b.base is not None or a is NULL or b is NULL:
                x, y = (a, b) if (b is NULL or (a is not NULL and a.s <= b.s)) else (b, a)
                if x.s == y.s:
                    return 1
                if y is NULL and x.s.startswith('&'):
                    return 0
                return self.atom('%s == %s' % (x.s, y.s), ('eq', x.s, 0 if y is NULL else None))
            la, lb = self.lin_of(a), self.lin_of(b)
            d = self.lin_add(la, lb, -1)
            if not d[1]:
                return int(d[0] == 0)
            if d[1][0][1] < 0:
                d = (-d[0], tuple((n, -k) for n, k in d[1]))
            c = -d[0]
            if len(d[1]) == 1 and d[1][0][1] == 1:
                D = d[1][0][0]
                en = self.enumname(a, c) or self.enumname(b, c)
                return self.atom('%s == %s' % (D, en or c), ('eq', D, c))
            # print as lhs == rhs
            L = [(n, k) for n, k in d[1] if k > 0]
            Rr = [(n, -k) for n, k in d[1] if k < 0]
            D = self.lin_str((0, d[1]))
            nm = '%s == %s' % (self.lin_str((0, tuple(L))), self.lin_str((c, tuple(Rr))))
            return self.atom(nm, ('eq', D, c))
        sgn = pred[0]
        if sgn == 'u' and ((a.uns and a.w and a.w < w) or (a.c is not None and a.c >= 0)) and ((b.uns and b.w and b.w < w) or (b.c is not None and b.c >= 0)):
            sgn = 's'
        la, lb = self.lin_of(a), self.lin_of(b)
        if sgn == 's':
            d = self.lin_add(la, lb, -1)
            if not d[1]:
                return int(d[0] < 0)
            c = -d[0]
            neg = False
            if d[1][0][1] < 0:
                d = (-d[0], tuple((n, -k) for n, k in d[1]))
                c, neg = -c + 1, True
            L = [(n, k) for n, k in d[1] if k > 0]
            Rr = [(n, -k) for n, k in d[1] if k < 0]
            D = self.lin_str((0, d[1]))
            nm = '%s < %s' % (self.lin_str((0, tuple(L))), self.lin_str((c, tuple(Rr))))
            v = self.atom(nm, ('slt', D, c))
            return self.b.NOT(v) if neg else v
        # unsigned
        if b.c is not None:
            cc = b.c & ((1 << w) - 1)
            if cc == 0:
                return 0
            if cc == 1:
                return self.cmp('eq', a, const(0, w), w)
            if cc == 1 << (w - 1):
                return self.b.NOT(self.cmp('slt', a, const(0, w), w))
            return self.atom('%s u< %d' % (self.lin_str(la), cc), ('ult', self.lin_str(la), cc))
        if a.c is not None:
            cc = a.c & ((1 << w) - 1)
            if cc == 0:
                return self.b.NOT(self.cmp('eq', b, const(0, w), w))
            if cc == (1 << w) - 1:
                return 0
            if cc + 1 == 1 << (w - 1):
                return self.cmp('slt', b, const(0, w), w)
            return self.b.NOT(self.atom('%s u< %d' % (self.lin_str(lb), cc + 1), ('ult', self.lin_str(lb), cc + 1)))
        if la == lb:
            return 0
        return self.atom('%s u< %s' % (self.lin_str(la), self.lin_str(lb)), ('ult2', self.lin_str(la), self.lin_str(lb)))

    # ---------- values
    # value := ('b', bdd)  |  list of (bdd, Term)
    def val(self, o):
        k = o[0]
        if k == 'i':
            for blks, d in reversed(self.ovr):
                if self.cblk in blks and o[1] in d:
                    return d[o[1]]
            v = self.env.get(o[1])
            if v is None:
                return [(1, Term('%%u%d' % o[1]))]
            return v
        if k == 'c':
            if o[2] == 1:
                return ('b', 1 if o[1] else 0)
            return [(1, const(o[1], o[2]))]
        if k == 'n':
            return [(1, NULL)]
        if k == 'a':
            return [(1, self.args[o[1]])]
        if k == 'u':
            return [(1, Term('undef'))]
        if k == 'g':
            g = self.m.globals.get(o[1])
            nm = re.sub(r'^_ZL\d+', '', o[1])
            if o[1].startswith('.str') or '__func__' in o[1] or '__FUNCTION__' in o[1] or '__PRETTY' in o[1]:
                nm = 'str'
            t = Term('&' + nm)
            t.base = nm
            t.bt = self.m.strip(g['t']) if g and 't' in g else -1
            t.elt = True
            return [(1, t)]
        if k == 'f':
            return [(1, Term('f' + o[1]))]
        if k == 'xgep':
            return self.gep([o[1], o[2], o[3], o[4]])
        if k == 'x':
            return [(1, Term('cx:' + json.dumps(o)))]
        return [(1, Term('?' + json.dumps(o)))]

    def bval(self, o):
        v = self.val(o)
        return self.asbool(v)

    def asbool(self, v):
        if isinstance(v, tuple):
            return v[1]
        r = 0
        for c, t in v:
            if t.c is not None:
                x = 1 if (t.c & 1) else 0
            else:
                x = self.atom('bool(%s)' % t.s, ('bool',))
            r = self.b.OR(r, self.b.AND(c, x))
        return r

    def ascases(self, v):
        if isinstance(v, tuple):
            out = []
            if v[1] != 0:
                out.append((v[1], const(1)))
            if v[1] != 1:
                out.append((self.b.NOT(v[1]), const(0)))
            return out
        return v

    def merge(self, cases):
        d = {}
        for c, t in cases:
            if c == 0:
                continue
            if t.s in d:
                d[t.s] = (self.b.OR(d[t.s][0], c), d[t.s][1])
            else:
                d[t.s] = (c, t)
        out = list(d.values())
        if len(out) == 1:
            # a value that is the same term in every reached case
            out = [(1, out[0][1])]
        return out

    def opaque_ite(self, cases, tag='ite'):
        if len(cases) == 1:
            return cases[0][1]
        s = ';'.join(sorted('%s?%s' % (self.b.show(c), t.s) for c, t in cases))
        return Term('%s{%s}' % (tag, hsh(s) if len(s) > 200 else s))

    def app(self, fn, *vals):
        out = [(1, ())]
        for v in vals:
            v = self.ascases(v)
            nxt = []
            for c, ts in out:
                for c2, t in v:
                    cc = self.b.AND(c, c2)
                    if cc:
                        nxt.append((cc, ts + (t,)))
            out = nxt
            if len(out) > self.maxcases:
                return [(1, fn(*[self.opaque_ite(self.ascases(x)) for x in vals]))]
        return self.merge([(c, fn(*ts)) for c, ts in out])

    def linterm(self, l, w=32, uns=False):
        if not l[1]:
            return const(l[0], w)
        t = Term(self.lin_str(l))
        t.lin = l
        t.w = w
        t.uns = uns
        return t

    def truncate(self, t, w):
        if t.c is not None:
            c = t.c & ((1 << w) - 1)
            if c >> (w - 1):
                c -= 1 << w
            return const(c, w)
        if t.w and t.w <= w:
            return t
        u = Term('tr%d(%s)' % (w, t.s))
        u.w = w
        return u

    def binop(self, op, a, b, w):
        if a.c is not None and b.c is not None:
            m = (1 << w) - 1
            x, y = a.c, b.c
            r = None
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op == 'shl' and 0 <= y < w: r = x << y
            elif op == 'ashr' and 0 <= y < w: r = x >> y
            elif op == 'lshr' and 0 <= y < w: r = (x & m) >> y
            elif op == 'udiv' and y & m: r = (x & m) // (y & m)
            elif op == 'sdiv' and y: r = int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'urem' and y & m: r = (x & m) % (y & m)
            elif op == 'srem' and y: r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            if r is not None:
                r &= m
                if r >> (w - 1):
                    r -= 1 << w
                return const(r, w)
        if op in ('and', 'or') and (a.c == 0 or b.c == 0):
            if op == 'and':
                return const(0, w)
            return b if a.c == 0 else a
        if op in ('shl', 'lshr', 'ashr') and b.c == 0:
            return a
        if op == 'add':
            return self.linterm(self.lin_add(self.lin_of(a), self.lin_of(b)), w, a.uns and b.uns)
        if op == 'sub':
            return self.linterm(self.lin_add(self.lin_of(a), self.lin_of(b), -1), w)
        if op == 'mul' and (a.c is not None or b.c is not None):
            k, t = (a.c, b) if a.c is not None else (b.c, a)
            l = self.lin_of(t)
            if k == 0:
                return const(0, w)
            return self.linterm((l[0] * k, tuple((n, c * k) for n, c in l[1])), w)
        if op == "shl" and b.c is not None and 0 <= b.c < w:
            l = self.lin_of(a)
            k = 1 << b.c
            return self.linterm((l[0] * k, tuple((n, c * k) for n, c in l[1])), w)
        if op == 'mul':                                 # products are sorted lists of factors with one coefficient
            k, fs = 1, []
            for t in (a, b):
                l = self.lin_of(t)
                n = t.s
                if l[0] == 0 and len(l[1]) == 1:
                    n = l[1][0][0]
                    k *= l[1][0][1]
                fs += self.prods.get(n, (n,))
            fs.sort()
            n = '(%s)' % ' * '.join(fs)
            self.prods[n] = tuple(fs)
            if k != 1:
                return self.linterm((0, ((n, k),)), w)
            t = Term(n)
            t.w = w
            return t
        x, y = a.s, b.s
        if op in ('mul', 'and', 'or', 'xor') and y < x:
            x, y = y, x
        sym = {'mul': '*', 'sdiv': '/s', 'udiv': '/', 'srem': '%s', 'urem': '%', 'ashr': '>>', 'lshr': '>>>', 'shl': '<<', 'and': '&', 'or': '|', 'xor': '^'}.get(op, op)
        t = Term('(%s %s %s)' % (x, sym, y))
        t.w = w
        return t

    def gep(self, g):
        base = self.ascases(self.val(g[0]))
        off = g[1]
        idxs = [(s, self.ascases(self.val(v))) for s, v in g[2]]

        def mk(bt, *its):
            o = off
            idx = []
            for (s, _), it in zip(idxs, its):
                l = self.lin_of(it)
                if l[0] < 0 and l[1]:
                    idx.append((s, self.lin_str(l)))
                    continue
                o += s * l[0]
                for n, k in l[1]:
                    idx.append((s * k, n))
            return self.addr(bt, o, idx)
        return self.app(mk, base, *[c for _, c in idxs])

    def ptr_plus(self, t0, step, l):
        return self.addr(t0, step * l[0], [(step * k, n) for n, k in l[1]])

    def addr(self, bt, off, idx):
        if off == 0 and not idx:
            return bt
        t = Term('')
        if bt.base is None:
            t.base = bt.s
            t.bt = -1
            t.off = off
            t.idx = tuple(sorted(idx))
        else:
            t.base, t.bt = bt.base, bt.bt
            t.elt = bt.elt
            d = {}
            for s, n in tuple(bt.idx) + tuple(idx):
                d[n] = d.get(n, 0) + s
            t.off = bt.off + off
            t.idx = tuple(sorted((s, n) for n, s in d.items() if s))
        t.s = '&' + self.place(t, None)
        if t.off == 0 and not t.idx and not t.elt:
            t.s = t.base
        return t

    def place(self, t, size, ty=None):
        """canonical name of the memory place addressed by pointer term t"""
        base, bt, off, idx = t.base if t.base is not None else t.s, t.bt, t.off, t.idx
        T = self.m.types[bt] if bt >= 0 else None
        self.last_t = -1
        if T and T['size'] > 0:
            sz = T['size']
            outer = [(s, n) for s, n in idx if s % sz == 0]
            rest = [(s, n) for s, n in idx if s % sz != 0]
            c = off // sz if sz else 0
            if T['kind'] in ('struct', 'union') and outer and T['kind'] == 'struct':
                # a stride that is a multiple of the struct size indexes an array of structs,
                # unless an inner array could also produce it; accept the outer view
                pass
            o = off - c * sz
            pre = base
            deref = '->'
            if outer or c or T['kind'] not in ('struct', 'union'):
                parts = [n if s == sz else '%d*%s' % (s // sz, n) for s, n in outer]
                if c or not parts:
                    parts.append(str(c))
                pre = '%s[%s]' % (base, '+'.join(sorted(parts)))
                deref = '.'
            if t.elt and not outer and not c:
                pre, deref = base, '.'
            w = self.m.walk(bt, o, rest, size, ty)
            if w:
                suf, tt, o2 = w
                self.last_t = tt
                TT = self.m.types[tt] if tt >= 0 else None
                if TT and TT['kind'] == 'union':
                    self.last_t = -1
                    if o2:
                        suf += '+%d' % o2
                elif o2 or (TT and size is not None and TT['size'] not in (size, 0)):
                    suf += '+%d:%s' % (o2, size)
                if suf.startswith('.'):
                    suf = deref + suf[1:]
                return pre + suf
        s = base
        for sc, n in idx:
            s += '+%d*%s' % (sc, n)
        if size is not None and ty:
            return '*(%s)(%s%s)' % (ty, s, '+%d' % off if off else '')
        return '%s%s' % (s, '+%d' % off if off else '')

    def do_load(self, i):
        p = self.ascases(self.val(i['ops'][0]))
        R = self.prefix[-1]

        def mk(t):
            return self.load_term(t, i['size'], i['ty'])
        self.events[i['id']] = ('load', self.curR(), p, i)
        r = self.app(mk, p)
        if i['ty'] == 'i1':
            return ('b', self.asbool(r))
        return r

    def load_term(self, t, size, ty):
        nm = self.place(t, size, ty)
        dt = self.last_t
        if '$' in nm:
            self.places.setdefault(nm, (t, size, ty))
        r = Term(nm, None, dt)
        if ty == 'ptr':
            r.base = nm
            r.bt = self.m.pointee(dt) if dt >= 0 else -1
        else:
            r.lin = (0, ((nm, 1),))
            r.w = size * 8
            x = self.m.T(dt) if dt >= 0 else None
            if x and x['kind'] == 'basic':
                r.uns = x.get('enc') in (7, 8, 2)
            elif x and x['kind'] == 'enum':
                r.uns = True
        return r

    def curR(self):
        r = self.Rcur
        for p in self.prefix:
            r = self.b.AND(r, p)
        return r

    # ---------- execution over regions
    def run(self):
        exits, back = self.region(0, set(self.rpo), None, [(-1, 1)])

    def region(self, entry, blocks, header, entry_edges):
        """process the blocks of a region (function or loop body). returns (exit edges, back-edge list)"""
        # innermost-in-this-region loop representative
        rep = {}
        subs = [h for h in self.loops if h in blocks and h != header and (header is None or self.loops[h] < self.loops[header])]
        # keep only outermost among subs
        outer = [h for h in subs if not any(h in self.loops[g] and g != h for g in subs)]
        for h in outer:
            for x in self.loops[h]:
                rep[x] = h
        for x in blocks:
            rep.setdefault(x, x)
        # topo order of reps
        order = []
        seen = set()

        def rs(n):
            out = []
            members = self.loops[n] if (n in outer) else [n]
            for x in members:
                for v in self.succ[x]:
                    if v in blocks and v != header and rep[v] != n and rep[v] not in out:
                        out.append(rep[v])
            return out
        st = [(rep[entry], iter(rs(rep[entry])))]
        seen.add(rep[entry])
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(rs(v))))
                    break
            else:
                st.pop()
                order.append(u)
        order.reverse()
        inc = {rep[entry]: list(entry_edges)}
        if entry in outer:
            pass
        exits, back = [], []

        def emit(u, v, c):
            if c == 0:
                return
            if v == header:
                back.append((u, c))
            elif v not in blocks:
                exits.append((u, v, c))
            else:
                inc.setdefault(v, []).append((u, c))
        for n in order:
            edges = inc.get(n, [])
            if n in outer:
                for (u, v, c) in self.loop(n, edges):
                    emit(u, v, c)
            else:
                for (v, c) in self.block(n, edges, phis=(n != header)):
                    emit(n, v, c)
        return exits, back

    def block(self, b, edges, phis=True):
        R = 0
        for _, c in edges:
            R = self.b.OR(R, c)
        self.Rcur = R
        self.cblk = b
        if R == 0:
            for i in self.blocks[b]:
                self.events.pop(i['id'], None)
            return []
        self.Rabs[b] = self.curR()
        out = []
        newphi = {}
        for i in self.blocks[b]:
            op = i['op']
            if op == 'phi':
                if phis:
                    newphi[i['id']] = self.phi(i, edges)
                continue
            if newphi:
                self.env.update(newphi)
                newphi = {}
            out = self.instr(i, R, out)
        return out

    def phi(self, i, edges):
        if i['ty'] == 'i1':
            r = 0
            for u, c in edges:
                for p, v in i['in']:
                    if p == u:
                        sv, self.cblk = self.cblk, u
                        r = self.b.OR(r, self.b.AND(c, self.bval(v)))
                        self.cblk = sv
                        break
            # value relative to reachability
            R = 0
            for _, c in edges:
                R = self.b.OR(R, c)
            return ('b', self.b.simplify(r, R))
        cases = []
        R = 0
        for u, c in edges:
            R = self.b.OR(R, c)
        for u, c in edges:
            for p, v in i['in']:
                if p == u:
                    sv, self.cblk = self.cblk, u
                    for c2, t in self.ascases(self.val(v)):
                        cases.append((self.b.AND(c, c2), t))
                    self.cblk = sv
                    break
        cases = self.merge(cases)
        if len(cases) > 1:
            cases = [(self.b.simplify(c, R), t) for c, t in cases]
            # restrict may make the guards overlap; re-disjoin
            acc = 0
            out = []
            for c, t in cases[:-1]:
                c2 = self.b.AND(c, self.b.NOT(acc))
                out.append((c2, t))
                acc = self.b.OR(acc, c)
            out.append((self.b.NOT(acc), cases[-1][1]))
            cases = [x for x in out if x[0]]
        if len(cases) > self.maxcases:
            return [(1, self.opaque_ite(cases))]
        return cases

    def instr(self, i, R, out):
        op = i['op']
        w = int(i['ty'][1:]) if re.match(r'i\d+$', i['ty']) else 32
        if op == 'br':
            if not i['ops']:
                return [(i['succ'][0], R)]
            c = self.bval(i['ops'][0])
            if i['succ'][0] == i['succ'][1]:
                return [(i['succ'][0], R)]
            self.events[i['id']] = ('br', self.curR(), c, i)
            return [(i['succ'][0], self.b.AND(R, c)), (i['succ'][1], self.b.AND(R, self.b.NOT(c)))]
        if op == 'switch':
            v = self.ascases(self.val(i['ops'][0]))
            rem = 1
            res = {}
            for cv, tgt in i['cases']:
                c = 0
                for g, t in v:
                    c = self.b.OR(c, self.b.AND(g, self.cmp('eq', t, const(cv))))
                # distinct case values are exclusive: first match wins
                cc = self.b.AND(c, rem)
                res[tgt] = self.b.OR(res.get(tgt, 0), cc)
                rem = self.b.AND(rem, self.b.NOT(c))
            res[i['def']] = self.b.OR(res.get(i['def'], 0), rem)
            self.events[i['id']] = ('switch', self.curR(), v, i)
            return [(t, self.b.AND(R, c)) for t, c in res.items()]
        if op == 'ret':
            v = self.val(i['ops'][0]) if i['ops'] else None
            self.rets.append((self.curR(), v, i))
            return out
        if op == 'unreachable':
            return out
        if op in ('store',):
            self.events[i['id']] = ('store', self.curR(), (self.ascases(self.val(i['ops'][1])), self.val(i['ops'][0])), i)
            return out
        r = None
        if op == 'icmp':
            a, b = self.ascases(self.val(i['ops'][0])), self.ascases(self.val(i['ops'][1]))
            ww = int(i['oty'][1:]) if re.match(r'i\d+$', i['oty']) else 64
            acc = 0
            for c1, t1 in a:
                for c2, t2 in b:
                    cc = self.b.AND(c1, c2)
                    if cc:
                        acc = self.b.OR(acc, self.b.AND(cc, self.headercmp(self.upward.get(i['id']), i['pred'], t1, t2, ww)))
            r = ('b', acc)
        elif op == 'fcmp':
            a, b = self.ascases(self.val(i['ops'][0])), self.ascases(self.val(i['ops'][1]))
            r = ('b', self.atom('fcmp %s %s %s' % (i['pred'], self.opaque_ite(a).s, self.opaque_ite(b).s)))
        elif op in ('and', 'or', 'xor') and i['ty'] == 'i1':
            a, b = self.bval(i['ops'][0]), self.bval(i['ops'][1])
            r = ('b', {'and': self.b.AND, 'or': self.b.OR, 'xor': self.b.XOR}[op](a, b))
        elif op == 'select':
            c = self.bval(i['ops'][0])
            a, b = self.val(i['ops'][1]), self.val(i['ops'][2])
            if i['ty'] == 'i1':
                r = ('b', self.b.ite(c, self.asbool(a), self.asbool(b)))
            else:
                r = self.merge([(self.b.AND(c, g), t) for g, t in self.ascases(a)] + [(self.b.AND(self.b.NOT(c), g), t) for g, t in self.ascases(b)])
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            r = self.app(lambda a, b: self.binop(op, a, b, w), self.val(i['ops'][0]), self.val(i['ops'][1]))
            if op in ('sdiv', 'udiv', 'srem', 'urem'):
                self.events[i['id']] = ('div', self.curR(), self.ascases(self.val(i['ops'][1])), i)
        elif op in ('zext', 'sext'):
            v = self.val(i['ops'][0])
            if isinstance(v, tuple):
                one = 1 if op == 'zext' else -1
                r = self.merge([(v[1], const(one, w)), (self.b.NOT(v[1]), const(0, w))])
            else:
                sw = int(i['oty'][1:])

                def ext(t):
                    if t.c is None and sw == 32 and w == 64:
                        return t
                    if t.c is not None:
                        c = t.c
                        if op == 'zext':
                            c &= (1 << sw) - 1
                        return const(c, w)
                    if op == 'zext':
                        if t.uns:
                            return t
                        u = Term('zx(%s)' % t.s, None, t.dt)
                        u.w = sw
                        u.uns = True
                        return u
                    if t.uns and t.w == sw:
                        u = Term('sx(%s)' % t.s, None, t.dt)
                        u.w = sw
                        return u
                    return t
                r = self.app(ext, v)
        elif op == 'trunc':
            v = self.val(i['ops'][0])
            if i['ty'] == 'i1':
                r = ('b', self.asbool(v))
            else:
                r = self.app(lambda t: self.truncate(t, w), v)
        elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            r = self.val(i['ops'][0])
            if op == 'ptrtoint':
                r = self.app(lambda t: Term('p2i(%s)' % t.s), r)
        elif op == 'getelementptr':
            r = self.gep(i['gep'])
        elif op == 'load':
            r = self.do_load(i)
        elif op == 'alloca':
            t = Term('&%s' % (i.get('n') or 'tmp%d' % i['id']))
            t.base = i.get('n') or 'tmp%d' % i['id']
            t.bt = self.m.strip(i.get('t', -1))
            t.elt = True
            r = [(1, t)]
        elif op in ('call', 'invoke'):
            r = self.call(i, R)
            if op == 'invoke':
                out = [(i['succ'][0], R)]
        elif op == 'extractvalue':
            r = self.app(lambda t: Term('%s#%s' % (t.s, '.'.join(map(str, i['idx'])))), self.val(i['ops'][0]))
        else:
            ops = [self.opaque_ite(self.ascases(self.val(o))).s for o in i.get('ops', [])]
            t = Term('%s(%s)' % (op, ','.join(ops)))
            r = [(1, t)] if i['ty'] != 'i1' else ('b', self.atom(t.s))
        if r is not None and i['ty'] != 'void':
            self.env[i['id']] = r
        return out

    def callee_name(self, i):
        if i.get('callee') is None:
            return None
        d = i.get('cdem') or i['callee']
        return re.sub(r'\(.*', '', d) if not d.startswith('llvm.') else d

    def call(self, i, R):
        name = self.callee_name(i)
        args = [self.val(o) for o in i['ops']]
        self.events[i['id']] = ('call', self.curR(), (name, [self.ascases(a) for a in args]), i)
        if name is None:
            name = 'indirect'
        if i['ty'] == 'void':
            return None
        if name.startswith('llvm.smax') or name.startswith('llvm.smin') or name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.abs'):
            name = name[5:].split('.')[0]

        def mk(*ts):
            t = Term('%s(%s)' % (name, ', '.join(x.s for x in ts)))
            # DI return type
            f = self.m.fns.get(i.get('callee'))
            t.w = 0
            if i['ty'] == 'ptr':
                t.base = t.s
                if f and f.get('sig'):
                    t.bt = self.m.pointee(f['sig'][0])
            else:
                t.lin = (0, ((t.s, 1),))
                if f and f.get('sig'):
                    t.dt = f['sig'][0]
            return t
        r = self.app(mk, *args) if args else [(1, mk())]
        if i['ty'] == 'i1':
            return ('b', self.asbool(r))
        return r

    # ---------- loops
    def shash(self, o, depth, self_id, loopset):
        if o[0] != 'i':
            if o[0] == 'a':
                return 'a%d' % o[1]
            return json.dumps(o)
        if o[1] == self_id:
            return 'self'
        i = self.inst[o[1]]
        if i['op'] == 'phi':
            return 'phi'
        if depth == 0:
            return i['op']
        if i['op'] == 'getelementptr':
            g = i['gep']
            return 'gep(%s,%s,%s)' % (self.shash(g[0], depth - 1, self_id, loopset), g[1], [(s, self.shash(v, depth - 1, self_id, loopset)) for s, v in g[2]])
        ops = [self.shash(x, depth - 1, self_id, loopset) for x in i.get('ops', [])]
        if i['op'] in ('add', 'mul', 'and', 'or', 'xor'):
            ops.sort()
        return '%s%s%s(%s)' % (i['op'], i.get('pred', ''), i.get('callee') or '', ','.join(ops))

    tripform = False    # counters are start + step * (completed iterations), ranges are exact
    trips = None
    symstep = False     # variables that grow by the same symbolic amount in every iteration

    def stepped(self, name, init, nxt, iters, depth):
        if nxt is None or isinstance(nxt, tuple) or isinstance(init, tuple) or iters[0] or len(iters[1]) != 1 or iters[1][0][1] != 1:
            return None
        cs, i0 = self.ascases(nxt), self.ascases(init)
        if len(cs) != 1 or len(i0) != 1:
            return None
        t, k = cs[0][1], iters[1][0][0]
        ptr = t.base is not None
        if ptr:
            if t.base != name:
                return None
            step = (t.off, tuple((n, s) for s, n in t.idx))
        else:
            l = self.lin_of(t)
            if dict(l[1]).get(name) != 1:
                return None
            step = (l[0], tuple((n, c) for n, c in l[1] if n != name))
        if any('$' in n for n, c in step[1]) or not step[1] and not step[0]:
            return None

        def prod(n):
            fs = tuple(sorted(self.prods.get(n, (n,)) + (k,)))
            r = '(%s)' % ' * '.join(fs)
            self.prods[r] = fs
            return r
        grown = ([(step[0], k)] if step[0] else []) + [(c, prod(n)) for n, c in step[1]]
        if ptr:
            return [(1, self.addr(i0[0][1], 0, grown))] if i0[0][1].base is not None else None
        return [(1, self.linterm(self.lin_add(self.lin_of(i0[0][1]), (0, tuple((n, c) for c, n in grown))), t.w))]

    ptrform = False     # pointers moved by a counted loop have a closed form behind it

    def ptr_after(self, t, t0, k, NT):
        """the address t, which depends on the counter k only by products, for k = NT"""
        old = {n: s for s, n in t0.idx}
        grown = []
        for s, n in t.idx:
            s -= old.get(n, 0)
            if not s:
                continue
            f = list((k,) if n == k else self.prods.get(n) or ())
            if k not in f:
                return None
            f.remove(k)
            if k in f:
                return None
            l = self.lin_of(NT if not f else self.prodterm(f, NT, 32))
            grown += [(s * c, m) for m, c in l[1]]
            if l[0]:
                grown.append((s * l[0], '1'))
        off = t.off - t0.off + sum(s for s, n in grown if n == '1')
        return self.addr(t0, off, [(s, n) for s, n in grown if n != '1'])

    def loop(self, h, entries):
        body = self.loops[h]
        R0 = 0
        for _, c in entries:
            R0 = self.b.OR(R0, c)
        depth = self.ndepth
        phis = [i for i in self.blocks[h] if i['op'] == 'phi']
        latches = [u for u in self.pred[h] if u in body]
        init = {p['id']: self.phi({'ty': p['ty'], 'in': p['in']}, entries) for p in phis}
        ind = {}
        for p in phis:
            nx = [v for u, v in p['in'] if u in latches]
            steps = set()
            for v in nx:
                st = None
                tot = 0
                while v[0] == 'i':
                    q = self.inst[v[1]]
                    if q['op'] in ('trunc', 'zext', 'sext') and p['ty'] in ('i32', 'i64') and q['ty'] >= p['ty'] and q['ty'] in ('i32', 'i64'):
                        v = q['ops'][0]         # computed in a wider type and cut again: the same modulo the width of the counter
                        if v == ['i', p['id']]:
                            st = tot
                            break
                        continue
                    if q['op'] not in ('add', 'sub') or q['ops'][1][0] != 'c':
                        break
                    tot += q['ops'][1][1] * (1 if q['op'] == 'add' else -1)
                    v = q['ops'][0]
                    if v == ['i', p['id']]:
                        st = tot
                        break
                steps.add(st)
            if len(steps) == 1 and None not in steps and 0 not in steps:
                ind[p['id']] = steps.pop()
        # boolean-typed phis held in i8
        isbool = set()
        for p in phis:
            if p['ty'] == 'i1':
                isbool.add(p['id'])
            elif p['ty'] in ('i8', 'i32') and p['id'] not in ind:
                ok = True
                for u, v in p['in']:
                    cs = init[p['id']] if u not in latches else None
                    if cs is not None:
                        ok &= all(t.c in (0, 1) for _, t in self.ascases(cs))
                    elif not self.looks_bool(v, set()):
                        ok = False
                if ok:
                    isbool.add(p['id'])
        # counter used for the exit test, for naming
        exit_ind = self.exit_counter(h, body, ind)
        names = {}
        for p in phis:
            if p['id'] in ind:
                if p['id'] == exit_ind or (exit_ind is None and len(ind) == 1):
                    names[p['id']] = '$k%d' % depth
                else:
                    names[p['id']] = '$j%d_%s%+d' % (depth, self.opaque_ite(self.ascases(init[p['id']])).s, ind[p['id']])
            else:
                names[p['id']] = '$v%d_%s' % (depth, hsh(';'.join(sorted(self.shash(v, 6, p['id'], body) for u, v in p['in'] if u in latches))))
        # the counter is measured from the constant end of its range, so that shifted loops read alike
        shift = 0
        shifted = False
        if exit_ind is not None and ind[exit_ind] == 1:
            cs = self.ascases(init[exit_ind])
            if len(cs) == 1 and cs[0][1].c is not None:
                shift = cs[0][1].c
        # a pure trip counter running down: count the completed iterations instead
        flip = False
        if exit_ind is not None and ind[exit_ind] == -1 and self.only_counts(exit_ind, h, body):
            i0 = self.opaque_ite(self.ascases(init[exit_ind]))
            flip = i0.base is None and i0.c is None
        if self.tripform and exit_ind is not None and ind[exit_ind] > 0:
            cs = self.ascases(init[exit_ind])
            if len(cs) == 1 and cs[0][1].base is None:
                flip, shift = True, 0
        self.trips = None
        if exit_ind is not None:
            cs = self.ascases(init[exit_ind])
            t = self.blocks[h][-1]
            if (flip or ind[exit_ind] == 1 and len(cs) == 1 and cs[0][1].c is not None) and t['op'] == 'br' and t['ops'] and t['ops'][0][0] == 'i':
                self.upward[t['ops'][0][1]] = '$k%d' % depth
        pind = {}
        if exit_ind is not None and (flip or ind[exit_ind] in (1, -1)):
            for p in phis:
                if p['ty'] != 'ptr' or len(self.ascases(init[p['id']])) != 1:
                    continue
                st = set()
                for u, v in p['in']:
                    if u in latches:
                        q = self.inst[v[1]] if v[0] == 'i' else None
                        st.add(q['gep'][1] if q and q['op'] == 'getelementptr' and q['gep'][0] == ['i', p['id']] and not q['gep'][2] else None)
                if len(st) == 1 and None not in st and 0 not in st:
                    pind[p['id']] = st.pop()
        hyp = {}
        for p in phis:
            if p['id'] in ind or p['id'] in pind:
                continue
            cs = self.ascases(init[p['id']])
            if len(cs) == 1 and cs[0][1].c is not None:
                hyp[p['id']] = cs[0][1]
        resolved = {}
        tried = False
        while True:
            iters = None      # number of completed iterations, as a linear expression
            if exit_ind is not None and (flip or ind[exit_ind] in (1, -1)):
                kl = (shift, ((names[exit_ind], 1),))
                i0 = self.opaque_ite(self.ascases(init[exit_ind]))
                if flip:
                    iters = (0, ((names[exit_ind], 1),))
                elif i0.base is None:
                    iters = self.lin_add(kl, self.lin_of(i0), -1)
                    if ind[exit_ind] < 0:
                        iters = (-iters[0], tuple((n, -k) for n, k in iters[1]))
            for p in phis:
                pid = p['id']
                if iters is not None and pid in ind and pid != exit_ind and p['ty'] != 'ptr':
                    j0 = self.opaque_ite(self.ascases(init[pid]))
                    if j0.base is None:
                        self.env[pid] = [(1, self.linterm(self.lin_add(self.lin_of(j0), iters, ind[pid]), int(p['ty'][1:])))]
                        continue
                if iters is not None and pid in pind:
                    t0 = self.ascases(init[pid])[0][1]
                    if t0.base is not None:
                        self.env[pid] = [(1, self.ptr_plus(t0, pind[pid], iters))]
                        continue
                if pid in resolved:
                    self.env[pid] = resolved[pid]
                elif pid in hyp:
                    v = [(1, hyp[pid])]
                    self.env[pid] = ('b', 1 if hyp[pid].c & 1 else 0) if p['ty'] == 'i1' else v
                elif pid in isbool:
                    vv = self.atom(names[pid], ('flag',))
                    self.env[pid] = ('b', vv) if p['ty'] == 'i1' else [(vv, const(1)), (self.b.NOT(vv), const(0))]
                else:
                    t = Term(names[pid])
                    t.w = int(p['ty'][1:]) if p['ty'].startswith('i') else 64
                    if pid == exit_ind and flip:
                        t = self.linterm(self.lin_add(self.lin_of(self.opaque_ite(self.ascases(init[pid]))), (0, ((names[pid], 1),)), ind[pid]), t.w)
                    elif pid == exit_ind and shift:
                        t = self.linterm((shift, ((names[pid], 1),)), t.w)
                    elif p['ty'] == 'ptr':
                        t.base = names[pid]
                        cs = self.ascases(init[pid])
                        t.bt = cs[0][1].bt if cs and cs[0][1].base is not None else -1
                        T = self.m.types[t.bt] if t.bt >= 0 else None
                    else:
                        t.lin = (0, ((names[pid], 1),))
                        if pid in ind:
                            t.uns = False
                    self.env[pid] = [(1, t)]
            self.prefix.append(R0)
            self.ndepth += 1
            nr = len(self.rets)
            exits, back = self.region(h, body, h, [(-2, 1)])
            self.prefix.pop()
            self.ndepth -= 1
            bad = []
            nextv = {}
            for p in phis:
                nx = self.phi({'ty': p['ty'], 'in': p['in']}, back) if back else None
                nextv[p['id']] = nx
                if p['id'] in hyp and nx is not None:
                    cs = self.ascases(nx)
                    B = 0
                    for _, c in back:
                        B = self.b.OR(B, c)
                    for c, t in cs:
                        if self.b.AND(c, B) and t.s != hyp[p['id']].s:
                            bad.append(p['id'])
                            break
            if not bad and exit_ind is not None and ind[exit_ind] == -1 and not shifted and not flip:
                shifted = True
                st = 1
                for u, v, c in exits:
                    if u == h:
                        st = self.b.AND(st, self.b.NOT(c))
                lo = None
                for a in self.b.support(st):
                    mm = re.match(r'^%s (<|==) (-?\d+)$' % re.escape(names[exit_ind]), a)
                    if mm and self.b.AND(st, self.b.var(a)) == 0:
                        lo = int(mm.group(2)) + (mm.group(1) == '==')
                if lo:
                    shift = lo
                    del self.rets[nr:]
                    continue
            if not bad:
                if tried or exit_ind is None:
                    break
                tried = True
                for p in phis:
                    pid = p['id']
                    if pid in ind or pid in hyp or pid in isbool or len(latches) != 1:
                        continue
                    nx = [v for u, v in p['in'] if u in latches][0]
                    r = self.previous(nx, h, body, ind, exit_ind)
                    if r is None:
                        r = self.stepped(names[pid], init[pid], nextv[pid], iters, depth) if self.symstep and iters else None
                        if r is not None:
                            resolved[pid] = r
                        continue
                    k = self.env[exit_ind][0][1]
                    first = 0
                    for g, t in self.ascases(init[exit_ind]):
                        first = self.b.OR(first, self.b.AND(g, self.cmp('eq', k, t)))
                    iv = self.ascases(init[pid])
                    resolved[pid] = self.merge([(self.b.AND(first, g), t) for g, t in iv] + [(self.b.AND(self.b.NOT(first), g), t) for g, t in self.ascases(r)])
                if not resolved:
                    break
                del self.rets[nr:]
                continue
            del self.rets[nr:]
            for x in bad:
                del hyp[x]
        B = 0
        for _, c in back:
            B = self.b.OR(B, c)
        # header test
        hexit = [(u, v, c) for (u, v, c) in exits if u == h]
        early = [(u, v, c) for (u, v, c) in exits if u != h]
        stayc = 1
        for u, v, c in hexit:
            stayc = self.b.AND(stayc, self.b.NOT(c))
        # flags that stop the loop as soon as they are raised: inside an iteration they are still down
        downs = []
        for p in phis:
            if p['id'] in isbool and p['id'] not in hyp and names[p['id']] in self.b.support(stayc):
                iv = self.asbool(init[p['id']])
                for val in (False, True):
                    if self.b.restrict_var(stayc, names[p['id']], not val) == 0:
                        downs.append((names[p['id']], val))
        for n, val in downs:
            stayc = self.b.restrict_var(stayc, n, val)
            B = self.b.restrict_var(B, n, val)
        self.kshift, self.kflip = shift, flip
        ranges = self.ranges(h, exit_ind, init, ind, stayc, depth)
        rng, updown = ranges[0][1], ranges[0][2]
        if len(ranges) > 1:
            rng = ' | '.join('%s ? %s' % (self.b.show(g), r) for g, r, _ in ranges)

        def FA(g, care):
            for n, val in downs:
                g = self.b.restrict_var(g, n, val)
                care = self.b.restrict_var(care, n, val)
            if self.b.OR(g, self.b.NOT(care)) == 1:
                return 1
            r = 1
            for gd, rg, ud in ranges:
                r = self.b.AND(r, self.b.OR(self.b.NOT(gd), FA1(g, self.b.AND(gd, care), rg, ud)))
            return r

        def FA1(g, care, rng, updown):
            if self.b.OR(g, self.b.NOT(care)) == 1:
                return 1
            r = 1
            g = self.b.simplify(g, care)
            k = '$k%d' % depth
            m2 = re.match(r'\$k\d+ in (.*)\.\.(.*)$', rng)
            for cl in self.b.cnf(g, care):
                inner = [(a, p) for a, p in cl if re.search(r'\$[kvj]%d(?!\d)' % depth, a)]
                outer = [(a, p) for a, p in cl if not re.search(r'\$[kvj]%d(?!\d)' % depth, a)]
                one = 0
                for a, p in outer:
                    one = self.b.OR(one, self.b.var(a) if p else self.b.NOT(self.b.var(a)))
                if m2 and m2.group(1) == '0' and m2.group(2) == '1':
                    # a single iteration with the counter at 0: no quantifier needed
                    txt = [(a, p) for a, p in inner]
                    if all('$v' not in a and '$j' not in a for a, p in txt):
                        for a, p in txt:
                            v = self.subst0(a, k)
                            one = self.b.OR(one, v if p else self.b.NOT(v))
                        r = self.b.AND(r, one)
                        continue
                if not inner and m2:
                    ne = 1 if re.fullmatch(r'\d+', m2.group(2)) else self.atom('nonempty(%s)' % rng.split(' in ')[1], ('nonempty',))
                    r = self.b.AND(r, self.b.OR(one, self.b.NOT(ne)))
                    continue
                lits = ' || '.join(sorted(('' if p else '!') + '[' + a + ']' for a, p in inner))
                dirn = updown if re.search(r'\$v%d_' % depth, lits) else ''
                nm = 'forall %s%s: %s' % (dirn, rng, lits)
                r = self.b.AND(r, self.b.OR(one, self.atom(nm, ('forall', dirn + rng, tuple(sorted(inner))))))
            return r
        res = []
        if hexit:
            G = FA(B, stayc)
            for u, v, c in hexit:
                res.append((u, v, self.b.AND(R0, G)))
            E = self.b.AND(R0, self.b.NOT(G))
        else:
            E = R0
            G = 1
        if early:
            # the loop was left inside some iteration: its counter becomes a witness variable
            sup = set()
            for u, v, c in early:
                sup |= self.b.support(c)
            skn = '$x%d_%s' % (depth, hsh(rng + ';'.join(sorted(sup)))[:5])
            pat = re.compile(r'\$([kvj])%d(?!\d)' % depth)
            ren = lambda x: pat.sub(lambda mm: skn if mm.group(1) == 'k' else skn + mm.group(1), x)
            anyx = 0
            inside = [d for d in downs if all(self.b.implies(c, self.b.var(d[0]) if d[1] else self.b.NOT(self.b.var(d[0]))) for u, v, c in early)]
            ht = self.blocks[h][-1]
            if not hexit and len(early) == 1 and exit_ind is not None and len(ranges) == 1 and stayc == 1 and ht['op'] == 'br' and ht['ops'] and ht['ops'][0][0] == 'i':
                # 'while (in range && !found)' left at one place: in the range exactly when something was found
                c = early[0][2]
                for A in (self.asbool(self.val(ht['ops'][0])), self.b.NOT(self.asbool(self.val(ht['ops'][0])))):
                    if A not in (0, 1) and self.b.implies(self.b.NOT(A), c) and all(re.match(r'\$k%d u?< ' % depth, a) for a in self.b.support(A)):
                        rr = self.ranges(h, exit_ind, init, ind, A, depth)
                        if len(rr) == 1:
                            al = FA1(self.b.NOT(c), A, rr[0][1], rr[0][2])
                            x = self.rename(A, ren)
                            self.lemmas.append(self.b.OR(self.b.NOT(E), self.b.XOR(x, al)))
                            break
            for nme, vl in inside:      # the witness is inside the range
                x = self.rename(self.b.var(nme), ren)
                self.lemmas.append(self.b.OR(self.b.NOT(E), x if vl else self.b.NOT(x)))
            for k, (u, v, c) in enumerate(early):
                for nme, vl in downs:
                    c = self.b.restrict_var(c, nme, vl)
                c = self.rename(c, ren)
                anyx = self.b.OR(anyx, c)
                res.append((u, v, self.b.AND(E, c)))
            self.lemmas.append(self.b.OR(self.b.NOT(E), anyx))
            od = {}
            for x in body:
                for i in self.blocks[x]:
                    if i['id'] in self.env:
                        od[i['id']] = self.rename_val(self.env[i['id']], ren)
            blks = set()
            for u, v, c in early:
                blks.add(u)
                if all(q in body and q != h for q in self.pred[v]):
                    blks |= {x for x in self.rpo if x not in body and self.dom(v, x)}
            self.ovr.append((blks, od))
        # exit values of header phis
        NT = None
        if self.tripform and flip and hexit and len(ranges) == 1:
            mm = re.match(r'\$k\d+ in 0\.\.(.*)$', rng)
            if mm:
                NT = self.tripterms.get(mm.group(1)) or (const(int(mm.group(1))) if mm.group(1).isdigit() else None)
        for p in phis:
            pid = p['id']
            if pid in hyp:
                continue
            if NT is not None:
                k = names[exit_ind]
                v = None
                if pid in ind and p['ty'] != 'ptr':
                    i0 = self.opaque_ite(self.ascases(init[pid]))
                    if i0.base is None:
                        v = self.linterm(self.lin_add(self.lin_of(i0), self.lin_of(NT), ind[pid]), int(p['ty'][1:]))
                elif pid in resolved and len(resolved[pid]) == 1 and resolved[pid][0][1].base is None:
                    t0 = resolved[pid][0][1]
                    l = self.lin_of(t0)
                    a, ok = (l[0], ()), True
                    for n, co in l[1]:
                        if n == k:
                            a = self.lin_add(a, self.lin_of(NT), co)
                            continue
                        f = self.prods.get(n)
                        if f is not None and k in f:
                            f = list(f)
                            f.remove(k)
                            ok &= k not in f
                            t1 = self.prodterm(f, NT, t0.w)
                            a = self.lin_add(a, self.lin_of(t1), co)
                        else:
                            ok &= k not in n
                            a = self.lin_add(a, (0, ((n, 1),)), co)
                    if ok:
                        v = self.linterm(a, t0.w)
                elif self.ptrform and pid in pind:
                    t0 = self.ascases(init[pid])[0][1]
                    if t0.base is not None:
                        v = self.ptr_plus(t0, pind[pid], self.lin_of(NT))
                elif self.ptrform and pid in resolved and len(resolved[pid]) == 1 and len(self.ascases(init[pid])) == 1:
                    v = self.ptr_after(resolved[pid][0][1], self.ascases(init[pid])[0][1], k, NT)
                if v is not None:
                    self.env[pid] = [(1, v)]
                    continue
            if pid in ind:
                # value after the loop
                tt = Term('after[%s](%s)' % (rng, names[pid]))
                tt.lin = (0, ((tt.s, 1),))
                if early and exits and not hexit:
                    pass
                if p['ty'] == 'ptr':
                    tt.base = tt.s
                self.env[pid] = [(1, tt)]
                continue
            if pid in isbool and nextv[pid] is not None:
                vv = names[pid]
                N = self.asbool(nextv[pid])
                N1 = self.b.restrict_var(N, vv, True)
                N0 = self.b.restrict_var(N, vv, False)
                iv = self.asbool(init[pid])
                care = self.b.AND(stayc, B)
                if self.b.AND(care, self.b.NOT(N1)) == 0:
                    val = self.b.OR(iv, self.b.NOT(FA(self.b.NOT(N0), care)))
                elif self.b.AND(care, N0) == 0:
                    val = self.b.AND(iv, FA(N1, care))
                else:
                    val = self.atom('after[%s](%s;%s;%s)' % (rng, self.b.show(iv), self.b.show(N), vv), ('flag',))
                self.env[pid] = ('b', val) if p['ty'] == 'i1' else [x for x in [(val, const(1)), (self.b.NOT(val), const(0))] if x[0]]
                continue
            nx = nextv[pid]
            s = None
            vn = names[pid]
            if nx is not None and len(self.ascases(nx)) == 1:
                t1 = self.ascases(nx)[0][1]
                l = self.lin_of(t1)
                d = dict(l[1])
                if d.get(vn) == 1 and not any(vn in n for n in d if n != vn):
                    rest = (l[0], tuple(x for x in l[1] if x[0] != vn))
                    s = 'sum[%s](%s; %s)' % (rng, self.opaque_ite(self.ascases(init[pid])).s, self.lin_str(rest))
                mm = re.match(r'^\((.*) \* (.*)\)$', t1.s)
                if s is None and mm:
                    for x, y in ((mm.group(1), mm.group(2)), (mm.group(2), mm.group(1))):
                        if x == vn and vn not in y:
                            s = 'prod[%s](%s; %s)' % (rng, self.opaque_ite(self.ascases(init[pid])).s, y)
            if s is None:
                s = 'fold[%s%s](%s; %s => %s)' % (updown, rng, self.opaque_ite(self.ascases(init[pid])).s, names[pid], self.opaque_ite(self.ascases(nx)).s if nx is not None else '?')
            if pid in resolved:
                s = 'last[%s](%s)' % (rng, self.opaque_ite(self.ascases(nx)).s if nx is not None else '?')
            if len(s) > 400:
                s = 'fold{%s}' % hsh(s)
            tt = Term(s)
            tt.lin = (0, ((s, 1),))
            if p['ty'] == 'ptr':
                tt.base = s
            self.env[pid] = [(1, tt)]
        return res

    def rename(self, f, ren):
        m = {}
        for a in self.b.support(f):
            n = ren(a)
            if n != a:
                info = self.atoms.get(a)
                if info:
                    def rn(x):
                        return ren(x) if isinstance(x, str) else tuple(rn(y) for y in x) if isinstance(x, tuple) else x
                    info = (info[0],) + tuple(rn(x) for x in info[1:])
                self.atom(n, info)
                m[a] = n
        if not m:
            return f
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            L, lo, hi = self.b.nodes[n]
            nm = self.b.names[L]
            r = self.b.ite(self.b.var(m.get(nm, nm)), go(hi), go(lo))
            memo[n] = r
            return r
        return go(f)

    def rename_val(self, v, ren):
        if isinstance(v, tuple):
            return ('b', self.rename(v[1], ren))
        return [(self.rename(c, ren), self.rename_term(t, ren)) for c, t in v]

    def rename_term(self, t, ren):
        if '$' not in t.s and not (t.base and '$' in t.base):
            return t
        n = Term(ren(t.s), t.c, t.dt)
        n.base = ren(t.base) if t.base is not None else None
        n.bt, n.off, n.uns, n.w, n.elt = t.bt, t.off, t.uns, t.w, t.elt
        n.idx = tuple(sorted((s, ren(x)) for s, x in t.idx))
        if t.lin is not None:
            n.lin = (t.lin[0], tuple(sorted((ren(x), k) for x, k in t.lin[1])))
        return n

    def previous(self, o, h, body, ind, ei):
        """value operand `o` (computed in the loop body from the counter and invariants only) had one
        iteration earlier; None if it depends on anything else"""
        need = []
        seen = set()
        ok = [True]
        PURE = ('load', 'getelementptr', 'add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem',
                'sext', 'zext', 'trunc', 'bitcast', 'icmp', 'select', 'freeze')

        def visit(x):
            if not ok[0] or not isinstance(x, list) or not x:
                return
            if x[0] != 'i' or x[1] in seen:
                return
            i = self.inst[x[1]]
            if self.blk[x[1]] not in body:
                return
            if i['op'] == 'phi':
                if self.blk[x[1]] == h and x[1] in ind:
                    return
                ok[0] = False
                return
            if i['op'] not in PURE:
                ok[0] = False
                return
            seen.add(x[1])
            if i['op'] == 'getelementptr':
                visit(i['gep'][0])
                for _, v in i['gep'][2]:
                    visit(v)
            for y in i.get('ops', []):
                visit(y)
            need.append(i)
        visit(o)
        if not ok[0] or o[0] != 'i' or not need:
            return None
        if any(x != ei for x in ind):
            for x in ind:
                if x != ei and ind[x] != ind[ei]:
                    return None
        save = dict(self.env)
        sev = dict(self.events)
        for x in ind:
            t = self.ascases(self.env[x])[0][1]
            if t.base is not None:
                self.env = save
                return None
            self.env[x] = [(1, self.linterm(self.lin_add(self.lin_of(t), (-ind[x], ())), t.w))]
        for i in need:
            self.instr(i, 1, [])
        r = self.env.get(o[1])
        self.env = save
        self.events = sev
        return r

    def looks_bool(self, v, seen):
        if v[0] == 'c':
            return v[1] in (0, 1)
        if v[0] != 'i':
            return False
        if v[1] in seen:
            return True
        seen.add(v[1])
        i = self.inst[v[1]]
        if i['op'] == 'zext' and i['oty'] == 'i1':
            return True
        if i['ty'] == 'i1':
            return True
        if i['op'] == 'phi':
            return all(self.looks_bool(x, seen) for _, x in i['in'])
        if i['op'] in ('or', 'and', 'trunc', 'zext'):
            return all(self.looks_bool(x, seen) for x in i['ops'])
        return False

    def only_counts(self, x, h, body):
        """phi x is used by nothing but its own update and the header's exit test"""
        nxt = {v[1] for u, v in self.inst[x]['in'] if u in body and v[0] == 'i'}
        tst = set()
        t = self.blocks[h][-1]
        if t['op'] == 'br' and t['ops'] and t['ops'][0][0] == 'i':
            tst.add(t['ops'][0][1])
        ok = nxt | tst | {x}
        for b in self.blocks:
            for i in b:
                us = [o for o in i.get('ops', [])] + [v for _, v in i.get('in', [])]
                if i['op'] == 'getelementptr':
                    us += [i['gep'][0]] + [v for _, v in i['gep'][2]]
                if any(o and o[0] == 'i' and o[1] in (nxt | {x}) for o in us) and i['id'] not in ok:
                    return False
        return True

    def exit_counter(self, h, body, ind):
        t = self.blocks[h][-1]
        cand = set()
        if t['op'] == 'br' and t['ops']:
            st = [t['ops'][0]]
            seen = set()
            while st:
                o = st.pop()
                if o[0] != 'i' or o[1] in seen:
                    continue
                seen.add(o[1])
                i = self.inst[o[1]]
                if o[1] in ind:
                    cand.add(o[1])
                    continue
                if i['op'] in ('icmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'sub', 'add'):
                    st += i['ops']
        if len(cand) == 1:
            return cand.pop()
        return None

    def sub0(self, n, k):
        for nm in sorted((x for x in self.places if k in x and x in n), key=len, reverse=True):
            t, size, ty = self.places[nm]
            if t.base is None or k in t.base:
                continue
            u = Term('')
            u.base, u.bt, u.off, u.elt = t.base, t.bt, t.off, t.elt
            u.idx = tuple(x for x in t.idx if x[1] != k)
            n = n.replace(nm, self.place(u, size, ty))
        n = re.sub(r'\+\d+\*%s(?!\d)' % re.escape(k), '', n)
        n = re.sub(r'\[(\d+)\+%s\]' % re.escape(k), r'[\1]', n)
        n = re.sub(r'\[%s\]' % re.escape(k), '[0]', n)
        n = re.sub(r'(?<=[(,] )%s(?=[,)])|(?<=\()%s(?=,)' % (re.escape(k), re.escape(k)), '0', n)
        return n

    def subst0(self, a, k):
        """atom `a` with the loop counter k replaced by 0"""
        n = self.sub0(a, k)
        info = self.atoms.get(a)
        if info and info[0] in ('eq', 'slt', 'ult') and info[1] is not None:
            info = (info[0], self.sub0(info[1], k), info[2])
        if k in n:
            mm = re.match(r'^%s == (-?\d+)$' % re.escape(k), n)
            if mm:
                return int(int(mm.group(1)) == 0)
            mm = re.match(r'^%s < (-?\d+)$' % re.escape(k), n)
            if mm:
                return int(0 < int(mm.group(1)))
            return self.atom('at 0: ' + n, ('forall',))
        return self.atom(n, info)

    def ranges(self, h, ei, init, ind, stayc, depth):
        """iteration ranges by case of the loop-invariant guards: [(guard, text, direction)]"""
        k = '$k%d' % depth
        if ei is None:
            r, u = self.range_str(h, ei, init, ind, stayc, depth)
            return [(1, r, u)]
        inv = sorted(a for a in self.b.support(stayc) if not re.search(r'\$[kvj]%d(?!\d)' % depth, a))
        if not inv or len(inv) > 4:
            r, u = self.range_str(h, ei, init, ind, stayc, depth)
            return [(1, r, u)]
        out = {}

        def split(g, st, left):
            sup = self.b.support(st)
            left = [a for a in left if a in sup]
            if not left:
                if st in (0, 1):
                    r, u = ('%s in 0..0' % k, '') if st == 0 else ('forever', '')
                else:
                    r, u = self.range_str(h, ei, init, ind, st, depth)
                o = out.get(r)
                out[r] = (self.b.OR(g, o[0]) if o else g, r, u)
                return
            a = left[0]
            for val in (True, False):
                split(self.b.AND(g, self.b.var(a) if val else self.b.NOT(self.b.var(a))), self.b.restrict_var(st, a, val), left[1:])
        split(1, stayc, inv)
        return [out[r] for r in sorted(out)]

    def range_str(self, h, ei, init, ind, stayc, depth):
        """(canonical text of the iteration range, direction)"""
        k = '$k%d' % depth
        if ei is None:
            return 'while[%s]' % self.b.show(stayc), ''
        i0 = self.opaque_ite(self.ascases(init[ei]))
        if self.kshift and i0.base is None:
            i0 = self.linterm(self.lin_add(self.lin_of(i0), (-self.kshift, ())), 32)
        sup = self.b.support(stayc)
        step = ind[ei]
        if self.kflip:
            i0, step = const(0), 1
        if len(sup) == 1:
            a = next(iter(sup))
            pos = stayc == self.b.var(a)
            mm = re.match(r'^%s (?:u?<) (.*)$' % re.escape(k), a)
            if mm and pos and step == 1:
                return '%s in %s..%s' % (k, i0.s, mm.group(1)), 'up '
            m2 = re.match(r'^%s == (.*)$' % re.escape(k), a)
            if m2 and not pos and step == 1:
                return '%s in %s..%s' % (k, i0.s, m2.group(1)), 'up '
            if m2 and not pos and step == -1 and m2.group(1) == '-1':
                hi = self.lin_str(self.lin_add(self.lin_of(i0), (1, ())))
                return '%s in 0..%s' % (k, hi), 'down '
            if mm and not pos and step == -1:
                hi = self.lin_str(self.lin_add(self.lin_of(i0), (1, ())))
                return '%s in %s..%s' % (k, mm.group(1), hi), 'down '
        return '%s from %s by %d while %s' % (k, i0.s, step, self.b.show(stayc)), 'up ' if step > 0 else 'down '

    # ---------- results
    def ret_when(self, cval):
        """bdd: condition under which the function returns constant cval"""
        r = 0
        for R, v, i in self.rets:
            if v is None:
                continue
            for c, t in self.ascases(v):
                r = self.b.OR(r, self.b.AND(R, self.b.AND(c, self.cmp('eq', t, const(cval)))))
        return r

    def equalities(self, names=None):
        """X == Y and X == c, Y == d exclude each other for different constants"""
        b = self.b
        eq = {}
        for a, info in self.atoms.items():
            if info and info[0] == 'eq' and info[2] is not None and (names is None or a in names):
                eq.setdefault(info[1], []).append((info[2], a))
        ax = 1
        for a, info in self.atoms.items():
            m = re.match(r'(.+) == (.+)$', a) if info and info[0] == 'eq' and (names is None or a in names) else None
            if not m or m.group(1) not in eq or m.group(2) not in eq:
                continue
            for c, x in eq[m.group(1)]:
                for d, y in eq[m.group(2)]:
                    if c == d:          # one side decides the other
                        ax = b.AND(ax, b.OR(b.NOT(b.var(a)), b.NOT(b.XOR(b.var(x), b.var(y)))))
                        ax = b.AND(ax, b.OR(b.var(a), b.NOT(b.AND(b.var(x), b.var(y)))))
                    else:
                        ax = b.AND(ax, b.NOT(b.AND(b.var(a), b.AND(b.var(x), b.var(y)))))
        return ax

    def axioms(self, names=None, lemmas=True):
        """theory lemmas relating comparison atoms over the same expression"""
        b = self.b
        ax = 1
        for l in self.lemmas if lemmas else ():
            if names is None or b.support(l) & set(names):
                ax = b.AND(ax, l)
                if names is not None:
                    names = set(names) | b.support(l)
        groups = {}
        if names is not None:
            names = set(names)
        for a, info in self.atoms.items():
            if names is not None and a not in names:
                continue
            if info and info[0] in ('eq', 'slt', 'ult') and info[2] is not None:
                groups.setdefault(info[1], []).append((info[0], info[2], a))
        for D, L in groups.items():
            for x in range(len(L)):
                for y in range(x + 1, len(L)):
                    k1, c1, a1 = L[x]
                    k2, c2, a2 = L[y]
                    if (k1, c1) > (k2, c2):
                        k1, c1, a1, k2, c2, a2 = k2, c2, a2, k1, c1, a1
                    v1, v2 = b.var(a1), b.var(a2)
                    if k1 == 'eq' and k2 == 'eq' and c1 != c2:
                        ax = b.AND(ax, b.NOT(b.AND(v1, v2)))
                    elif k1 == 'eq' and k2 == 'slt':
                        ax = b.AND(ax, b.OR(b.NOT(v1), v2 if c1 < c2 else b.NOT(v2)))
                    elif k1 == 'eq' and k2 == 'ult':
                        ax = b.AND(ax, b.OR(b.NOT(v1), v2 if 0 <= c1 < c2 else b.NOT(v2)))
                    elif k1 == k2 == 'slt' or k1 == k2 == 'ult':
                        ax = b.AND(ax, b.OR(b.NOT(v1), v2))
                    elif k1 == 'slt' and k2 == 'ult' and c2 <= 0x7fffffff:
                        # D u< c2 -> 0 <= D < c2
                        if c1 <= 0:
                            ax = b.AND(ax, b.NOT(b.AND(v1, v2)))
                        if c2 <= c1:
                            ax = b.AND(ax, b.OR(b.NOT(v2), v1))
        return b.AND(ax, self.equalities(names))

    def loc(self, i):
        if not i.get('loc'):
            return (self.f.get('file', '?'), self.f.get('line', 0), self.f['dem'])
        return tuple(i['loc'][0])
