"""Memory-aware condition data-flow.

Extends Cond with an ordered log of guarded writes.  A load is resolved by walking the log
backwards over the same object: exact matches contribute their (guarded) value, copies are
followed into their source at the time of the copy, and what remains is the initial content of
the place (or `uninit` for a local).  Writes of loops that could not be unrolled become one
summarising entry.  Objects with different canonical bases are assumed not to overlap.
"""
import re
from cond import Cond, Term, const, NULL, hsh, Mod


class W:
    __slots__ = ('R', 'kind', 'base', 'off', 'idx', 'size', 'val', 'src', 't', 'ins', 'tag', 'scope')

    def __init__(self, R, kind, base, off, idx, size, val=None, src=None, t=0, ins=None, tag=None):
        self.R, self.kind, self.base, self.off, self.idx, self.size = R, kind, base, off, idx, size
        self.val, self.src, self.t, self.ins, self.tag = val, src, t, ins, tag
        self.scope = None


class MCond(Cond):
    def __init__(self, mod, fn, havoc=None, **kw):
        self.log = []
        self.bybase = {}
        self.marks = []
        self.pats = {}
        self.etime = {}
        self.locals = {}
        self.cvs = {}
        self.nw = {}                # width of opaque terms
        self.trunced = {}
        self.havoc = havoc          # callee name -> list of written pointer-argument indexes (None: derive)
        self.probing = 0
        self.rets_t = []
        super().__init__(mod, fn, **kw)

    # ---- log
    def push(self, w):
        if w.R == 0:
            return
        w.t = len(self.log)
        self.log.append(w)
        self.bybase.setdefault(w.base, []).append(w)

    def trunc(self, n):
        for w in self.log[n:]:
            self.bybase[w.base].pop()
        del self.log[n:]

    # ---- addresses
    def key(self, t):
        base = t.base if t.base is not None else t.s
        return base, t.off, tuple(sorted((s, n) for s, n in t.idx))

    def bits(self, t, off, size):
        """bytes [off, off+size) of a scalar term"""
        full = (t.w or 64) // 8
        if t.c is not None and t.base is None:
            v = (t.c >> (8 * off)) & ((1 << (8 * size)) - 1)
            if v >> (8 * size - 1):
                v -= 1 << (8 * size)
            return const(v, 8 * size)
        parts = getattr(t, 'parts', None)
        r = Term('bytes[%d+%d](%s)' % (off, size, t.s))
        r.w = size * 8
        r.elt = ('bits', t, off, size)
        return r

    def resolve(self, base, off, idx, size, ty, upto, R=1, term=None, depth=0):
        """guarded cases of the content of a place after log[:upto]"""
        out = []
        rem = R
        L = self.bybase.get(base, [])
        n = len(L)
        # binary search
        lo, hi = 0, n
        while lo < hi:
            mid = (lo + hi) // 2
            if L[mid].t < upto:
                lo = mid + 1
            else:
                hi = mid
        b = self.b
        for j in range(lo - 1, -1, -1):
            e = L[j]
            if rem == 0:
                break
            if e.kind == 'loophead':
                r = self.loop_alias(e, off, idx, size)
                if not r:
                    continue
                out.append((b.AND(rem, e.R), self.mk('carried(%s)' % self.pname(base, off, idx, size, ty, term), size, ty)))
                rem = b.AND(rem, b.NOT(e.R))
                continue
            rel = self.relation(e, off, idx, size)
            if rel == 'disjoint':
                continue
            g = b.AND(rem, e.R)
            if g == 0:
                continue
            if rel == 'exact' and e.kind == 'store':
                for c, t in self.ascases(e.val):
                    cc = b.AND(g, c)
                    if cc:
                        out.append((cc, t))
            elif rel in ('exact', 'inside'):
                d = off - e.off
                if e.kind == 'copy':
                    st = e.src
                    u = self.addr(st, d, [])
                    ub, uo, ui = self.key(u)
                    for c, t in self.resolve(ub, uo, ui, size, ty, e.t, g, u, depth + 1):
                        out.append((c, t))
                elif e.kind == 'set':
                    for c, t in self.ascases(e.val):
                        cc = b.AND(g, c)
                        if cc:
                            if t.c is not None:
                                v = 0
                                for _ in range(size):
                                    v = (v << 8) | (t.c & 255)
                                if v >> (8 * size - 1):
                                    v -= 1 << (8 * size)
                                out.append((cc, NULL if ty == 'ptr' and v == 0 else const(v, size * 8)))
                            else:
                                out.append((cc, self.mk('fill(%s)' % t.s, size, ty)))
                elif e.kind == 'store':
                    for c, t in self.ascases(e.val):
                        cc = b.AND(g, c)
                        if cc:
                            if t.elt is not None and isinstance(t.elt, tuple):
                                t2 = self.part(t, d, size)
                            else:
                                t2 = self.bits(t, d, size)
                            out.append((cc, t2))
                else:
                    out.append((g, self.mk('%s(%s)' % (e.tag, self.pname(base, off, idx, size, ty, term)), size, ty)))
            elif rel == 'partial' and size > 1:
                # some bytes written later than others: assemble from halves
                h = size // 2
                for c, t in self.cat(base, off, idx, size, ty, upto, rem, depth):
                    out.append((c, t))
                return out
            else:
                out.append((g, self.mk('%s?(%s)' % (e.tag or 'alias', self.pname(base, off, idx, size, ty, term)), size, ty)))
            rem = b.AND(rem, b.NOT(e.R))
        if rem:
            for c, t in self.initial(base, off, idx, size, ty, term, rem):
                out.append((c, t))
        return out

    def cat(self, base, off, idx, size, ty, upto, R, depth):
        h = size // 2
        lo = self.resolve(base, off, idx, h, 'i%d' % (8 * h), upto, R, None, depth + 1)
        hi = self.resolve(base, off + h, idx, h, 'i%d' % (8 * h), upto, R, None, depth + 1)
        out = []
        for c1, a in lo:
            for c2, d in hi:
                cc = self.b.AND(c1, c2)
                if cc:
                    out.append((cc, self.catterm(a, d, h)))
        return out

    def catterm(self, a, d, h):
        if a.c is not None and d.c is not None:
            v = (a.c & ((1 << 8 * h) - 1)) | ((d.c & ((1 << 8 * h) - 1)) << (8 * h))
            if v >> (16 * h - 1):
                v -= 1 << (16 * h)
            return const(v, 16 * h)
        if isinstance(a.elt, tuple) and isinstance(d.elt, tuple) and a.elt[0] == d.elt[0] == 'bits' and a.elt[1] is d.elt[1] and a.elt[2] + a.elt[3] == d.elt[2]:
            x, o, n = a.elt[1], a.elt[2], a.elt[3] + d.elt[3]       # neighbouring parts of one value
            return x if o == 0 and n * 8 >= (x.w or 64) else self.bits(x, o, n)
        t = Term('{%s|%s}' % (a.s, d.s))
        t.w = 16 * h
        t.elt = ('cat', h, a, d)
        t.lin = (0, ((t.s, 1),))
        return t

    def lin_of(self, t):
        l = super().lin_of(t)
        if t.w and len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            n = l[1][0][0]
            self.nw[n] = max(self.nw.get(n, 0), t.w)
        return l

    def binop(self, op, a, b, w):
        if op == 'and' and 'undef' in (a.s, b.s):
            return const(0, w)
        if w == 64:                                     # two 32 bit members handled as one 64 bit value
            if op == 'lshr' and b.c == 32 and isinstance(a.elt, tuple) and a.elt[:2] == ('cat', 4):
                return a.elt[3]
            if op == 'shl' and b.c == 32 and (a.w == 32 or a.c is not None and a.w):
                t = super().binop(op, a, b, w)
                if t.c is None:
                    t.elt = ('hi', a)
                return t
            if op == 'and' and b.c == 0xffffffff and a.c is None:
                return self.truncate(a, 32)
            if op == 'and' and b.c == -1 << 32 and isinstance(a.elt, tuple) and a.elt[0] in ('cat', 'hi'):
                return a if a.elt[0] == 'hi' else self.binop('shl', a.elt[3], const(32, 64), 64) if a.elt[1] == 4 else super().binop(op, a, b, w)
            if op in ('or', 'add'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(y.elt, tuple) and y.elt[0] == 'hi' and (x.w == 32 and x.c is None or x.c is not None and 0 <= x.c < 1 << 32):
                        return self.catterm(x, y.elt[1], 4)
                    if y.c is not None and y.c and not y.c & 0xffffffff and x.w == 32 and x.c is None:
                        h = (y.c >> 32) & 0xffffffff
                        return self.catterm(x, const(h - (h >> 31 << 32), 32), 4)
        return super().binop(op, a, b, w)

    def truncate(self, t, w):
        if isinstance(t.elt, tuple) and t.elt[0] == 'hi' and w <= 32:
            return const(0, w)
        if isinstance(t.elt, tuple) and t.elt[0] == 'cat' and w <= 8 * t.elt[1]:
            return self.truncate(t.elt[2], w)
        if w == 32 and t.c is None and t.base is None and t.lin is not None and (t.w or 64) > 32:
            # arithmetic commutes with truncation
            todo, l = list(t.lin[1]), (t.lin[0], ())
            while todo:
                n, k = todo.pop()
                if n in self.trunced:
                    d = self.trunced[n]
                    l = (l[0] + k * d[0], l[1])
                    todo += [(x, k * y) for x, y in d[1]]
                elif self.nw.get(n, 64) <= 32:
                    l = self.lin_add(l, (0, ((n, k),)))
                else:
                    l = None
                    break
            if l is not None:
                return self.linterm(l, 32)
            u = super().truncate(t, w)
            if u.lin is None:
                self.trunced[u.s] = t.lin
            return u
        return super().truncate(t, w)

    def part(self, t, off, size):
        if isinstance(t.elt, tuple) and t.elt[0] == 'cat':
            _, h, a, d = t.elt
            if off == 0 and size == 2 * h:
                return t
            if off < h and off + size <= h:
                return self.part(a, off, size) if size < h or isinstance(a.elt, tuple) else a
            if off >= h:
                return self.part(d, off - h, size) if size < h or isinstance(d.elt, tuple) else d
        return self.bits(t, off, size)

    def relation(self, e, off, idx, size):
        if e.kind == 'havoc' and e.size is None:
            return 'inside'
        if e.idx == idx:
            if e.off == off and e.size == size:
                return 'exact'
            if e.off + e.size <= off or off + size <= e.off:
                # same variable part: other elements of the enclosing array could still be hit only if
                # the variable parts differ, which they do not
                return 'disjoint'
            if e.off <= off and off + size <= e.off + e.size:
                return 'inside'
            return 'partial'
        # different variable parts: disjoint when every stride keeps the residues apart
        g = 0
        for s, n in set(e.idx) ^ set(idx):
            g = gcd(g, abs(s))
        if g:
            a, b2 = e.off % g, off % g
            if e.size <= g and size <= g and (a + e.size <= b2 or b2 + size <= a) and a + e.size <= g and b2 + size <= g:
                return 'disjoint'
        if self.inbounds:
            a = self.extent(e.base, e.off, e.idx) if e.idx else (e.off, e.off + e.size)
            c = self.extent(e.base, off, idx) if idx else (off, off + size)
            if a and c and (a[1] <= c[0] or c[1] <= a[0]):
                return 'disjoint'
        return 'may'

    inbounds = False    # indexing stays inside the array member it starts in (defined behaviour of the language)

    def extent(self, base, off, idx):
        """byte range of the array member a variable index stays in, or None"""
        if not idx:
            return None
        p = self.protos.get(base) if hasattr(self, 'protos') else None
        t = self.m.strip(p.bt) if p is not None and p.bt is not None else -1
        big = max(abs(s) for s, _ in idx)
        at = 0
        while t is not None and t >= 0:
            x = self.m.types[t]
            if x['kind'] == 'struct':
                o = off - at
                if x['size'] and not 0 <= o < x['size']:
                    return None
                hit = [y for y in x['mem'] if y[1] <= o < y[1] + max(y[2], 1) and y[2]]
                if len(hit) != 1:
                    return None
                at, t = at + hit[0][1], self.m.strip(hit[0][3])
            elif x['kind'] == 'array':
                et = self.m.strip(x['base'])
                es = self.m.types[et]['size']
                n = 1
                for d in x['dims']:
                    n *= max(d, 0)
                if not es or not n:
                    return None
                if big >= es:
                    return (at, at + es * n)
                k = (off - at) // es
                at, t = at + k * es, et
            else:
                return None
        return None

    def loop_alias(self, e, off, idx, size):
        """may a write of an earlier iteration touch this place"""
        kv = e.tag
        for (po, pi, ps) in e.val:
            if ps is None:
                return True
            w = W(1, 'store', e.base, po, pi, ps)
            r = self.relation(w, off, idx, size)
            if r == 'disjoint':
                continue
            if r in ('exact', 'inside', 'partial') and any(re.search(kv, n) for _, n in idx):
                # the address moves with the counter by at least the size accessed
                if all(abs(s) >= max(size, ps) for s, n in idx if re.search(kv, n)):
                    continue
            return True
        return False

    def mk(self, s, size, ty):
        r = Term(s if len(s) < 3000 else s[:60] + '..{%s}' % hsh(s))
        if ty == 'ptr':
            r.base = r.s
        else:
            r.lin = (0, ((r.s, 1),))
            r.w = size * 8
        return r

    def pname(self, base, off, idx, size, ty, term):
        if term is None:
            term = self.ptr(base, off, idx)
        return self.place(term, size, ty)

    def ptr(self, base, off, idx):
        u = Term('')
        u.base = base
        proto = self.protos.get(base) if hasattr(self, 'protos') else None
        if proto is not None:
            u.bt, u.elt = proto.bt, proto.elt
        u.off, u.idx = off, idx
        return u

    def initial(self, base, off, idx, size, ty, term, rem):
        g = self.m.globals.get(self.gl.get(base, base)) if hasattr(self, 'gl') else None
        if g is not None and g.get('const') and 'init' in g and not idx:
            v = read_init(g['init'], off, size)
            if v is not None:
                return [(rem, self.const_of(v, size, ty))]
        if base in self.locals:
            return [(rem, self.mk('uninit', size, ty))]
        if term is None:
            term = self.ptr(base, off, idx)
        t = self.load_term(term, size, ty)
        T = self.m.types[self.last_t] if self.last_t >= 0 else None
        if size == 8 and ty != 'ptr' and ty != 'double' and (T is None or T['size'] != 8 or T['kind'] in ('struct', 'array', 'union')):
            lo = self.initial(base, off, idx, 4, 'i32', None if term is None else self.addr(term, 0, []), 1)
            hi = self.initial(base, off + 4, idx, 4, 'i32', None if term is None else self.addr(term, 4, []), 1)
            return [(rem, self.catterm(lo[0][1], hi[0][1], 4))]
        return [(rem, t)]

    def const_of(self, v, size, ty):
        if isinstance(v, int):
            return NULL if ty == 'ptr' and v == 0 else const(v, size * 8)
        if v[0] == 'g':
            return self.ascases(self.val(v))[0][1]
        if v[0] == 'f':
            return Term('f' + v[1])
        return Term(str(v))

    # ---- instruction hooks
    def remember(self, t):
        if not hasattr(self, 'protos'):
            self.protos = {}
        b = t.base if t.base is not None else t.s
        if b not in self.protos:
            self.protos[b] = t

    def do_load(self, i):
        p = self.ascases(self.val(i['ops'][0]))
        R = self.curR()
        self.events[i['id']] = ('load', R, p, i)
        cases = []
        size, ty = i['size'], i['ty']
        for c, t in p:
            if t is NULL or t.c == 0:
                cases.append((c, self.mk('*null', size, ty)))
                continue
            self.remember(t)
            base, off, idx = self.key(t)
            cc = self.b.AND(c, R) if c != 1 else R
            for c2, v in self.resolve(base, off, idx, size, ty, len(self.log), cc, t):
                cases.append((self.b.AND(c, self.b.simplify(c2, R) if R else c2), v))
        cases = self.merge(cases)
        if len(cases) > 1 and R:
            cases = self.disjoin(cases, R)
        if len(cases) > self.maxcases:
            o = self.opaque_ite(cases)
            o.lin = (0, ((o.s, 1),))
            cases = [(1, o)]
        if ty == 'i1':
            return ('b', self.asbool(cases))
        return cases

    def disjoin(self, cases, R):
        acc = 0
        out = []
        for c, t in cases[:-1]:
            c2 = self.b.AND(self.b.simplify(c, R), self.b.NOT(acc))
            out.append((c2, t))
            acc = self.b.OR(acc, c2)
        out.append((self.b.NOT(acc), cases[-1][1]))
        return [x for x in out if x[0]]

    def wr(self, kind, R, c, t, size, **kw):
        self.remember(t)
        base, off, idx = self.key(t)
        self.push(W(self.b.AND(R, c), kind, base, off, idx, size, **kw))

    def instr(self, i, R, out):
        op = i['op']
        if op == 'store':
            A = self.ascases(self.val(i['ops'][1]))
            v = self.val(i['ops'][0])
            cr = self.curR()
            self.events[i['id']] = ('store', cr, (A, v), i)
            self.etime[i['id']] = len(self.log)
            for c, t in A:
                if t is NULL:
                    continue
                vs = self.ascases(v)
                self.wr('store', cr, c, t, i['size'], val=vs, ins=i)
            return out
        if op == 'ret':
            self.rets_t.append(len(self.log))
        if op == 'alloca':
            n = i.get('n') or 'tmp'
            if any(a.get('n') == n for a in self.f['args']):        # not the parameter of that name
                n += '~'
            if n in self.locals and self.locals[n] != i['id']:
                n = '%s~%d' % (n, i['id'])
            self.locals[n] = i['id']
            t = Term('&%s' % n)
            t.base = n
            t.bt = self.m.strip(i.get('t', -1))
            t.elt = True
            self.env[i['id']] = [(1, t)]
            return out
        if op == 'extractvalue':
            v = self.ascases(self.val(i['ops'][0]))
            r = []
            for c, t in v:
                x = t.elt.get(tuple(i['idx'])) if isinstance(t.elt, dict) else None
                r.append((c, x if x is not None else Term('%s#%s' % (t.s, '.'.join(map(str, i['idx']))))))
            self.env[i['id']] = self.merge(r)
            return out
        if op == 'insertvalue':
            def ins(a, v):
                t = Term('')
                t.elt = dict(a.elt) if isinstance(a.elt, dict) else {}
                t.elt[tuple(i['idx'])] = v
                t.s = 'agg{%s}' % ', '.join('%s:%s' % ('.'.join(map(str, k)), x.s) for k, x in sorted(t.elt.items()))
                return t
            self.env[i['id']] = self.app(ins, self.val(i['ops'][0]), self.val(i['ops'][1]))
            return out
        if op == 'inttoptr':
            def un(t):
                m = re.match(r'^p2i\((.*)\)$', t.s)
                u = Term('i2p(%s)' % t.s)
                u.base = u.s
                return self.p2i.get(t.s, u) if hasattr(self, 'p2i') else u
            self.env[i['id']] = self.app(un, self.val(i['ops'][0]))
            return out
        if op == 'ptrtoint':
            def to(t):
                u = Term('p2i(%s)' % t.s)
                u.w = 64
                if not hasattr(self, 'p2i'):
                    self.p2i = {}
                self.p2i[u.s] = t
                return u
            self.env[i['id']] = self.app(to, self.val(i['ops'][0]))
            return out
        return super().instr(i, R, out)

    def val(self, o):
        if o[0] == 'g':
            r = super().val(o)
            if not hasattr(self, 'gl'):
                self.gl = {}
            self.gl[r[0][1].base] = o[1]
            return r
        return super().val(o)

    def call(self, i, R):
        name = self.callee_name(i)
        self.etime[i['id']] = len(self.log)
        cr = self.curR()
        if name is None and i.get('cv'):
            self.cvs[i['id']] = self.val(i['cv'])
        if name and name.startswith('llvm.mem'):
            args = [self.ascases(self.val(o)) for o in i['ops']]
            self.events[i['id']] = ('call', cr, (name, args), i)
            ln = args[2][0][1].c if len(args[2]) == 1 else None
            for c, d in args[0]:
                if d is NULL:
                    continue
                if ln is None:
                    self.wr('havoc', cr, c, d, None, tag='%s[%s]' % (name.split('.')[1], self.opaque_ite(args[2]).s), ins=i)
                elif name.startswith('llvm.memset'):
                    self.wr('set', cr, c, d, ln, val=args[1], ins=i)
                elif ln:
                    for c2, s in args[1]:
                        self.remember(s)
                        self.wr('copy', cr, self.b.AND(c, c2), d, ln, src=s, ins=i)
            return None
        r = super().call(i, R)
        if name is None or not name.startswith('llvm.'):
            args = self.events[i['id']][2][1]
            wr = self.written(name, i, args)
            for k in wr:
                for c, t in args[k]:
                    if t is NULL or t.c is not None:
                        continue
                    size = wr[k]
                    self.wr('havoc', cr, c, t, size, tag='%s@%s' % (self.short(name), self.digest(i, args, k)), ins=i)
        return r

    def callee_val(self, i):
        return self.ascases(self.cvs.get(i['id'], [(1, Term('?'))]))

    def short(self, name):
        return re.sub(r'<.*>', '', name or 'indirect').split('::')[-1].split(' ')[-1]

    def digest(self, i, args, k):
        return k

    def written(self, name, i, args):
        """{argument index: byte count or None} an opaque callee may write through"""
        f = self.m.fns.get(i.get('callee'))
        out = {}
        if re.match(r'mli_(chk|hlp)_|mli_mem_is_inside', name or ''):
            return {}
        fa = (f or {}).get('args') or []
        for k, a in enumerate(args):
            if i['oty'][k] != 'ptr':
                continue
            size = None
            if k < len(fa) and fa[k].get('t', -1) is not None and fa[k].get('t', -1) >= 0:
                if self.is_const_ptr(fa[k]['t']):
                    continue
                pt = self.m.pointee(fa[k]['t'])
                if pt >= 0 and self.m.types[pt]['kind'] in ('struct', 'union'):
                    size = self.m.types[pt]['size'] or None
                if fa[k].get('byval'):
                    continue
            out[k] = size
        if self.havoc:
            h = self.havoc(name, i, out)
            if h is not None:
                out = h
        return out

    def is_const_ptr(self, t):
        """pointer/reference type whose pointee is const"""
        m = self.m
        while t >= 0 and m.types[t]['kind'] in ('typedef', 'const', 'other'):
            t = m.types[t]['base']
        if t < 0 or m.types[t]['kind'] not in ('ptr', 'ref'):
            return False
        t = m.types[t]['base']
        while t is not None and t >= 0 and m.types[t]['kind'] in ('typedef', 'other'):
            t = m.types[t]['base']
        return t is not None and t >= 0 and m.types[t]['kind'] == 'const'

    # ---- loops
    entering = 0    # the body of a loop is being evaluated with the memory as it is on entry

    def region(self, entry, blocks, header, entry_edges):
        if header is None:
            return super().region(entry, blocks, header, entry_edges)
        mark = self.marks[-1][1]
        self.trunc(mark)
        if header not in self.pats:
            sv = (dict(self.env), dict(self.events), list(self.rets), list(self.rets_t), dict(self.Rabs), list(self.ovr), list(self.lemmas), self.ndepth, list(self.prefix), self.cblk, dict(self.etime))
            self.entering += 1
            super().region(entry, blocks, header, entry_edges)
            self.entering -= 1
            pat = {}
            for w in self.log[mark:]:
                pat.setdefault(w.base, set()).add((w.off, w.idx, w.size))
            self.pats[header] = pat
            self.trunc(mark)
            self.env, self.events, self.rets[:], self.rets_t, self.Rabs, self.ovr, self.lemmas, self.ndepth, self.prefix, self.cblk, self.etime = sv[0], sv[1], sv[2], sv[3], sv[4], sv[5], sv[6], sv[7], sv[8], sv[9], sv[10]
        self.trunc(mark)
        d = self.ndepth - 1
        for base, ps in sorted(self.pats[header].items()):
            self.push(W(1, 'loophead', base, 0, (), None, val=sorted(ps, key=str), tag=r'\$[kvj]%d(?!\d)' % d))
        nr = len(self.rets)
        del self.rets_t[nr:]
        return super().region(entry, blocks, header, entry_edges)

    unroll = 0      # iterations a loop may be evaluated for when its exit is decided in each of them

    def snap(self):
        return (dict(self.env), dict(self.events), len(self.rets), len(self.rets_t), dict(self.Rabs), list(self.ovr), len(self.lemmas),
                self.ndepth, list(self.prefix), self.cblk, dict(self.etime), len(self.log), dict(self.locals), dict(self.cvs))

    def restore(self, s):
        self.env, self.events, self.Rabs, self.ovr, self.ndepth, self.prefix, self.cblk, self.etime, self.locals, self.cvs = \
            s[0], s[1], s[4], s[5], s[7], s[8], s[9], s[10], s[12], s[13]
        del self.rets[s[2]:]
        del self.rets_t[s[3]:]
        del self.lemmas[s[6]:]
        self.trunc(s[11])

    def concrete(self, h, entries):
        """evaluate the loop iteration by iteration; None when its exit is not decided"""
        body = self.loops[h]
        sv = self.snap()
        edges = list(entries)
        exits, envs = [], []
        defs = [i['id'] for b in body for i in self.blocks[b] if 'id' in i]
        for it in range(self.unroll):
            new = {}
            for i in self.blocks[h]:
                if i['op'] == 'phi':
                    new[i['id']] = self.phi(i, edges)
            self.env.update(new)
            ex, back = super().region(h, body, h, edges)
            for d in defs:
                e = self.events.pop(d, None)
                if e is not None:
                    ins = dict(e[3], id='%s.%d' % (e[3]['id'], it))
                    self.events[ins['id']] = e[:3] + (ins,)
                    if d in self.etime:
                        self.etime[ins['id']] = self.etime[d]
                    if d in self.cvs:
                        self.cvs[ins['id']] = self.cvs[d]
            r = 0
            for u, v, c in ex:
                r = self.b.OR(r, c)
            exits += ex
            envs.append((r, {d: self.env[d] for d in defs if d in self.env}))
            edges = [(u, c) for u, c in back if c]
            if not edges:
                live = [x for x in envs if x[0]]
                if len(live) > 1:
                    for d in defs:
                        vs = [(r, e[d]) for r, e in live if d in e]
                        if not vs or all(v is vs[0][1] for _, v in vs):
                            continue
                        if any(v is None or isinstance(v, tuple) for _, v in vs):
                            g = 0
                            for r, v in vs:
                                if v is not None:
                                    g = self.b.OR(g, self.b.AND(r, self.asbool(v)))
                            self.env[d] = ('b', g)
                            continue
                        cs = []
                        acc = 0
                        for r, v in vs:
                            for c, t in self.ascases(v):
                                cc = self.b.AND(r, c)
                                if cc:
                                    cs.append((cc, t))
                        self.env[d] = self.merge(cs)
                return exits
        self.restore(sv)
        return None

    def loop(self, h, entries):
        if self.unroll and not self.marks:
            r = self.concrete(h, entries)
            if r is not None:
                return r
        mark = len(self.log)
        self.marks.append((h, mark))
        res = super().loop(h, entries)
        self.marks.pop()
        body = [w for w in self.log[mark:] if w.kind != 'loophead']
        if body:
            R0 = 0
            for _, c in entries:
                R0 = self.b.OR(R0, c)
            for p in self.prefix:
                R0 = self.b.AND(R0, p)
            self.loopnotes = getattr(self, 'loopnotes', [])
            by = {}
            for w in body:
                by.setdefault(w.base, []).append(w)
            self.trunc(mark)
            for base, ws in sorted(by.items()):
                txt = '; '.join('%s[%s%+d%s]:%s := %s' % (w.kind, base, w.off, ''.join('+%d*%s' % x for x in w.idx), w.size,
                                self.opaque_ite(w.val).s if w.val else w.src.s if w.src is not None else w.tag) for w in ws)
                offs = [w.off for w in ws]
                fixed = all(not w.idx and w.size for w in ws)
                if fixed:
                    lo = min(offs)
                    hi = max(w.off + w.size for w in ws)
                    self.push(W(R0, 'havoc', base, lo, (), hi - lo, tag='loop{%s}' % hsh(txt), ins=ws[-1].ins))
                else:
                    ext = [(self.extent(w.base, w.off, w.idx) if w.idx else (w.off, w.off + w.size) if w.size else None) for w in ws] if self.inbounds else [None]
                    if None in ext:
                        self.push(W(R0, 'havoc', base, 0, (), None, tag='loop{%s}' % hsh(txt), ins=ws[-1].ins))
                    else:
                        for lo, hi in sorted(set(ext)):
                            self.push(W(R0, 'havoc', base, lo, (), hi - lo, tag='loop{%s}' % hsh(txt), ins=ws[-1].ins))
                self.loopnotes.append((base, txt))
        return res

    # ---- results
    def leaves(self, t, off=0, pre='', cap=256):
        """(offset, size, ir type, name) of the scalar leaves of type t"""
        t = self.m.strip(t)
        if t < 0:
            return
        x = self.m.types[t]
        if x['kind'] == 'struct':
            for n, o, s, mt in x['mem']:
                yield from self.leaves(mt, off + o, pre + ('' if n == '<base>' else '.' + n))
        elif x['kind'] == 'union':
            big = max(x['mem'], key=lambda m: m[2]) if x['mem'] else None
            if big:
                ms = [m for m in x['mem'] if m[2] == big[2]]
                m0 = [m for m in ms if (self.m.T(m[3]) or {}).get('kind') in ('ptr',)] or ms
                yield from self.leaves(m0[0][3], off + m0[0][1], pre + '.' + m0[0][0])
        elif x['kind'] == 'array':
            n = 1
            for d in x['dims']:
                n *= max(d, 0)
            et = self.m.strip(x['base'])
            es = self.m.types[et]['size']
            for k in range(min(n, cap)):
                yield from self.leaves(et, off + k * es, pre + '[%d]' % k)
        elif x['kind'] in ('ptr', 'ref'):
            yield off, 8, 'ptr', pre
        elif x['kind'] in ('basic', 'enum'):
            if x['kind'] == 'basic' and x.get('enc') == 4:
                yield off, x['size'], 'float' if x['size'] == 4 else 'double', pre
            else:
                yield off, x['size'], 'i%d' % (8 * x['size']), pre

    def read(self, t, off, size, ty, upto, R=1):
        u = self.addr(t, off, [])
        self.remember(t)
        b, o, ix = self.key(u)
        cs = self.merge(self.resolve(b, o, ix, size, ty, upto, R, u))
        return cs

    def text(self, cases, R=1):
        """canonical text of guarded cases"""
        cs = [(self.b.simplify(c, R) if R not in (0, 1) else c, t) for c, t in cases if self.b.AND(c, R)]
        if len(cs) == 1:
            return cs[0][1].s
        return ' | '.join(sorted('%s when %s' % (t.s, self.b.show(c)) for c, t in cs))


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def read_init(v, off, size):
    k = v[0]
    if k == 'z':
        return 0
    if k == 'c':
        w = max(v[2] // 8, 1)
        if off == 0 and size == w:
            return v[1]
        if off + size <= w:
            r = (v[1] >> (8 * off)) & ((1 << 8 * size) - 1)
            return r - (1 << 8 * size) if r >> (8 * size - 1) else r
        return None
    if k == 'n':
        return 0
    if k == 'da':
        w = v[1]
        if not w:
            return None
        if size == w and off % w == 0 and off // w < len(v[2]):
            return v[2][off // w]
        if size > w and size % w == 0 and off % w == 0:
            r = 0
            for j in range(size // w - 1, -1, -1):
                if off // w + j >= len(v[2]):
                    return None
                r = (r << (8 * w)) | (v[2][off // w + j] & ((1 << 8 * w) - 1))
            return r - (1 << 8 * size) if r >> (8 * size - 1) else r
        return None
    if k == 'agg':
        best = None
        for o, e in v[1]:
            if o <= off:
                best = (o, e)
        if best:
            return read_init(best[1], off - best[0], size)
        return None
    if k in ('g', 'f') and off == 0:
        return v
    return None
