"""Abstract interpretation of small integer functions: value-partitioned by path, with an octagon over the arguments and
every value in closed form 2^k * floor((a.x + c) / 2^m) over the mathematical integers (or an opaque term).

A path ends with a returned term; the regions of all paths partition the arguments.  Branches on comparisons split the region
exactly where the comparison is linear.  Nothing is executed: conditions, ranges and overflow are decided on the abstract
region; a difference is only reported where an extreme point of the region satisfies every recorded condition."""
import re


class Giveup(Exception):
    pass


def const(v):
    return ('L', (), v, 0, 0)


def var(n):
    return ('L', ((n, 1),), 0, 0, 0)


def isc(t):
    return t[0] == 'L' and not t[1]


def L(co, c, m, k):
    co = tuple(sorted((v, a) for v, a in co.items() if a))
    while m and all(a % 2 == 0 for v, a in co):
        co = tuple((v, a // 2) for v, a in co)
        c >>= 1
        m -= 1
    if not m and k:
        co = tuple((v, a << k) for v, a in co)
        c, k = c << k, 0
    return ('L', co, c, m, k)


def O(op, *args):
    return ('O', op) + args


def ev(t, pt):
    if t[0] == 'L':
        return ((sum(a * pt[v] for v, a in t[1]) + t[2]) >> t[3]) << t[4]
    op, a = t[1], t[2:]
    if op == 'bits':
        return ((ev(a[0], pt) >> a[1]) & ((1 << (a[2] - a[1])) - 1)) << a[3]
    if op == 'wrap':
        return wrapv(ev(a[0], pt), a[1])
    x, y = ev(a[0], pt), ev(a[1], pt)
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'mul':
        return x * y
    if op in ('and', 'or', 'xor'):
        return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
    if op == 'shl':
        return x << y if 0 <= y < 256 else 0
    if op == 'ashr':
        return x >> y if y >= 0 else 0
    if op == 'sdiv':
        return 0 if not y else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
    raise Giveup('eval ' + op)


def wrapv(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def t_addc(t, d):
    if d == 0:
        return t
    if t[0] == 'L':
        co, c, m, k = dict(t[1]), t[2], t[3], t[4]
        if not m:
            return L(co, c + d, 0, 0)
        if d % (1 << k) == 0:
            return L(co, c + ((d >> k) << m), m, k)
    if t[0] == 'O' and t[1] == 'add' and isc(t[3]):
        return t_addc(t[2], t[3][2] + d)
    return O('add', t, const(d))


def t_add(a, b):
    if isc(b):
        return t_addc(a, b[2])
    if isc(a):
        return t_addc(b, a[2])
    if a[0] == b[0] == 'L':
        if a[3] and not b[3]:
            a, b = b, a
        if not a[3] and (not b[3] or b[4] == 0):
            m = b[3]
            co = dict(b[1])
            for v, x in a[1]:
                co[v] = co.get(v, 0) + (x << m)
            return L(co, b[2] + (a[2] << m), m, 0)
    return O('add', *sorted((a, b), key=repr))


def t_neg(t):
    if t[0] == 'L':
        if not t[3]:
            return L({v: -a for v, a in t[1]}, -t[2], 0, 0)
        if not t[4]:
            return L({v: -a for v, a in t[1]}, -t[2] + (1 << t[3]) - 1, t[3], 0)
    return O('sub', const(0), t)


def t_sub(a, b):
    if isc(b):
        return t_addc(a, -b[2])
    if b[0] == 'L' and (not b[3] or not b[4]):
        return t_add(a, t_neg(b))
    return O('sub', a, b)


def t_mulc(t, d):
    if d == 0:
        return const(0)
    if d == 1:
        return t
    if t[0] == 'L':
        if not t[3]:
            return L({v: a * d for v, a in t[1]}, t[2] * d, 0, 0)
        if d > 0 and d & (d - 1) == 0:
            return L(dict(t[1]), t[2], t[3], t[4] + d.bit_length() - 1)
    return O('mul', t, const(d))


def t_mul(a, b):
    if isc(b):
        return t_mulc(a, b[2])
    if isc(a):
        return t_mulc(b, a[2])
    return O('mul', *sorted((a, b), key=repr))


def t_ashr(t, s):
    if s == 0:
        return t
    if t[0] == 'L':
        co, c, m, k = dict(t[1]), t[2], t[3], t[4]
        if k >= s:
            return L(co, c, m, k - s)
        return L(co, c, m + s - k, 0)
    return O('ashr', t, const(s))


class Oct:
    """octagon over integer variables: b[i][j] bounds V_i - V_j with V_2k = v_k, V_2k+1 = -v_k; None when unbounded"""
    __slots__ = ('vs', 'b', 'empty')

    def __init__(self, vs, b=None):
        self.vs = vs
        n = 2 * len(vs)
        self.b = [r[:] for r in b] if b else [[0 if i == j else None for j in range(n)] for i in range(n)]
        self.empty = False

    def copy(self):
        o = Oct(self.vs, self.b)
        o.empty = self.empty
        return o

    def close(self):
        b, n = self.b, len(self.b)
        for k in range(n):
            bk = b[k]
            for i in range(n):
                x = b[i][k]
                if x is None:
                    continue
                bi = b[i]
                for j in range(n):
                    if bk[j] is not None and (bi[j] is None or x + bk[j] < bi[j]):
                        bi[j] = x + bk[j]
        for i in range(n):
            if b[i][i ^ 1] is not None:
                b[i][i ^ 1] -= b[i][i ^ 1] & 1
        for i in range(n):
            for j in range(n):
                if b[i][i ^ 1] is not None and b[j ^ 1][j] is not None:
                    v = (b[i][i ^ 1] + b[j ^ 1][j]) // 2
                    if i != j and (b[i][j] is None or v < b[i][j]):
                        b[i][j] = v
        for i in range(n):
            if b[i][i] < 0 or (b[i][i ^ 1] is not None and b[i ^ 1][i] is not None and b[i][i ^ 1] + b[i ^ 1][i] < 0):
                self.empty = True
            b[i][i] = 0

    def le(self, co, c):
        """add  sum co.v <= c ; True when representable"""
        it = [(self.vs.index(v), a) for v, a in co if a]
        if not it:
            if c < 0:
                self.empty = True
            return True
        g = abs(it[0][1])
        if len(it) > 2 or any(abs(a) != g for _, a in it):
            return False
        c //= g
        n = [2 * i if a > 0 else 2 * i + 1 for i, a in it]
        if len(n) == 1:
            self._set(n[0], n[0] ^ 1, 2 * c)
        else:
            self._set(n[0], n[1] ^ 1, c)
            self._set(n[1], n[0] ^ 1, c)
        self.close()
        return True

    def _set(self, i, j, c):
        if self.b[i][j] is None or c < self.b[i][j]:
            self.b[i][j] = c

    def hi(self, co):
        """upper bound of a linear form"""
        it = [(self.vs.index(v), a) for v, a in co if a]
        s = 0
        for i, a in it:
            u = self.b[2 * i][2 * i + 1] if a > 0 else self.b[2 * i + 1][2 * i]
            if u is None:
                return None
            s += (u // 2) * abs(a)
        if len(it) == 2 and abs(it[0][1]) == abs(it[1][1]):
            n = [2 * i if a > 0 else 2 * i + 1 for i, a in it]
            u = self.b[n[0]][n[1] ^ 1]
            if u is not None:
                s = min(s, u * abs(it[0][1]))
        return s

    def lo(self, co):
        h = self.hi([(v, -a) for v, a in co])
        return None if h is None else -h

    def rng(self, v):
        return self.lo([(v, 1)]), self.hi([(v, 1)])

    def meet(self, o):
        r = self.copy()
        for i in range(len(r.b)):
            for j in range(len(r.b)):
                if o.b[i][j] is not None:
                    r._set(i, j, o.b[i][j])
        r.empty = self.empty or o.empty
        if not r.empty:
            r.close()
        return r


NEG = {'<=': '>', '>': '<=', '==': '!=', '!=': '=='}


class Reg:
    """a region: octagon plus every condition taken"""

    def __init__(self, oct_, cons=()):
        self.o, self.cons = oct_, tuple(cons)

    def copy(self):
        return Reg(self.o.copy(), self.cons)

    def rng(self, t):
        if t[0] == 'L':
            lo, hi = self.o.lo(t[1]), self.o.hi(t[1])
            return ((lo + t[2]) >> t[3]) << t[4], ((hi + t[2]) >> t[3]) << t[4]
        op, a = t[1], t[2:]
        if op == 'bits':
            return 0, ((1 << (a[2] - a[1])) - 1) << a[3]
        if op == 'wrap':
            return -(1 << (a[1] - 1)), (1 << (a[1] - 1)) - 1
        (l1, h1), (l2, h2) = self.rng(a[0]), self.rng(a[1])
        if op == 'add':
            return l1 + l2, h1 + h2
        if op == 'sub':
            return l1 - h2, h1 - l2
        if op == 'mul':
            x = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return min(x), max(x)
        if op == 'ashr' and l2 == h2 and l2 >= 0:
            return l1 >> l2, h1 >> l2
        if op == 'and' and (l1 >= 0 or l2 >= 0):
            return 0, min(h for l, h in ((l1, h1), (l2, h2)) if l >= 0)
        m = max(abs(x) for x in (l1, h1, l2, h2)).bit_length() + 1
        if op in ('and', 'or', 'xor'):
            return -(1 << m), (1 << m) - 1
        if op == 'sdiv':
            m = max(abs(l1), abs(h1))
            return -m, m
        return -(1 << 200), 1 << 200

    def assume(self, a, op, b):
        """this region with the condition, or None when it excludes everything; op is <= > == !="""
        if op == '>':                       # a > b  ->  b + 1 <= a
            return self.assume(t_addc(b, 1), '<=', a)
        if a[0] == 'O' and a[1] == 'bits' and isc(b) and b[2] == 0 and op in ('==', '!='):
            a = O('bits', a[2], a[3], a[4], 0)
        if op == '!=' and a[0] == b[0] == 'L':
            raise Giveup('linear disequality')
        (l1, h1), (l2, h2) = self.rng(a), self.rng(b)
        if op == '<=' and l1 > h2 or op == '==' and (l1 > h2 or l2 > h1) or op == '!=' and l1 == h1 == l2 == h2:
            return None
        if op == '<=' and h1 <= l2 or op == '==' and l1 == h1 == l2 == h2 or op == '!=' and (l1 > h2 or l2 > h1):
            return self
        if (a, NEG[op], b) in self.cons:
            return None
        r = Reg(self.o.copy(), self.cons if (a, op, b) in self.cons else self.cons + ((a, op, b),))
        if op in ('<=', '=='):
            r._le(a, b)
        if op == '==':
            r._le(b, a)
        return None if r.o.empty else r

    def _le(self, a, b):
        if a[0] != 'L' or b[0] != 'L':
            return
        if isc(b):
            self.o.le(a[1], (((b[2] >> a[4]) + 1) << a[3]) - 1 - a[2])
        elif isc(a):
            f = -((-a[2]) >> b[4])
            self.o.le([(v, -x) for v, x in b[1]], b[2] - (f << b[3]))
        else:
            d = t_sub(a, b)
            if d[0] == 'L' and not d[4]:
                self.o.le(d[1], (1 << d[3]) - 1 - d[2])

    def split(self, a, op, b):
        """(regions where it holds, regions where it does not)"""
        if op == '==' and a[0] == b[0] == 'L':
            t = [self.assume(a, '==', b)]
            f = [self.assume(t_addc(a, 1), '<=', b), self.assume(t_addc(b, 1), '<=', a)]
        else:
            t, f = [self.assume(a, op, b)], [self.assume(a, NEG[op], b)]
        return [x for x in t if x], [x for x in f if x]

    def sat(self, pt):
        for a, op, b in self.cons:
            x, y = ev(a, pt), ev(b, pt)
            if not {'<=': x <= y, '>': x > y, '==': x == y, '!=': x != y}[op]:
                return False
        return True

    def points(self, terms=()):
        """extreme points that satisfy every condition of the region"""
        if self.o.empty:
            return
        grid = set()

        def collect(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] == 'L':
                if t[3] and len(t[1]) == 1:
                    grid.add((t[1][0][1], t[2], t[3]))
                return
            if t and t[0] == 'O' and t[1] == 'bits' and t[2][0] == 'L' and len(t[2][1]) == 1:
                for m in (t[3], t[4]):
                    grid.add((t[2][1][0][1], t[2][2] , m + t[2][3]))
            for x in t:
                collect(x)
        for c in self.cons:
            collect(c[0])
            collect(c[2])
        for t in terms:
            collect(t)

        def cand(lo, hi):
            base = [lo, hi, (lo + hi) // 2, 0]
            out = []
            for x in base:
                out += [x, x + 1, x - 1]
            for x in base:
                for a, c, m in sorted(grid):
                    y0 = ((x + (c if a > 0 else -c)) >> m << m) - (c if a > 0 else -c)
                    h = (1 << m) >> 1
                    for d in (0, h):
                        for e in (-1, 0, 1):
                            for q in (-(2 << m), -(1 << m), 0, 1 << m, 2 << m):
                                out.append(y0 + d + e + q)
            seen = set()
            for x in out:
                if lo <= x <= hi and x not in seen:
                    seen.add(x)
                    yield x

        def rec(o, pt, rest):
            if not rest:
                if self.sat(pt):
                    yield dict(pt)
                return
            v = rest[0]
            lo, hi = o.rng(v)
            for x in cand(lo, hi):
                o2 = o.copy()
                o2.le([(v, 1)], x)
                o2.le([(v, -1)], -x)
                if not o2.empty:
                    pt[v] = x
                    yield from rec(o2, pt, rest[1:])
                    pt.pop(v, None)
        vs = list(self.o.vs)
        for order in ([vs] if len(vs) < 2 else [vs, vs[::-1]]):
            yield from rec(self.o, {}, order)


def width(ty):
    m = re.match(r'i(\d+)$', ty)
    if not m:
        raise Giveup('type ' + ty)
    return int(m.group(1))


class Interp:
    LIMIT = 60000

    def __init__(self, fn):
        self.fn = fn
        self.alarms = []        # (kind, ins, region, term, point)
        self.paths = []         # (region, term, ins)
        self.steps = 0

    def run(self, env, reg):
        """env: argument index -> term"""
        self.args = env
        work = [(reg, {}, 0, None, 0)]
        while work:
            reg, e, b, prev, i = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Giveup('too many steps')
                ins = self.fn['blocks'][b][i]
                op = ins['op']
                if op == 'phi':
                    vals = {}
                    while self.fn['blocks'][b][i]['op'] == 'phi':
                        p = self.fn['blocks'][b][i]
                        vals[p['id']] = self.val(e, dict((x[0], x[1]) for x in p['in'])[prev], p['ty'])
                        i += 1
                    e = dict(e)
                    e.update(vals)
                    continue
                if op == 'br':
                    if ins['ops']:
                        c = self.val(e, ins['ops'][0], 'i1')
                        if not isc(c):
                            raise Giveup('branch')
                        nb = ins['succ'][0 if c[2] else 1]
                    else:
                        nb = ins['succ'][0]
                    prev, b, i = b, nb, 0
                    continue
                if op == 'switch':
                    v = self.val(e, ins['ops'][0], 'i32')
                    rest = [reg]
                    for cv, t in ins['cases']:
                        nr = []
                        for r in rest:
                            y, n = r.split(v, '==', const(int(cv)))
                            work += [(x, e, t, b, 0) for x in y]
                            nr += n
                        rest = nr
                    work += [(x, e, ins['def'], b, 0) for x in rest]
                    break
                if op == 'ret':
                    self.paths.append((reg, self.val(e, ins['ops'][0], None) if ins['ops'] else const(0), ins))
                    break
                if op == 'unreachable':
                    break
                outs = self.step(reg, e, ins)
                if len(outs) == 1:
                    reg, v = outs[0]
                    e[ins['id']] = v
                    i += 1
                    continue
                for r, v in outs:
                    e2 = dict(e)
                    e2[ins['id']] = v
                    work.append((r, e2, b, prev, i + 1))
                break
        return self

    def val(self, e, v, ty):
        k = v[0]
        if k == 'v' or k == 'i':
            return e[v[1]]
        if k == 'a':
            return self.args[v[1]]
        if k == 'c':
            return const(v[1])
        if k == 'u':
            return const(0)
        raise Giveup('operand ' + str(v)[:40])

    def fit(self, reg, t, w, nsw, ins, tag='signed overflow'):
        mx, mn = (1 << (w - 1)) - 1, -(1 << (w - 1))
        lo, hi = reg.rng(t)
        if mn <= lo and hi <= mx:
            return [(reg, t)]
        if nsw:
            out = []
            ok = reg.assume(t, '<=', const(mx))
            ok = ok and ok.assume(const(mn), '<=', t)
            for bad in (reg.assume(const(mx + 1), '<=', t), reg.assume(t, '<=', const(mn - 1))):
                if bad:
                    pt = next((p for p in bad.points((t,)) if not mn <= ev(t, p) <= mx), None)
                    if pt is not None:
                        self.alarms.append((tag, ins, bad, t, pt))
                    else:
                        self.alarms.append(('unproven', ins, bad, t, None))
            return [(ok, t)] if ok else []
        half = 1 << (w - 1)
        w0, w1 = (lo + half) >> w, (hi + half) >> w
        if w1 - w0 <= 3 and t[0] == 'L':
            out = []
            for q in range(w0, w1 + 1):
                r = reg.assume(t, '<=', const(mx + (q << w)))
                r = r and r.assume(const(mn + (q << w)), '<=', t)
                if r:
                    out.append((r, t_addc(t, -(q << w))))
            return out
        return [(reg, O('wrap', t, w))]

    def unsign(self, reg, t, w):
        """t read as unsigned: [(region, term)]"""
        lo, hi = reg.rng(t)
        if lo >= 0:
            return [(reg, t)]
        if hi < 0:
            return [(reg, t_addc(t, 1 << w))]
        y, n = reg.split(t, '<=', const(-1))
        return [(r, t_addc(t, 1 << w)) for r in y] + [(r, t) for r in n]

    def step(self, reg, e, ins):
        op = ins['op']
        if op in ('load', 'store', 'alloca', 'getelementptr', 'fcmp', 'sitofp', 'fptosi'):
            raise Giveup(op)
        if op == 'call':
            return self.call(reg, e, ins)
        if op == 'freeze':
            return [(reg, self.val(e, ins['ops'][0], None))]
        if op == 'extractvalue':
            return [(reg, self.val(e, ins['ops'][0], None)[ins['idx'][0]])]
        if op == 'select':
            c, a, b = [self.val(e, x, None) for x in ins['ops']]
            if not isc(c):
                raise Giveup('select')
            return [(reg, a if c[2] else b)]
        if op == 'icmp':
            w = width(ins['oty'])
            a, b = [self.val(e, x, None) for x in ins['ops']]
            if w == 1:
                a, b = [const(x[2] & 1) for x in (a, b)]
            p = ins['pred']
            st = [(reg, a, b)]
            if p[0] == 'u':
                st = [(r2, x, y) for r, x in self.unsign(reg, a, w) for r2, y in self.unsign(r, b, w)]
                p = 's' + p[1:]
            out = []
            for r, x, y in st:
                if p == 'sge':
                    yes, no = r.split(y, '<=', x)
                elif p == 'sle':
                    yes, no = r.split(x, '<=', y)
                elif p == 'slt':
                    no, yes = r.split(y, '<=', x)
                elif p == 'sgt':
                    no, yes = r.split(x, '<=', y)
                else:
                    yes, no = r.split(x, '==', y)
                    if p == 'ne':
                        yes, no = no, yes
                out += [(q, const(1)) for q in yes] + [(q, const(0)) for q in no]
            return out
        w = width(ins['ty'])
        if op in ('trunc', 'zext', 'sext'):
            t = self.val(e, ins['ops'][0], None)
            w0 = width(ins['oty'])
            if w0 == 1:
                return [(reg, const((t[2] & 1) * (1 if op == 'zext' else -1)))]
            if op == 'sext':
                return [(reg, t)]
            if op == 'zext':
                return self.unsign(reg, t, w0)
            if w == 1:
                st = self.band(reg, t, 1, w0)
                return [(q, const(v)) for r, x in st for v, qs in zip((0, 1), r.split(x, '==', const(0))) for q in qs]
            return self.fit(reg, t, w, False, ins)
        a, b = [self.val(e, x, None) for x in ins['ops']]
        nsw = ins.get('nsw')
        if w == 1:
            if not (isc(a) and isc(b)):
                raise Giveup('boolean')
            x, y = a[2] & 1, b[2] & 1
            if op in ('and', 'or', 'xor'):
                return [(reg, const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op]))]
            raise Giveup(op + ' i1')
        if op == 'add':
            return self.fit(reg, t_add(a, b), w, nsw, ins)
        if op == 'sub':
            return self.fit(reg, t_sub(a, b), w, nsw, ins)
        if op == 'mul':
            return self.fit(reg, t_mul(a, b), w, nsw, ins)
        if op in ('shl', 'ashr', 'lshr'):
            if not isc(b):
                lo, hi = reg.rng(b)
                if lo == hi:
                    b = const(lo)
                elif lo >= w or hi < 0:
                    b = const(lo)
                else:
                    raise Giveup('shift by a variable amount')
            s = b[2]
            if not 0 <= s < w:
                pt = next(iter(reg.points()), None)
                self.alarms.append(('shift by %d of a %d bit value' % (s, w) if pt is not None else 'unproven', ins, reg, a, pt))
                return []
            if op == 'shl':
                return self.fit(reg, t_mulc(a, 1 << s), w, nsw, ins)
            if op == 'ashr' or s == 0:
                return [(reg, t_ashr(a, s))]
            return [x for r, t in self.unsign(reg, a, w) for x in self.fit(r, t_ashr(t, s), w, False, ins)]
        if op in ('and', 'or', 'xor'):
            if isc(a) and isc(b):
                return [(reg, const(wrapv({'and': a[2] & b[2], 'or': a[2] | b[2], 'xor': a[2] ^ b[2]}[op], w)))]
            if isc(a):
                a, b = b, a
            if op == 'and' and isc(b):
                return self.band(reg, a, b[2], w)
            if op == 'xor' and isc(b) and b[2] == -1:
                return [(reg, t_addc(t_neg(a), -1))]
            if isc(b) and b[2] == 0:
                return [(reg, a)]
            return [(reg, O(op, a, b))]
        if op in ('sdiv', 'srem') and isc(b) and b[2] > 0 and b[2] & (b[2] - 1) == 0:
            s = b[2].bit_length() - 1
            neg, pos = reg.split(a, '<=', const(-1))
            out = [(r, t_ashr(a, s)) for r in pos] + [(r, t_neg(t_ashr(t_neg(a), s))) for r in neg]
            if op == 'srem':
                out = [(r, t_sub(a, t_mulc(q, b[2]))) for r, q in out]
            return out
        raise Giveup(op)

    def band(self, reg, t, mask, w):
        if mask == 0:
            return [(reg, const(0))]
        if mask == -1:
            return [(reg, t)]
        lo, hi = reg.rng(t)
        if mask < 0 and (-mask) & (-mask - 1) == 0:                 # clear the low bits
            s = (-mask).bit_length() - 1
            return [(reg, t_mulc(t_ashr(t, s), 1 << s))]
        if mask < 0:
            mask &= (1 << w) - 1
        a = (mask & -mask).bit_length() - 1
        n = mask >> a
        if n & (n + 1):
            return [(reg, O('and', t, const(mask)))]
        b = a + n.bit_length()
        if b == w:                                                  # reaches the sign bit
            return [(reg, O('wrap', self._bits(t, a, b), w))]
        if a == 0 and lo >= 0 and hi < 1 << b:
            return [(reg, t)]
        if lo >> b == hi >> b:                                      # one period: linear
            t2 = t_addc(t, -((lo >> b) << b))
            return [(reg, t_mulc(t_ashr(t2, a), 1 << a))]
        return [(reg, self._bits(t, a, b))]

    def _bits(self, t, a, b):
        if t[0] == 'L' and t[4] == 0:
            y, m = ('L', t[1], t[2], 0, 0), t[3]
            return O('bits', y, a + m, b + m, a)
        return O('bits', t, a, b, a)

    def call(self, reg, e, ins):
        n = ins.get('callee') or ''
        args = [self.val(e, x, None) for x in ins['ops']] if n.startswith('llvm.') else None
        r = re.match(r'llvm\.s(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if r:
            w = int(r.group(2))
            t = {'add': t_add, 'sub': t_sub, 'mul': t_mul}[r.group(1)](*args)
            mx, mn = (1 << (w - 1)) - 1, -(1 << (w - 1))
            out = []
            for q, bad in ((reg.assume(t, '<=', const(mx)), 0), (reg.assume(const(mx + 1), '<=', t), 1)):
                if q and bad:
                    out += [(q2, (x, const(1))) for q2, x in self.fit(q, t, w, False, ins)]
                elif q:
                    y, no = q.split(const(mn), '<=', t)
                    out += [(z, (t, const(0))) for z in y]
                    for z in no:
                        out += [(q2, (x, const(1))) for q2, x in self.fit(z, t, w, False, ins)]
            return out
        if re.match(r'llvm\.s(max|min)\.', n):
            a, b = args
            y, no = reg.split(a, '<=', b)
            if 'min' in n:
                a, b = b, a
            return [(q, b) for q in y] + [(q, a) for q in no]
        if n.startswith('llvm.abs.'):
            y, no = reg.split(args[0], '<=', const(-1))
            w = width(ins['ty'])
            return [z for q in y for z in self.fit(q, t_neg(args[0]), w, False, ins)] + [(q, args[0]) for q in no]
        if n.startswith('llvm.assume') or n.startswith('llvm.dbg'):
            return [(reg, const(0))]
        raise Giveup('call ' + n[:60])


def text(t):
    if t[0] == 'L':
        s = ''
        for v, a in t[1]:
            s += (' + ' if a > 0 else ' - ') if s else ('' if a > 0 else '-')
            s += (v if abs(a) == 1 else '%d*%s' % (abs(a), v))
        if t[2] or not s:
            s = s + (' + ' if t[2] > 0 else ' - ') + str(abs(t[2])) if s else str(t[2])
        if t[3]:
            s = '(%s) >> %d' % (s, t[3])
        if t[4]:
            s = '(%s) << %d' % (s, t[4])
        return s
    return '%s(%s)' % (t[1], ', '.join(text(x) if isinstance(x, tuple) else str(x) for x in t[2:]))


def show(reg):
    out = []
    for v in reg.o.vs:
        lo, hi = reg.o.rng(v)
        out.append('%s = %d' % (v, lo) if lo == hi else '%s in [%d, %d]' % (v, lo, hi))
    return ', '.join(out)
