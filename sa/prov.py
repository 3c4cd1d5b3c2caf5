"""Which memory a function may read and write, as access paths from its parameters.

Compositional: each function (per constant integer arguments) gets one summary (reads, writes, pointers kept at exit, returned
pointers) in terms of objects: ('a', k) what parameter k points to; ('d', o, off) what the pointer kept in o at off points to; ('g', name) a global;
('l', fn, id) a local variable.  A pointer is a set of (object, off, stride): stride 0 is the one place, otherwise off + n * stride.
A call substitutes the caller's pointers for the callee's parameters.  Inside a function the pointers that memory holds are
followed in control-flow order, a store to one known place replacing what was there; distinct parameters are distinct objects.
"""
import math, sys
from collections import defaultdict
sys.setrecursionlimit(100000)
CAP, DEEP = 6, 5
U = -1         # a stride that is not known: anywhere in the object


def depth(o):
    n = 0
    while o[0] == 'd':
        n, o = n + 1, o[1]
    return n


def root(o):
    while o[0] == 'd':
        o = o[1]
    return o


class Summary:
    def __init__(self):
        self.reads, self.writes, self.pts, self.ret = {}, {}, {}, set()


class Prov:
    def __init__(self, dump):
        self.fns = {f['name']: f for f in dump['functions']}
        self.types = dump['types']
        self.globals = {g['name']: g for g in dump.get('globals', [])}
        self.sums = {}
        self.active = []
        self.recursion = set()
        self.external = defaultdict(list)
        self.indirect = []

    def summary(self, name, consts=()):
        k = (name, consts)
        if k in self.sums:
            return self.sums[k]
        if k in self.active:
            self.recursion.add(tuple(x[0] for x in self.active[self.active.index(k):]))
            return Summary()
        self.active.append(k)
        s = Fn(self, self.fns[name], dict(consts)).run()
        self.active.pop()
        self.sums[k] = s
        return s


def fold(o, l):
    if len(l) == 1:
        return {l[0]}
    if any(x[2] == U for x in l):
        return {(o, 0, U)}
    st = [x for x in l if x[2]]
    l = [x for x in l if not any(x != y and x[1] >= y[1] and (x[1] - y[1]) % y[2] == 0 and x[2] % y[2] == 0 for y in st)]
    if len(l) <= CAP:
        return set(l)
    lo = min(x[1] for x in l)
    g = 0
    for x in l:
        g = math.gcd(g, math.gcd(x[1] - lo, x[2]))
    if any(x[1] > lo for x in l if x[2]) or not g:      # still growing downwards
        return {(o, 0, U)}
    return {(o, lo, g)}


def norm(vs):
    """bound the number of places per object"""
    by = defaultdict(list)
    for v in vs:
        by[v[0]].append(v)
    out = set()
    for o, l in by.items():
        out |= fold(o, l)
    return out


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def succs(t):
    if t['op'] == 'switch':
        return [t['def']] + [b for _, b in t['cases']]
    return t.get('succ') or []


class Fn:
    def __init__(self, P, f, consts):
        self.P, self.f = P, f
        self.v = defaultdict(set)
        self.k = {}                                     # constants
        self.consts = consts
        self.s = Summary()
        self.blocks = [b if isinstance(b, list) else b['ins'] for b in f['blocks']]
        self.state = {0: {}}
        self.exits = []

    # state: {(object, offset, stride): pointers}.  A missing key of an object that the function did not make is what was there at entry
    def default(self, k):
        return self.initial(k[0], k[1], k[2])

    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x = a[k] if k in a else (frozenset() if k[2] else self.default(k))
            y = b[k] if k in b else (frozenset() if k[2] else self.default(k))
            r[k] = x if x == y else norm(frozenset(x) | frozenset(y))
        return r

    def run(self):
        n, again = 0, True
        self.edges = set()
        order = self.order()
        while again:
            n += 1
            if n > 60:
                raise RuntimeError('no fixpoint in ' + self.f['name'])
            again = False
            for b in order:
                if b not in self.state:
                    continue
                self.changed = False
                self.cur = dict(self.state[b])
                for i in self.blocks[b]:
                    self.ins(i)
                t = self.blocks[b][-1]
                again = again or self.changed
                if t['op'] in ('ret', 'unreachable'):
                    continue
                for j in self.targets(t):
                    new = self.join(self.state[j], self.cur) if j in self.state else dict(self.cur)
                    if (b, j) not in self.edges or j not in self.state or new != self.state[j]:
                        self.edges.add((b, j))
                        self.state[j] = new
                        again = True
        s, keep = self.s, Summary()
        loc = lambda o: root(o)[0] == 'l'
        keep.reads = {k: v for k, v in s.reads.items() if not loc(k[0])}
        keep.writes = {k: v for k, v in s.writes.items() if not loc(k[0])}
        out = None
        for b in self.state:
            if self.blocks[b][-1]['op'] == 'ret':
                self.cur = dict(self.state[b])
                for i in self.blocks[b]:
                    self.ins(i)
                out = self.cur if out is None else self.join(out, self.cur)
        for k, v in (out or {}).items():
            if not loc(k[0]):
                v = {x for x in v if not loc(x[0])}
                if v and v != self.default(k):
                    keep.pts[k] = v
        keep.ret = {x for x in s.ret if not loc(x[0])}
        return keep

    def order(self):
        seen, out = set(), []

        def go(b):
            seen.add(b)
            for j in succs(self.blocks[b][-1]):
                if j not in seen:
                    go(j)
            out.append(b)
        go(0)
        return out[::-1]

    def targets(self, t):
        if t['op'] == 'br' and t['ops']:
            c = self.const(t['ops'][0])
            return t['succ'] if c is None else [t['succ'][0 if c & 1 else 1]]
        if t['op'] == 'switch':
            c = self.const(t['ops'][0])
            if c is None:
                return sorted({t['def']} | {b for _, b in t['cases']})
            for v, b in t['cases']:
                if v == c:
                    return [b]
            return [t['def']]
        return t['succ']

    def const(self, o):
        if o[0] == 'c':
            return sx(o[1], o[2])
        if o[0] == 'a':
            return self.consts.get(o[1])
        if o[0] == 'i':
            return self.k.get(o[1])
        return None

    def add(self, i, vs):
        cur = self.v[i['id']]
        new = norm(cur | vs)
        if new != cur:
            self.v[i['id']] = new
            self.changed = True

    def val(self, o):
        if o[0] == 'i':
            return self.v[o[1]]
        if o[0] == 'a':
            return {(('a', o[1]), 0, 0)} if self.f['args'][o[1]]['ty'] in ('ptr', 'i64') else set()
        if o[0] == 'g':
            return {(('g', o[1]), 0, 0)}
        return set()

    def rec(self, d, k, loc):
        if k not in d:
            d[k] = loc
            self.changed = True

    # ------------------------------------------------------------ memory
    def initial(self, o, off, st):
        if root(o)[0] == 'l':
            return frozenset()
        if depth(o) < DEEP:
            return frozenset({(('d', o, off if not st else None), 0, 0)})
        return frozenset({(o, 0, U)})

    def content(self, o, off, st):
        k = (o, off, st)
        if not st:
            r = self.cur.get(k)
            r = set(self.initial(o, off, 0) if r is None else r)
            for q, vs in self.cur.items():
                if q[0] == o and q[2]:
                    r |= vs
        else:
            r = set(self.initial(o, off, st))
            for q, vs in self.cur.items():
                if q[0] == o:
                    r |= vs
        return norm(r)

    def store(self, p, vs, weak=False):
        vs = norm(frozenset(vs))
        one = len(p) == 1 and not weak
        for o, off, st in p:
            k = (o, off, st)
            if one and not st and o[0] != 'g':
                self.cur[k] = vs
            else:
                old = self.cur.get(k)
                if old is None:
                    old = frozenset() if st else self.initial(o, off, 0)
                self.cur[k] = norm(frozenset(old) | vs)

    def copy(self, D, S, n):
        one = len(D) == 1
        exact = all(not x[2] for x in D | S)
        if not exact or n > 1024:
            vs = set()
            for o, off, st in S:
                vs |= self.content(o, off, U)
            if vs:
                self.store({(o, off, st or U) for o, off, st in D}, vs, True)
            return
        new = {}
        for off in range(0, n - 7, 8):
            vs = set()
            for o, f, _ in S:
                vs |= self.content(o, f + off, 0)
            new[off] = vs
        for off, vs in new.items():
            self.store({(o, f + off, 0) for o, f, _ in D}, vs, not one)

    # ------------------------------------------------------------ instructions
    def ins(self, i):
        op = i['op']
        loc = i.get('loc')
        if op == 'alloca':
            self.add(i, {(('l', self.f['name'], i['id']), 0, 0)})
        elif op == 'getelementptr':
            g = i['gep']
            c, var = g[1], [(k, x) for k, x in g[2] if self.const(x) is None]
            c += sum(k * self.const(x) for k, x in g[2] if self.const(x) is not None)
            vs = set()
            for o, off, st in self.val(g[0]):
                if len(var) == 0:
                    vs.add((o, off + c, st))
                elif len(var) == 1 and not st:
                    vs.add((o, off + c, abs(var[0][0])))
                elif len(var) == 1 and st == abs(var[0][0]):
                    vs.add((o, off + c, st))
                else:
                    vs.add((o, off + c, U))
            self.add(i, vs)
        elif op == 'load':
            for o, off, st in self.val(i['ops'][0]):
                self.rec(self.s.reads, (o, off, st, i['size']), loc)
                if i['size'] == 8:
                    self.add(i, self.content(o, off, st))
        elif op == 'store':
            p = self.val(i['ops'][1])
            for o, off, st in p:
                self.rec(self.s.writes, (o, off, st, i['size']), loc)
            if i['size'] == 8:
                self.store(p, self.val(i['ops'][0]))
        elif op == 'phi':
            me = self.where(i)
            ks = set()
            for b, x in i['in']:
                if (b, me) in self.edges:
                    self.add(i, self.val(x))
                    ks.add(self.const(x))
            self.setk(i, ks.pop() if len(ks) == 1 else None)
        elif op == 'select':
            c = self.const(i['ops'][0])
            for x in i['ops'][1:] if c is None else [i['ops'][1 if c & 1 else 2]]:
                self.add(i, self.val(x))
        elif op in ('inttoptr', 'ptrtoint', 'bitcast', 'freeze', 'extractvalue', 'insertvalue'):
            for x in i['ops']:
                self.add(i, self.val(x))
        elif op in ('add', 'sub', 'or') and i['ty'] == 'i64':
            for x in i['ops'][:1] if op == 'sub' else i['ops']:
                self.add(i, {(o, off, st or U) for o, off, st in self.val(x)})
        elif op == 'icmp':
            a, b = (self.const(x) for x in i['ops'])
            w = WIDTH.get(i.get('oty'), 64)
            p = i['pred']
            if a is not None and b is not None:
                if p[0] == 'u':
                    a, b, p = a & ((1 << w) - 1), b & ((1 << w) - 1), 's' + p[1:]
                self.setk(i, -1 if CMP[p](a, b) else 0)
            else:
                self.setk(i, None)
        elif op in ('zext', 'sext', 'trunc'):
            c = self.const(i['ops'][0])
            if c is not None and op == 'zext':
                c &= (1 << WIDTH.get(i['oty'], 64)) - 1
            self.setk(i, None if c is None else sx(c, WIDTH.get(i['ty'], 64)))
        elif op in ('call', 'invoke'):
            self.call(i)
        elif op == 'ret':
            for x in i.get('ops', ()):
                new = norm(self.s.ret | self.val(x))
                if new != self.s.ret:
                    self.s.ret = new
                    self.changed = True

    def setk(self, i, c):
        """a constant may only be lost while the iteration goes on"""
        if i['id'] in self.k and self.k[i['id']] != c:
            c = None
        if self.k.get(i['id'], 'new') != c:
            self.changed = True
        self.k[i['id']] = c

    def where(self, i):
        if not hasattr(self, 'at'):
            self.at = {x['id']: n for n, b in enumerate(self.blocks) for x in b if x['op'] == 'phi'}
        return self.at[i['id']]

    def call(self, i):
        name = i.get('callee')
        loc = i.get('loc')
        if not name:
            self.P.indirect.append((self.f['name'], loc))
            return
        if name.startswith('llvm.'):
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                D, S = self.val(i['ops'][0]), self.val(i['ops'][1])
                n = i['ops'][2][1] if i['ops'][2][0] == 'c' else 1 << 30
                for o, off, st in D:
                    self.rec(self.s.writes, (o, off, st, n), loc)
                for o, off, st in S:
                    self.rec(self.s.reads, (o, off, st, -n), loc)        # a copy, not a use
                self.copy(D, S, n)
            elif name.startswith('llvm.memset'):
                n = i['ops'][2][1] if i['ops'][2][0] == 'c' else 1 << 30
                D = self.val(i['ops'][0])
                for o, off, st in D:
                    self.rec(self.s.writes, (o, off, st, n), loc)
                if len(D) == 1 and n <= 1024 and not any(x[2] for x in D):
                    (o, f, _), = D
                    for off in range(0, n - 7, 8):
                        self.store({(o, f + off, 0)}, set())
            return
        if name not in self.P.fns:
            self.P.external[name].append((self.f['name'], loc))
            return
        ks = tuple((k, self.const(x)) for k, x in enumerate(i['ops']) if i['oty'][k] in WIDTH and self.const(x) is not None)
        s = self.P.summary(name, ks)
        A = [self.val(x) for x in i['ops']]
        memo = {}

        def sub(o):
            """callee object -> places of the caller"""
            if o in memo:
                return memo[o]
            if o[0] == 'a':
                r = A[o[1]] if o[1] < len(A) else set()
            elif o[0] == 'd':
                r = set()
                for q, off, st in sub(o[1]):
                    r |= self.content(q, off + (o[2] or 0), st or (U if o[2] is None else 0))
            else:
                r = {(o, 0, 0)}
            memo[o] = r = norm(r)
            return r

        def place(o, off, st):
            return {(q, f + off, t or st) for q, f, t in sub(o)}
        for (o, off, st, n), l in s.reads.items():
            for p in place(o, off, st):
                self.rec(self.s.reads, p + (n,), l)
        for (o, off, st, n), l in s.writes.items():
            for p in place(o, off, st):
                self.rec(self.s.writes, p + (n,), l)
        R = set()
        for x in s.ret:
            R |= place(*x)
        todo = []
        for (o, off, st), vs in s.pts.items():
            W = set()
            for x in vs:
                W |= place(*x)
            if W:
                todo.append((place(o, off, st), norm(W)))
        for p, W in todo:
            self.store(p, W)
        if R:
            self.add(i, norm(R))
