"""Tiny ROBDD package used as the propositional lattice of the data-flow analyses."""
import sys
sys.setrecursionlimit(200000)


class BDD:
    F, T = 0, 1

    def __init__(self):
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]  # (level, lo, hi)
        self.uniq = {}
        self.cache = {}
        self.name2lvl = {}
        self.names = []

    def var(self, name):
        l = self.name2lvl.get(name)
        if l is None:
            l = len(self.names)
            self.name2lvl[name] = l
            self.names.append(name)
        return self.mk(l, 0, 1)

    def mk(self, l, lo, hi):
        if lo == hi:
            return lo
        k = (l, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        N = self.nodes
        lf, lg, lh = N[f][0], N[g][0], N[h][0]
        l = min(lf, lg, lh)
        f0, f1 = (N[f][1], N[f][2]) if lf == l else (f, f)
        g0, g1 = (N[g][1], N[g][2]) if lg == l else (g, g)
        h0, h1 = (N[h][1], N[h][2]) if lh == l else (h, h)
        r = self.mk(l, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, f, g):
        if f > g:
            f, g = g, f
        return self.ite(f, g, 0)

    def OR(self, f, g):
        if f > g:
            f, g = g, f
        return self.ite(f, 1, g)

    def XOR(self, f, g):
        return self.ite(f, self.NOT(g), g)

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def restrict_var(self, f, name, val):
        l = self.name2lvl.get(name)
        if l is None:
            return f
        memo = {}

        def go(n):
            L, lo, hi = self.nodes[n]
            if L > l:
                return n
            if L == l:
                return hi if val else lo
            if n in memo:
                return memo[n]
            r = self.mk(L, go(lo), go(hi))
            memo[n] = r
            return r
        return go(f)

    def exists(self, f, pred):
        """existentially quantify every variable whose name satisfies pred"""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            L, lo, hi = self.nodes[n]
            a, b = go(lo), go(hi)
            r = self.OR(a, b) if pred(self.names[L]) else self.ite(self.mk(L, 0, 1), b, a)
            memo[n] = r
            return r
        return go(f)

    def simplify(self, f, c):
        """Coudert/Madre restrict: simplify f under care set c"""
        memo = {}

        def go(f, c):
            if c == 0:
                return 0
            if f < 2 or c == 1:
                return f
            k = (f, c)
            if k in memo:
                return memo[k]
            lf, f0, f1 = self.nodes[f]
            lc, c0, c1 = self.nodes[c]
            if lc < lf:
                r = go(f, self.OR(c0, c1))
            else:
                if lf < lc:
                    c0 = c1 = c
                if c0 == 0:
                    r = go(f1, c1)
                elif c1 == 0:
                    r = go(f0, c0)
                else:
                    r = self.mk(lf, go(f0, c0), go(f1, c1))
            memo[k] = r
            return r
        return go(f, c)

    def support(self, f):
        seen = set()
        out = set()
        st = [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            L, lo, hi = self.nodes[n]
            out.add(self.names[L])
            st += [lo, hi]
        return out

    def isop(self, L, U, memo=None):
        """Minato-Morreale irredundant sum of products between L and U. -> (cubes, bdd)"""
        if memo is None:
            memo = {}
        if L == 0:
            return [], 0
        if U == 1:
            return [()], 1
        k = (L, U)
        if k in memo:
            return memo[k]
        lv = min(self.nodes[L][0], self.nodes[U][0])

        def co(f):
            l, a, b = self.nodes[f]
            return (a, b) if l == lv else (f, f)
        L0, L1 = co(L)
        U0, U1 = co(U)
        Ln = self.AND(L0, self.NOT(U1))
        c0, f0 = self.isop(Ln, U0, memo)
        Lp = self.AND(L1, self.NOT(U0))
        c1, f1 = self.isop(Lp, U1, memo)
        Ls = self.OR(self.AND(L0, self.NOT(f0)), self.AND(L1, self.NOT(f1)))
        cs, fs = self.isop(Ls, self.AND(U0, U1), memo)
        v = self.mk(lv, 0, 1)
        f = self.OR(fs, self.ite(v, f1, f0))
        cubes = [((self.names[lv], False),) + c for c in c0] + [((self.names[lv], True),) + c for c in c1] + cs
        memo[k] = (cubes, f)
        return memo[k]

    def cnf(self, f, care=1):
        """clauses (list of frozenset of (name, polarity)) whose conjunction is f (under care)"""
        n = self.AND(self.NOT(f), care)
        cubes, _ = self.isop(n, self.OR(self.NOT(f), self.NOT(care)))
        return [frozenset((a, not p) for a, p in c) for c in cubes]

    def clause(self, cl):
        r = 0
        for a, p in cl:
            v = self.var(a)
            r = self.OR(r, v if p else self.NOT(v))
        return r

    def show(self, f):
        if f == 1:
            return 'true'
        if f == 0:
            return 'false'
        cs = self.cnf(f)
        return ' && '.join('(' + ' || '.join(('' if p else '!') + a for a, p in sorted(c)) + ')' for c in sorted(cs, key=sorted))
