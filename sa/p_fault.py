"""P06: in return-code builds no parameter check dereferences a null argument or divides by zero."""
import json, re
import chk, front
from front import Broken

# internal helpers that are only called once the arguments are known to be valid: what their callers must have established
# (confirmed by hand; each is discharged at every call site).  'nn' = the parameter is not null; texts are requirement clauses.
PRE = {
    'mli_chk_tensor_quant_params': [['tensor']],
    'mli_chk_tensors_not_overlapped': [['t1'], ['t2']],
    'mli_chk_containers_not_overlapped': [['data1'], ['data2']],
    'mli_chk_bias_frac_fx': [['in'], ['weights'], ['bias']],
    'mli_chk_out_frac_fx': [['in'], ['weights'], ['out']],
    'mli_chk_bias_scale_asym': [['in'], ['weights'], ['bias'],
                                ['weights->el_params.sa.scale.mem.p', 'weights->el_params.sa.dim < 0'],
                                ['bias->el_params.sa.scale.mem.p', 'weights->el_params.sa.dim < 0']],
    # called by the transposed convolution entries after the general check returned OK (discharged by P01)
    'mli_chk_transpose_conv2d_hwcn_k2x2_str2': [['weights'], ['cfg']],
    'mli_chk_transpose_conv2d_hwcn_k4x4_str2': [['weights'], ['cfg']],
    'mli_hlp_tensor_element_size': [['in']],
    'mli_hlp_tensor_data_ptr_cmp': [['in1'], ['in2']],
    'mli_prv_calc_shift_idx': [['in'], ['weights'], ['bias']],
}
EXT_ARGS = {'mli_hlp_tensor_element_size': ['in'], 'mli_hlp_tensor_data_ptr_cmp': ['in1', 'in2'], 'mli_prv_calc_shift_idx': ['in', 'weights', 'bias', 'idx']}
EXPAND = ('mli_chk_tensor_quant_params',)
CFG = {'quick': ['up'], 'thorough': ['up', 'full', 'convergent']}


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def subst(txt, m):
    """replace parameter names by argument texts in an atom"""
    def r(mm):
        pre = mm.string[:mm.start()]
        if mm.group(1) == 'in' and re.search(r'\$[kxvj]\w+ $', pre):
            return mm.group(0)
        if pre.endswith('.') and not pre.endswith('..'):
            return mm.group(0)
        return m.get(mm.group(1), mm.group(0))
    return re.sub(r'(?<![\w>$])([A-Za-z_]\w*)(?![\w(])', r, txt)


class Ctx:
    def __init__(self, m, by):
        self.m, self.by = m, by
        self.sum = {}
        self.done = {}

    def an(self, n):
        if n not in self.done:
            self.done[n] = chk.analyse(self.by[n][0], self.m)
        return self.done[n]

    def summary(self, n):
        """null-ness clauses that hold whenever check n returned OK"""
        if n in self.sum:
            return self.sum[n]
        self.sum[n] = ([], [], [], [])
        if n not in self.by:
            return self.sum[n]
        c, ok = self.an(n)
        names = [a.s for a in c.args]
        b = c.b
        cl = []
        unit = []
        full = ok
        # parameters
        for a in c.args:
            if a.base is not None and self.prove(c, full, b.NOT(c.atom('%s == null' % a.s, ('eq', a.s, 0))), a.s, 1):
                cl.append([('%s == null' % a.s, False)])
        for x in b.cnf(ok, 1) if n in EXPAND else []:
            if any(a.endswith(' == null') for a, _ in x) and not any('$' in a and 'forall' not in a for a, _ in x) and len(x) < 12:
                cl.append(sorted(x))
        # plain facts about scalar fields
        for a in b.support(ok):
            info = c.atoms.get(a)
            if info and info[0] in ('slt', 'ult', 'eq') and not a.endswith(' == null') and not a.startswith('mli_chk'):
                if b.implies(full, b.NOT(b.var(a))):
                    unit.append((a, info, False))
                elif info[0] != 'eq' and b.implies(full, b.var(a)):
                    unit.append((a, info, True))
        # facts every element of an array satisfies
        fa = []
        for a in b.support(ok):
            info = c.atoms.get(a)
            if info and info[0] == 'forall' and len(info) > 2 and b.implies(full, b.var(a)):
                fa.append((a, info))
        self.sum[n] = (names, cl, fa, unit)
        return self.sum[n]

    def lemmas(self, c, base):
        """clauses that may help to show `base` is not null: facts guaranteed by checks that returned OK"""
        out = []
        ix = re.search(r'\[([^\[\]]*)\]', base)
        root = re.match(r'\w+', base).group(0) if re.match(r'\w+', base) else base
        seen = set()
        keep = {info[1] for info in c.atoms.values() if info and len(info) > 1} | {'cfg->inputs_num'}
        todo = [a for a in c.atoms if 'mli_chk_' in a or a.startswith('forall') or a.startswith('bool(')]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            mm = re.match(r'^(mli_chk_\w+)\((.*)\) == (?:0|MLI_STATUS_OK)$', a)
            if mm and mm.group(1) in self.by:
                if root not in a:
                    continue
                names, cl, fa, unit = self.summary(mm.group(1))
                mp = dict(zip(names, split(mm.group(2))))
                cc = self.done[mm.group(1)][0]
                for x in cl:
                    y = []
                    for t, p in x:
                        s = subst(t, mp)
                        i = cc.atoms.get(t)
                        if c.atoms.get(s) is None and i and len(i) > 2 and isinstance(i[1], str):
                            c.atoms[s] = (i[0], subst(i[1], mp), i[2])
                        y.append((s, p))
                    if any(base in t for t, _ in y):
                        out.append([(a, False)] + y)
                for t, info, p in unit:
                    s = subst(t, mp)
                    if info[1] and (s in c.atoms or subst(info[1], mp) in keep):
                        c.atoms.setdefault(s, (info[0], subst(info[1], mp), info[2]))
                        out.append([(a, False), (s, p)])
                for t, info in fa:
                    s = subst(t, mp)
                    if root in s:
                        c.atoms.setdefault(s, (info[0], subst(info[1], mp), tuple(sorted((subst(x, mp), p) for x, p in info[2]))))
                        out.append([(a, False), (s, True)])
                        todo.append(s)
                continue
            mm = re.match(r'^bool\(mli_tensor_is_scalar\((.*)\)\)$', a)
            if mm:
                if mm.group(1) == base:
                    out.append([(a, False), (base + ' == null', False)])
                continue
            info = c.atoms.get(a)
            if ix and info and info[0] == 'forall' and len(info) > 2:
                r = re.match(r'^(?:up |down )?\$k(\d+) in 0\.\.(.*)$', info[1])
                if not r:
                    continue
                k = re.escape('$k' + r.group(1)) + r'(?!\d)'
                body = [(re.sub(k, lambda _: ix.group(1), x), p) for x, p in info[2]]
                if not any(base in x for x, _ in body):
                    continue
                U = r.group(2)
                if re.fullmatch(r'-?\d+', ix.group(1)):
                    v = int(ix.group(1))
                    inr = ('%s < %d' % (U, v + 1), True)      # negated range test
                    c.atoms.setdefault(inr[0], ('slt', U, v + 1))
                else:
                    inr = ('%s < %s' % (ix.group(1), U), False)
                out.append([(a, False), inr] + body)
                todo += [x for x, _ in body]
        return out

    def prove(self, c, R, goal, base, pre, also=()):
        b = c.b
        if b.implies(R, goal):
            return True
        if pre != 1 and b.implies(b.AND(R, pre), goal):
            return True
        if not base:
            return False
        cl = self.lemmas(c, base)
        for x in also:
            cl += self.lemmas(c, x)
        ax = 1
        at = set()
        for x in cl:
            for a, _ in x:
                c.atoms.setdefault(a, ('eq', a[:-8], 0) if a.endswith(' == null') else None)
                at.add(a)
            ax = b.AND(ax, b.clause(x))
        rest = b.AND(b.AND(R, pre), b.NOT(goal))
        rest = b.AND(rest, ax)
        if rest == 0:
            return True
        D = {c.atoms[a][1] for a in at | b.support(goal) if c.atoms.get(a) and len(c.atoms[a]) > 1}
        at |= {a for a in b.support(R) | b.support(goal) if c.atoms.get(a) and len(c.atoms[a]) > 1 and c.atoms[a][1] in D}
        if b.AND(rest, c.axioms(at)) == 0:
            return True
        # element 0 inside a loop over the same array: iteration 0 comes first, so what is established for the
        # current element before this point, and for every element by the loop, holds for element 0
        mm = re.match(r'^(\w+)\[0\](.*)$', base)
        if mm:
            for k in sorted({x for a in b.support(R) for x in re.findall(r'%s\[(\$k\d+)\]' % mm.group(1), a)}):
                cur = '%s[%s]%s' % (mm.group(1), k, mm.group(2))
                if not any(i and i[0] == 'forall' and len(i) > 2 and re.match(r'^(up )?%s in 0\.\.' % re.escape(k), i[1]) and any(cur + ',' in x for x, _ in i[2]) for i in c.atoms.values()):
                    continue
                if self.prove(c, R, b.NOT(c.atom(cur + ' == null', ('eq', cur, 0))), cur, pre):
                    return True
        return False


def clause(c, x):
    """requirement text list -> bdd: first entry is a pointer that must not be null, the rest are excuses"""
    b = c.b
    p = x[0]
    if p.startswith('&'):
        return 1
    r = b.NOT(c.atom('%s == null' % p, ('eq', p, 0)))
    for e in x[1:]:
        mm = re.match(r'^(.*) < (-?\d+)$', e)
        r = b.OR(r, c.atom(e, ('slt', mm.group(1), int(mm.group(2)))))
    return r


def run(R):
    spec = json.load(open(chk.SPECFILE))
    names = sorted(spec)
    for cfg in CFG[R.tier]:
        m = chk.load(names, cfg)
        by = chk.byname(m)
        miss = [n for n in names if len(by.get(n, [])) != 1]
        if miss:
            raise Broken('parameter checks not found: %s' % miss[:5])
        cx = Ctx(m, by)
        todo = [n for n in by if n in spec or n.startswith('mli_chk_')]
        for n in sorted(todo):
            f = by[n][0]
            c, _ = cx.an(n)
            b = c.b
            pre = 1
            for x in PRE.get(n, []):
                pre = b.AND(pre, clause(c, x))
            nonnull = set()
            R.count('functions')
            R.units.append(n)
            glob = set(m.globals)
            loc = {i['n'] if 'n' in i else 'tmp%d' % i['id'] for bl in f['blocks'] for i in bl if i['op'] == 'alloca'}
            for e in c.events.values():
                kind, Rc, pay, ins = e
                where = '%s:%s' % (front.rel(str(c.loc(ins)[0])), c.loc(ins)[1])
                if kind in ('load', 'store'):
                    cs = pay if kind == 'load' else pay[0]
                    for g, t in cs:
                        base = t.base if t.base is not None else t.s
                        if base in glob or base in loc or t.s.startswith('@'):
                            continue
                        R.count('dereferences')
                        goal = b.NOT(c.atom('%s == null' % base, ('eq', base, 0)))
                        ok = cx.prove(c, b.AND(Rc, g), goal, base, pre)
                        R.obligation(ok, n, where, '%s of %s is reached without %s having been ruled null' % (kind, t.s[:120], base))
                elif kind == 'div':
                    for g, t in pay:
                        if t.c is not None and t.c != 0:
                            continue
                        R.count('divisions')
                        goal = b.NOT(c.cmp('eq', t, chk_const0()))
                        ok = cx.prove(c, b.AND(Rc, g), goal, t.s, pre)
                        R.obligation(ok, n, where, 'division by %s is reached without it having been ruled zero' % t.s[:120])
                elif kind == 'call' and pay[0] in PRE:
                    cal = pay[0]
                    an = [a.s for a in cx.an(cal)[0].args] if cal in by else EXT_ARGS[cal]
                    combos = {a: cs for a, cs in zip(an, pay[1])}
                    for x in PRE[cal]:
                        root = re.match(r'\w+', x[0]).group(0)
                        for g, t in combos.get(root, []):
                            mp = {}
                            for a, cs in combos.items():
                                mp[a] = t.s if a == root else cs[0][1].s
                            y = [subst(z, mp) for z in x]
                            if y[0].startswith('&') or y[0] in glob or y[0] in loc:
                                continue
                            if re.match(r'^&', t.s):
                                y0 = None
                            R.count('helper preconditions at call sites')
                            ok = cx.prove(c, b.AND(Rc, g), clause(c, y), y[0], pre, [z.split(' <')[0] for z in y[1:] if '[' in z])
                            R.obligation(ok, n, where, 'call of %s is reached without %s having been ruled null' % (cal, y[0][:100]))


def chk_const0():
    from cond import const
    return const(0)
