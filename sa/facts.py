"""Comparison of what a function establishes (guarded values of places, guarded calls) with a confirmed table.

A fact is a named list of guarded texts.  Spec and current facts are compared semantically: a spec case and a
current case with different texts must be mutually exclusive under the comparison lemmas; texts that a fact may
not take at all are reported."""
import json, os, re
import chk
from front import VERIF, Broken


def encode(c, cases, R, rel=False):
    """cases [(bdd, text)], reach R -> jsonable"""
    b = c.b
    out = {}
    for g, t in cases:
        g = b.AND(g, R)
        if g:
            out[t] = b.OR(out.get(t, 0), g)
    res = []
    at = set()
    for t in sorted(out):
        g = out[t]
        if b.AND(g, c.axioms(b.support(g))) == 0:
            continue
        ax = c.axioms(b.support(g), False)
        if rel:                                 # conditions within R only
            ax = b.AND(ax, R)
        # not the exit lemmas: the table states conditions in full
        cl = b.cnf(g, ax)
        for x in cl:
            at |= {a for a, _ in x}
        res.append([t, sorted(sorted([a, p] for a, p in x) for x in cl)])
    at = chk.closure(c, at)
    return res, {a: list(c.atoms[a]) if c.atoms.get(a) else None for a in sorted(at)}


def freeze(c, facts, rel=False):
    """facts {name: (cases, R)}"""
    atoms = {}
    fs = {}
    for n, (cases, R) in facts.items():
        fs[n], at = encode(c, cases, R, rel)
        atoms.update(at)
    return {'facts': fs, 'atoms': atoms}


def cond_of(c, clauses):
    g = 1
    for x in clauses:
        g = c.b.AND(g, c.b.clause([(a, p) for a, p in x]))
    return g


def show(c, g):
    s = c.b.show(g)
    return s if len(s) < 300 else s[:300] + '...'


def compare(c, facts, spec, extra_ok=lambda n: True, rel=False):
    """-> [(fact, text)] differences"""
    b = c.b
    out = []
    for a, info in spec['atoms'].items():
        if c.atoms.get(a) is None:
            c.atoms[a] = chk.tup(info) if info else None
        b.var(a)
    for n, want in spec['facts'].items():
        if n not in facts:
            out.append((n, None))
            continue
        cases, R = facts[n]
        cur = {}
        for g, t in cases:
            g = b.AND(g, R)
            if g:
                cur[t] = b.OR(cur.get(t, 0), g)
        exp = {t: cond_of(c, cl) for t, cl in want}
        names = set()
        for g in list(cur.values()) + list(exp.values()):
            names |= b.support(g)
        names = chk.closure(c, names)
        ax = c.axioms(names)
        ax = b.AND(ax, chk.forall_lemmas(c, names))
        for t, g in sorted(cur.items()):
            w = exp.get(t, 0)
            bad = b.AND(b.AND(g, ax), b.NOT(b.OR(w, exp.get('uninit', 0))))      # where nothing is initialised anything may be
            if bad:
                exps = sorted(x for x, e in exp.items() if b.AND(b.AND(e, ax), bad))
                cs = '' if bad == 1 or b.AND(g, ax) == ax else ' when ' + show(c, b.simplify(bad, ax))
                out.append((n, 'is %s%s; expected %s' % (t[:220], cs, ' or '.join(e[:220] for e in exps) if exps else 'nothing there')))
        for t, w in sorted(exp.items()):
            g = cur.get(t, 0)
            tot = 0
            for x in cur.values():
                tot = b.OR(tot, x)
            if rel:
                w = b.AND(w, R)
            bad = b.AND(b.AND(w, ax), b.NOT(tot))
            if bad:
                out.append((n, 'no longer %s when %s' % (t[:220], show(c, b.simplify(bad, ax)))))
    for n in facts:
        if n not in spec['facts'] and not extra_ok(n):
            cases, R = facts[n]
            if any(b.AND(b.AND(g, R), c.axioms(b.support(g))) for g, _ in cases):
                out.append((n, 'new: ' + ' | '.join(sorted({t for _, t in cases}))[:300]))
    return out


def specfile(prop):
    return VERIF + '/sa/spec/%s.json' % prop


def load(prop):
    p = specfile(prop)
    if not os.path.exists(p):
        raise Broken('no table for ' + prop)
    return json.load(open(p))


WIT = re.compile(r'\$x\d+_[0-9a-f]{5}|\$v\d+_[0-9a-f]{8}')


def align(sp, c, facts):
    """the witness counters of left loops carry a digest of the loop: map those of the table to the current ones"""
    txt = json.dumps(sp)
    old = set(WIT.findall(txt))
    if not old:
        return sp
    new = {w for a in c.atoms for w in WIT.findall(a)}
    for n, (cs, R) in facts.items():
        for g, t in cs:
            new |= set(WIT.findall(t)) | set(WIT.findall(n))
    lo, ln = old - new, new - old
    for o in sorted(lo):
        k = o.split('_')[0]
        if sum(x.split('_')[0] == k for x in lo) == 1 and sum(x.split('_')[0] == k for x in ln) == 1:
            txt = txt.replace(o, next(x for x in ln if x.split('_')[0] == k))
    return json.loads(txt)


def run(R, subjects, cfgs, extra_ok=lambda n: True, hint=lambda s, n: '', gone=(), rel=False, drop=None):
    """subjects(cfg) yields (name, c, facts, where)"""
    spec = load(R.prop)
    for cfg in cfgs:
        seen = set()
        for name, c, facts, where in subjects(cfg):
            seen.add(name)
            R.count('functions')
            R.count('facts', len(facts))
            if drop and name in spec:
                spec[name]['facts'] = {n: x for n, x in spec[name]['facts'].items() if not drop(n)}
            if name not in spec:
                if not extra_ok(name):
                    R.violation(name, where, 'not in the confirmed table')
                continue
            R.obl += len(spec[name]['facts'])
            R.units.append('%s (%s): %d facts' % (name, cfg, len(spec[name]['facts'])))
            for n, txt in compare(c, facts, align(spec[name], c, facts), extra_ok, rel):
                if txt is None and not n.startswith(('call ', 'store ')):
                    raise Broken('%s: %s: fact %s has no counterpart in the current program' % (R.prop, name, n))
                R.violation('%s%s' % (name, ' ' + n if not n.startswith(('call ', 'store ')) else ''), where(n) if callable(where) else where,
                            '%s %s' % (n, txt if txt is not None else 'is no longer made'))
        miss = {x for x in set(spec) - seen if x.replace(' with FULL_ACCU', '') not in gone and not ('FULL_ACCU' in x and cfg != 'fullacc') and x + ' with FULL_ACCU' not in seen}
        if miss:
            raise Broken('%s (%s): vanished: %s' % (R.prop, cfg, ', '.join(sorted(miss))[:300]))


# ---- common fact builders
def state(c, t, bt, pre='', R=None, upto=None, only=None):
    """facts for every leaf of the object t points to, joined over the returns"""
    out = {}
    for o, s, ty, n in c.leaves(bt):
        if only and not only(n):
            continue
        cs = []
        tot = 0
        for (Rr, v, i), tm in zip(c.rets, c.rets_t):
            tot = c.b.OR(tot, Rr)
            for g, x in c.read(t, o, s, ty, tm, Rr):
                g = c.b.AND(g, Rr)
                if g:
                    cs.append((g, x.s))
        out[pre + n] = (cs, tot if R is None else R)
    return out


def retfact(c):
    cs = []
    tot = 0
    for R, v, i in c.rets:
        tot = c.b.OR(tot, R)
        if v is None:
            continue
        for g, x in c.ascases(v):
            cs.append((c.b.AND(g, R), x.s))
    return {'return': (cs, tot)}


def calls(c, want=lambda n: True, argtext=None, short=lambda n: n):
    """fact per distinct call (name and argument texts): reached or not"""
    acc = {}
    for e in c.events.values():
        if e[0] != 'call':
            continue
        _, R, (name, args), ins = e
        if name is None:
            name = '*(%s)' % c.text(c.callee_val(ins), R)
        if name.startswith('llvm.') or not want(name):
            continue
        ts = argtext(c, ins, name, args) if argtext else [c.text(a, R) for a in args]
        k = 'call %s(%s)' % (short(name), ', '.join(ts))
        acc[k] = c.b.OR(acc.get(k, 0), R)
    return {k: ([(R, 'made')], 1) for k, R in acc.items()}


def stores(c, want):
    """fact per (address, value) stored through an address accepted by want(text)"""
    acc = {}
    for e in c.events.values():
        if e[0] != 'store':
            continue
        _, R, (A, v), ins = e
        for g, t in A:
            if not want(t.s):
                continue
            for g2, x in c.ascases(v):
                r = c.b.AND(c.b.AND(R, g), g2)
                if r:
                    k = 'store %s = %s' % (t.s.lstrip('&'), x.s)
                    acc[k] = c.b.OR(acc.get(k, 0), r)
    return {k: ([(R, 'made')], 1) for k, R in acc.items()}
