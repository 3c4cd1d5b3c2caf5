"""P02-P05: the accept condition of every parameter check, compared with the confirmed requirement tables."""
import json, re, os
import front
from front import Broken, VERIF
from cond import Mod, Cond

SPECFILE = VERIF + '/sa/spec/checks.json'
OPAQUE = ['mli_math_asr_rnd_fx', 'mli_prv_calc_shift_idx', 'scale_fluctuations_headroom']


def prop_of(n):
    if re.fullmatch(r'mli_chk_(tensor|tensor_quant_params|scalar_tensor|containers_not_overlapped|tensors_not_overlapped|bias_frac_fx|out_frac_fx|bias_scale_asym|lut)|mli_tensor_is_scalar', n):
        return 'P02'
    if re.match(r'mli_chk_(conv2d|depthwise|group|transpose|fully_connected|maxpool|avepool)', n):
        return 'P03'
    if re.match(r'mli_chk_(relu|leaky_relu|prelu|eltwise|basic_activation|softmax|l2_normalize|rnn_dense|lstm_cell|gru_cell)', n):
        return 'P04'
    if re.match(r'mli_chk_(permute|argmax|count_elem_num|convert_tensor|point_to_subtensor|create_subtensor|data_movement)', n):
        return 'P05'
    return None


def base(dem):
    return re.sub(r'\(.*', '', dem)


def names_re(names):
    return '^(' + '|'.join(sorted(names)) + ')([(]|$)|' + '|'.join(OPAQUE)


def load(names, cfg='up'):
    bc = front.compile_bc([front.LIB + '/private/src/mli_check.cc'], cfg)
    d = front.dump(bc, ['--inline=.*', '--noinline=' + names_re(names), '--globals'] + front.NORMAL, 'chk_' + cfg)
    return Mod(d)


def byname(m):
    r = {}
    for f in m.fns.values():
        if f['blocks']:
            r.setdefault(base(f['dem']), []).append(f)
    return r


def okval(f, m):
    rt = m.T(f['sig'][0]) if f.get('sig') and f['sig'][0] >= 0 else None
    return 1 if rt is not None and rt['kind'] == 'basic' and rt.get('enc') == 2 else 0


def closure(c, names):
    """atoms reachable through quantifier bodies"""
    out, st = set(), list(names)
    while st:
        a = st.pop()
        if a in out:
            continue
        out.add(a)
        info = c.atoms.get(a)
        if info and info[0] == 'forall' and len(info) > 2:
            st += [x for x, _ in info[2]]
    return out


def forall_lemmas(c, names):
    """entailments between universally quantified atoms over the same range, decided propositionally on their bodies"""
    groups = {}
    for a in names:
        info = c.atoms.get(a)
        if info and info[0] == 'forall' and len(info) > 2:
            groups.setdefault(info[1], []).append((a, info[2]))
    b = c.b
    ax = 1
    # innermost ranges first so that nested quantifiers are related before their users
    for rng, L in sorted(groups.items(), key=lambda x: -x[0].count('$k1')):
        if len(L) < 2:
            continue
        bodies = {a: b.clause(cl) for a, cl in L}
        sup = set()
        for x in bodies.values():
            sup |= b.support(x)
        inner = b.AND(c.axioms(sup), ax)
        for a, _ in L:
            rest = [x for x, _ in L if x != a]
            t = bodies[a]

            def ent(sub):
                r = inner
                for x in sub:
                    r = b.AND(r, bodies[x])
                return b.implies(r, t)
            if not ent(rest):
                continue
            i = 0
            while i < len(rest):
                s2 = rest[:i] + rest[i + 1:]
                if ent(s2):
                    rest = s2
                else:
                    i += 1
            l = b.var(a)
            for x in rest:
                l = b.OR(l, b.NOT(b.var(x)))
            ax = b.AND(ax, l)
    return ax


def lit(p, a):
    return ('' if p else 'not ') + a


def clause_text(cl):
    return ' or '.join(sorted(lit(p, a) for a, p in cl))


def analyse(f, m):
    c = Cond(m, f)
    ok = c.ret_when(okval(f, m))
    return c, ok


def freeze_entry(c, ok):
    ax = c.axioms(c.b.support(ok))
    cl = c.b.cnf(ok, ax)
    at = set()
    for x in cl:
        at |= {a for a, _ in x}
    at = closure(c, at)
    return {'clauses': sorted(sorted([a, p] for a, p in x) for x in cl),
            'atoms': {a: list(c.atoms[a]) if c.atoms.get(a) else None for a in sorted(at)}}


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def compare(c, ok, spec):
    """-> (missing requirement clauses, newly rejected argument classes)"""
    b = c.b
    at = set()
    for a, info in spec['atoms'].items():
        if c.atoms.get(a) is None:
            c.atoms[a] = tup(info) if info else None
        b.var(a)
        at.add(a)
    cls = [[(a, p) for a, p in x] for x in spec['clauses']]
    allat = closure(c, at | b.support(ok))
    ax = c.axioms(allat)
    ax = b.AND(ax, forall_lemmas(c, allat))
    cur = b.AND(ok, ax)
    missing = [x for x in cls if not b.implies(cur, b.clause(x))]
    sp = ax
    for x in cls:
        sp = b.AND(sp, b.clause(x))
    extra = []
    if not b.implies(sp, ok):
        for x in b.cnf(ok, sp):
            if not b.implies(sp, b.clause(x)):
                extra.append(sorted(x))
    return missing, extra
