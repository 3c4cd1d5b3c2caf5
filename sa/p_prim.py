"""P11: fixed-point primitives.  Each instantiation is interpreted abstractly (sa/absint.py) next to its requirement (sa/probes/p11_spec.h);
shift amounts are partitioned into every value that reaches a different case plus the two outer ranges."""
import re
from concurrent.futures import ProcessPoolExecutor
import front
from front import Broken
import absint
from absint import Interp, Oct, Reg, Giveup, const, var, ev, text, show

BITS = {'int8_t': 8, 'int16_t': 16, 'int32_t': 32, 'int64_t': 64, 'int': 32, 'unsigned': 32}
S4 = ['int8_t', 'int16_t', 'int32_t', 'int64_t']
HDR = 'lib/src/pal/ref/mli_math.h'


def table():
    """(name, arguments [(type, name)], returned type, code, requirement, shift kind)"""
    t = []

    def add(name, args, ret, code, spec, kind=None):
        t.append((name, args, ret, code, spec, kind))
    for T in S4:
        b = BITS[T]
        X, XN, LR = [(T, 'x')], [(T, 'x'), ('int', 'n')], [(T, 'a'), (T, 'b')]
        add('add_fx_%d' % b, LR, T, 'mli_math_add_fx<%s>(a, b)' % T, 'q_clamp<%s>((W)a + b)' % T)
        add('sub_fx_%d' % b, LR, T, 'mli_math_sub_fx<%s>(a, b)' % T, 'q_clamp<%s>((W)a - b)' % T)
        add('max_fx_%d' % b, LR, T, 'mli_math_max_fx<%s>(a, b)' % T, '(a > b ? a : b)')
        add('min_fx_%d' % b, LR, T, 'mli_math_min_fx<%s>(a, b)' % T, '(a < b ? a : b)')
        add('neg_fx_%d' % b, X, T, 'mli_math_neg_fx<%s>(x)' % T, 'q_clamp<%s>(-(W)x)' % T)
        add('abs_fx_%d' % b, X, T, 'mli_math_abs_fx<%s>(x)' % T, 'q_clamp<%s>(x < 0 ? -(W)x : (W)x)' % T)
        add('limit_fx_%d' % b, X, T, 'mli_math_limit_fx<%s>(x)' % T, 'q_lim<%s>(x)' % T)
        for f, q in (('asr_fx', 'asr'), ('asl_fx', 'asl'), ('asr_rnd_fx', 'rnd')):
            add('%s_%d' % (f, b), XN, T, 'mli_math_%s<%s>(x, n)' % (f, T), 'q_%s<%s>(x, n)' % (q, T), 'n')
        add('asl_rnd_fx_%d' % b, XN, T, 'mli_math_asl_rnd_fx<%s>(x, n)' % T, 'q_rnd<%s>(x, -n)' % T, 'n')
        add('sat_fx_%d' % b, [(T, 'x'), ('unsigned', 'n')], T, 'mli_math_sat_fx<%s>(x, n)' % T, 'q_sat<%s>(x, n)' % T, 'sat')
        add('ashift_right_fx_%d' % b, XN, T, 'mli_math_ashift_right_fx<%s>(x, n)' % T, 'q_rnd<%s>(x, n)' % T, 'n')
        if b >= 16:
            add('norm_fx_%d' % b, X, 'int', 'mli_math_norm_fx<%s, int>(x)' % T, 'q_norm<%s>(x)' % T)
    for T in ('int32_t', 'int64_t'):
        add('acc_ashift_fx_%d' % BITS[T], [(T, 'x'), ('int', 'n')], T, 'mli_math_acc_ashift_fx<%s>(x, n)' % T, 'q_rnd<%s>(x, n)' % T, 'n')
    for O in ('int8_t', 'int16_t', 'int32_t'):
        add('acc_cast_fx_32_%d' % BITS[O], [('int32_t', 'x'), ('int', 'n')], O, 'mli_math_acc_cast_fx<%s, int32_t>(x, n)' % O, 'q_cast<int32_t, %s>(x, n)' % O, 'n')
    for I, O in (('int16_t', 'int8_t'), ('int8_t', 'int8_t'), ('int16_t', 'int16_t'), ('int32_t', 'int8_t'), ('int32_t', 'int16_t'),
                 ('int32_t', 'int32_t'), ('int64_t', 'int8_t'), ('int64_t', 'int16_t'), ('int64_t', 'int32_t')):
        add('cast_fx_%d_%d' % (BITS[I], BITS[O]), [(I, 'x'), ('int', 'n')], O, 'mli_math_cast_fx<%s, %s>(x, n)' % (I, O), 'q_cast<%s, %s>(x, n)' % (I, O), 'n')
    add('cast_fx_8_16', [('int8_t', 'x'), ('int', 'n')], 'int16_t', 'mli_math_cast_fx<int8_t, int16_t>(x, n)', 'q_rnd<int16_t>(x, n)', 'n')
    add('cast_fx_16_64', [('int16_t', 'x'), ('int', 'n')], 'int64_t', 'mli_math_cast_fx<int16_t, mli_acc40_t>(x, n)', 'q_rnd<int64_t>(x, n)', 'n')
    add('cast_fx_32_8_plain', [('int32_t', 'x')], 'int8_t', 'mli_math_cast_fx<int32_t, int8_t>(x)', 'q_cast<int32_t, int8_t>(x, 24)')
    add('cast_fx_32_16_plain', [('int32_t', 'x')], 'int16_t', 'mli_math_cast_fx<int32_t, int16_t>(x)', 'q_clamp<int16_t>(x)')
    add('cast_fx_64_16_plain', [('int64_t', 'x')], 'int16_t', 'mli_math_cast_fx<int64_t, int16_t>(x)', 'q_clamp<int16_t>(x)')
    for T, A in (('int8_t', 'int32_t'), ('int16_t', 'int32_t'), ('int32_t', 'int64_t')):
        add('mul_fx_%d_%d' % (BITS[T], BITS[A]), [(T, 'a'), (T, 'b')], A, 'mli_math_mul_fx<%s, %s>(a, b)' % (T, A), '(%s)((W)a * b)' % A)
    for T in ('int16_t', 'int32_t'):
        add('bound_range_fx_%d' % BITS[T], [(T, 'x'), (T, 'a'), (T, 'b')], T, 'mli_math_bound_range_fx(x, a, b)', '(x < a ? (a < b ? a : b) : (x < b ? x : b))')
    return t


def probe(cfg, tab):
    """translation unit with the instantiations that exist; names of the ones that do not"""
    p = front.tmp() + '/p11_%s.cc' % cfg
    head = ['#include "mli_config.h"', '#include "mli_math.h"', '#include "%s/sa/probes/p11_spec.h"' % front.VERIF]
    live, gone = list(tab), []
    for _ in range(6):
        src = list(head)
        for n, args, ret, code, spec, k in live:
            a = ', '.join('%s %s' % x for x in args)
            src.append('extern "C" %s c_%s(%s) { return %s; }' % (ret, n, a, code))
        for n, args, ret, code, spec, k in live:
            a = ', '.join('%s %s' % x for x in args)
            src.append('extern "C" %s s_%s(%s) { return %s; }' % (ret, n, a, spec))
        open(p, 'w').write('\n'.join(src) + '\n')
        r = front.try_compile(p, cfg)
        if not r:
            return p, live, gone
        bad = {int(x) - len(head) - 1 for x in re.findall(re.escape(p) + r':(\d+):\d+: (?:fatal )?error', r)} | {int(x) - len(head) - 1 for x in re.findall(re.escape(p) + r':(\d+):\d+: note: in instantiation', r)}
        bad = {x for x in bad if 0 <= x < len(live)}
        if not bad:
            break
        gone += [live[x][0] for x in bad]
        live = [t for i, t in enumerate(live) if i not in bad]
    raise Broken('the probe of the primitives does not compile: ' + r[:300])


def cases(kind, args, ret):
    """bindings of the shift amount: (name or None, [(lo, hi)])"""
    w = BITS[args[0][0]]
    if kind is None:
        return [None]
    if kind == 'sat':
        return [(n, n) for n in range(0, w)]
    m = max(w, BITS[ret], 32) + 3
    return [(n, n) for n in range(-m, m + 1)] + [(-32768, -m - 1), (m + 1, 32767)]


def region(args, sh):
    o = Oct(tuple(n for t, n in args if not (n == 'n' and sh and sh[0] == sh[1])))
    env = {}
    for i, (t, n) in enumerate(args):
        if n == 'n' and sh:
            if sh[0] == sh[1]:
                env[i] = const(sh[0])
                continue
            lo, hi = sh
        else:
            b = BITS[t]
            lo, hi = (0, (1 << b) - 1) if t == 'unsigned' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        env[i] = var(n)
        o.le([(n, 1)], hi)
        o.le([(n, -1)], -lo)
    return env, Reg(o)


def compare(cp, sp):
    """[(kind, region, code term, required term, point, ins)] over all pairs of paths; number of equal pairs"""
    bad, ok, open_ = [], 0, 0
    for r1, t1, ins in cp:
        for r2, t2, _ in sp:
            o = r1.o.meet(r2.o)
            if o.empty:
                continue
            cons = r1.cons + tuple(c for c in r2.cons if c not in r1.cons)
            if any((a, absint.NEG[op], b) in cons for a, op, b in cons):
                continue
            r = Reg(o, cons)
            if t1 == t2:
                ok += 1
                continue
            (l1, h1), (l2, h2) = r.rng(t1), r.rng(t2)
            if l1 == h1 == l2 == h2 or r.rng(absint.t_sub(t1, t2)) == (0, 0):
                ok += 1
                continue
            pt = next((p for p in r.points((t1, t2)) if ev(t1, p) != ev(t2, p)), None)
            if pt is None:
                open_ += 1
            else:
                bad.append((r, t1, t2, pt, ins))
    return bad, ok, open_


def one(job):
    """one primitive: (name, violations, equal regions, undecided, shifts)"""
    (name, args, ret, code, spec, kind), fc, fs, tier = job
    viol, ok, und, why = [], 0, 0, set()
    for sh in cases(kind, args, ret):
        try:
            env, reg = region(args, sh)
            s = Interp(fs).run(env, reg)
            env, reg = region(args, sh)
            c = Interp(fc).run(env, reg)
            at = '' if not sh else 'for a shift of %d ' % sh[0] if sh[0] == sh[1] else 'for shifts in [%d, %d] ' % sh
            for tag, ins, r, t, pt in c.alarms:
                if pt is None:
                    und += 1
                    why.add('possible overflow')
                else:
                    viol.append((tag, ins.get('loc'), '%s%s of %s where %s, e.g. %s' % (at, tag, text(t), show(r), pt)))
            if s.alarms:
                raise Broken('requirement of %s overflows' % name)
            bad, k, u = compare(c.paths, s.paths)
            ok += k
            und += u
            if u:
                why.add('regions without a closed form')
            for r, t1, t2, pt, ins in bad[:2]:
                viol.append(('value', ins.get('loc'), '%sreturns %s where %s; required %s (e.g. %s: %d instead of %d)' % (at, text(t1), show(r) or 'always', text(t2), pt, ev(t1, pt), ev(t2, pt))))
        except Giveup as e:
            und += 1
            why.add(str(e))
        except RecursionError:
            und += 1
            why.add('depth')
    return name, viol, ok, und, sorted(why)


def run(R, only=None):
    tab = [t for t in table() if not only or re.search(only, t[0])]
    for cfg in ('up', 'convergent'):
        p, live, gone = probe(cfg, tab)
        for g in gone:
            R.count('primitives no longer present under their name (not decided)')
        d = front.dump(front.compile_bc([p], cfg), ['--roots=^[cs]_', '--inline-main', '--inline=.*'] + front.NORMAL, 'p11_' + cfg)
        fns = {f['name']: f for f in d['functions']}
        jobs = [(t, fns['c_' + t[0]], fns['s_' + t[0]], R.tier) for t in live]
        with ProcessPoolExecutor(8) as ex:
            for name, viol, ok, und, why in ex.map(one, jobs, chunksize=1):
                R.count('primitive instantiations')
                R.obl += ok + und
                R.count('regions proved equal', ok)
                if und:
                    R.count('regions undecided', und)
                R.units.append('%s (%s): %d regions equal%s' % (name, cfg, ok, '; %d undecided: %s' % (und, ', '.join(why)) if und else ''))
                for tag, loc, txt in viol[:3]:
                    R.violation('mli_math_%s' % name, HDR, '(%s rounding) %s' % (cfg, txt))
