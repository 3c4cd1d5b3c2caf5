"""P16: the built-in activation tables, what the create functions hand out, and how one element is looked up.
The tables are constants of the resolved program: every entry is compared with the function it tabulates, in the formats the create
function of that kernel reports.  Lookups are described by probes (sa/probes/p16.cc) and compared with the confirmed table."""
import math, os, re
import front, facts, p_tsr
from front import Broken
from cond import Mod
from m3 import LCond

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'release', 'convergent']}
KEEP = 'mli_math_a|mli_math_cast|mli_math_sub|mli_math_mul|mli_math_sat|mli_chk_|convert_sa8_fx|convert_fx16_sa'
FX16 = 16
FUN = {'tanh': ('tanh(x)', math.tanh), 'sigm': ('1/(1+e^-x)', lambda x: 1 / (1 + math.exp(-x))),
       'softmax': ('e^min(x,0)', lambda x: math.exp(min(x, 0.0))), 'l2_normalize': ('1/sqrt(x)', lambda x: 1 / math.sqrt(x))}
FIELDS = ('type', 'length', 'in_frac_bits', 'out_frac_bits', 'input_offset', 'output_offset')


def short(t):
    return re.sub(r'\b(?:signed char|short|int|long|unsigned \w+) (mli[\w:]*_\w+)<([^<>]*)>', lambda m: m.group(1).split('::')[-1] + '<' + m.group(2) + '>', t)


def subj(cfg, only=None):
    p, text, gone = p_tsr.usable('P16', cfg)
    bc = front.compile_bc([p], cfg, ['-fstandalone-debug'])
    d = front.dump(bc, ['--roots=^p_', '--inline=.*', '--noinline=' + KEEP, '--strip-inline=' + KEEP, '--globals'] + front.NORMAL, 'p16_' + cfg)
    m = Mod(d)
    for n in re.findall(r'\b(p_\w+)\(', text):
        f = m.fns.get(n)
        if f is None or not f['blocks']:
            raise Broken('probe %s missing' % n)
        c = LCond(m, f)
        fs = {k: ([(g, short(t)) for g, t in cs], R) for k, (cs, R) in facts.retfact(c).items()}
        yield n[2:], c, fs, 'lib/src/bricks/impl/mli_prv_lut_ref.h'


def flat(init, base=0):
    """(offset, scalar) pairs of an initialiser"""
    k = init[0]
    if k == 'agg':
        for o, x in init[1]:
            yield from flat(x, base + o)
    elif k == 'da':
        for i, v in enumerate(init[2]):
            yield base + i * init[1], ('c', v, 8 * init[1])
    else:
        yield base, init


def tables(R, cfg):
    src = [x for x in front.lib_sources() if re.search(r'/(kernels/transform|private)/', x) and 'compiler' not in x and 'runtime' not in x]
    d = front.dump(front.compile_bc(src, cfg, ['-fstandalone-debug']), [r'--roots=^mli_krn_[a-z0-9_]+_(create_lut|get_lut_size)$', '--inline=.*', '--noinline=mli_chk_', '--globals'] + front.NORMAL, 'lut_' + cfg)
    m = Mod(d)
    G = {g['name']: g for g in d['globals']}
    dem = {g['dem']: g for g in d['globals']}
    for kern, (fname, f) in sorted(FUN.items()):
        fn = m.fns.get('mli_krn_%s_create_lut' % kern)
        if fn is None or not fn['blocks']:
            R.count('create functions not present')
            continue
        where = front.rel('%s:%s' % (fn['file'], fn['line']))
        c = LCond(m, fn)
        ok = 0
        for Rr, v, ins in c.rets:
            for g, x in c.ascases(v):
                if x.s == '0':
                    ok = c.b.OR(ok, c.b.AND(Rr, g))
        R.obligation(ok != 0, kern + ' create', where, 'never succeeds')
        a = c.args[0]
        st = {k.lstrip('.'): v for k, v in facts.state(c, a, m.strip(a.bt), '', R=ok).items()}
        val = {}
        for n in FIELDS:
            ts = {t for g, t in st[n][0] if c.b.AND(g, ok)}
            if not R.obligation(len(ts) == 1 and re.match(r'-?\d+$', min(ts)) is not None, '%s %s' % (kern, n), where, 'the descriptor handed out has %s = %s, not the constant of the table' % (n, ' | '.join(sorted(ts)))):
                continue
            val[n] = int(min(ts))
        if len(val) < len(FIELDS):
            continue
        R.obligation(val['type'] == FX16, kern + ' type', where, 'element type %d is not FX_16 although entries have 16 bits' % val['type'])
        R.obligation(val['output_offset'] == 0, kern + ' output_offset', where, 'the table is declared with output offset %d, its entries have none' % val['output_offset'])
        # what is copied: bytes of a constant array into lut->data
        cp = copies(c, m, ok)
        if not cp:
            R.violation(kern + ' copy', where, 'no copy of the table into the memory of the caller when it succeeds')
            continue
        for src_, g, size, loc in cp:
            gl = dem.get(src_) if src_ else None
            if gl is None or 'init' not in gl:
                R.count('copies whose source is not a constant (not decided)')
                continue
            arr = [v for o, v in sorted(flat(gl['init']), key=lambda x: x[0])]
            w = arr[0][2] // 8
            ent = [x[1] for x in arr]
            ent = [x - (1 << (8 * w)) if x >= 1 << (8 * w - 1) else x for x in ent]
            at = '%s:%s' % (front.rel(gl['file']), gl['line'])
            R.obligation(w == 2, kern + ' width', at, 'entries of %d bytes' % w)
            R.obligation(size == val['length'] * w, kern + ' copied', where, '%s bytes are copied for %d entries of %d bytes' % (size, val['length'], w))
            R.obligation(len(ent) == val['length'], kern + ' length', at, 'the table has %d entries, its descriptor declares %d' % (len(ent), val['length']))
            bad = []
            for i, e in enumerate(ent):
                x = (i - val['input_offset']) / 2.0 ** val['in_frac_bits']
                try:
                    y = f(x) * 2.0 ** val['out_frac_bits']
                except (ValueError, ZeroDivisionError):
                    y = float('nan')
                y = max(-32768.0, min(32767.0, y))
                R.obl += 1
                if not abs(e - y) <= 0.5 + 1e-9:
                    bad.append((i, e, x, y))
            R.count('table entries', len(ent))
            R.units.append('%s: %d entries of %s, input Q.%d offset %d, output Q.%d' % (kern, len(ent), fname, val['in_frac_bits'], val['input_offset'], val['out_frac_bits']))
            if bad:
                i, e, x, y = bad[0]
                R.violation(kern + ' entries', at, '%d of %d entries of %s are not %s rounded in the declared formats; first: entry %d is %d, %s at %g is %.3f' % (len(bad), len(ent), src_, fname, i, e, fname, x, y))
        # the size the caller is told and asked for
        gs = m.fns.get('mli_krn_%s_get_lut_size' % kern)
        if gs is not None and gs['blocks']:
            c2 = LCond(m, gs)
            ts = {t for g, t in facts.retfact(c2)['return'][0]}
            R.obligation(ts == {str(2 * val['length'])}, kern + ' get_lut_size', front.rel('%s:%s' % (gs['file'], gs['line'])), 'reports %s bytes, the table takes %d' % (' | '.join(sorted(ts)), 2 * val['length']))
        if cfg != 'release':
            for k in facts.calls(c, lambda n: n.startswith('mli_chk_')):
                r = re.match(r'call mli_chk_lut\(.*, (.*)\)$', k)
                if r:
                    R.obligation(r.group(1) == str(2 * val['length']), kern + ' check', where, 'the memory of the caller is checked for %s bytes, %d are written' % (r.group(1), 2 * val['length']))


def copies(c, m, ok):
    """(source object, guard, bytes, location) of block copies and copying loops into lut->data"""
    out = []
    for e in c.events.values():
        if e[0] == 'memcpy' or (e[0] == 'call' and re.match(r'(llvm\.)?mem(cpy|move)', e[2][0] or '')):
            args = e[2][1]
            g = c.b.AND(e[1], ok)
            if not g:
                continue
            dst, src, n = [c.text(x, g) for x in args[:3]]
            if '->data.mem' in dst:
                out.append((src.lstrip('&'), g, int(n) if re.match(r'\d+$', n) else n, e[3]))
    for k, (cs, R) in facts.stores(c, lambda t: '->data.mem' in t).items():         # copied entry by entry
        r = re.match(r'store \w+->data\.mem\.\w+\+2\*(\$k\d+) = (\w+)\[(\$k\d+)\]$', k)
        ns = [int(n) for g, t in cs for n in re.findall(re.escape(r.group(1)) + r' u?< (\d+)', facts.show(c, g))] if r else []
        if r and r.group(1) == r.group(3) and len(ns) == 1:
            out.append((r.group(2), cs[0][0], 2 * ns[0], None))
        else:
            out.append((None, cs[0][0], None, None))
    return out


def run(R):
    for cfg in CFG[R.tier]:
        tables(R, cfg)
    miss = set()
    for cfg in CFG[R.tier]:
        miss |= set(p_tsr.gone('P16', cfg))
    for g in sorted(miss):
        R.count('functions no longer present under their name (not decided)')
    facts.run(R, subj, CFG[R.tier], gone=miss)
