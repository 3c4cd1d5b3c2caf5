"""P19: which elements the data loops of a kernel read, combine and write."""
import hashlib, os, re
import front, facts
from front import Broken
from cond import Mod, const
from m3 import TCond, QCond
from prov import Prov

CFG = {'quick': ['up', 'fullacc'], 'thorough': ['up', 'fullacc', 'convergent']}
# the units: data loops and the arithmetic of one element; anything else is part of whoever uses it
UNITS = ('convolution2D|depthwise_convolution2D|depthwise_convolution2D_wrapper|group_convolution2D|transpose_convolution2D|conv2d_run|transpose_conv2d_run|'
         'inner_product|rnn_dense_op|rnn_dense_op_stacked|dotprod[123]D\\w*|reduce_sum\\w*|reduce_max2D_hwc|compute_avepool\\w*|mli_krn_pool_hwc_\\w+|mli_krn_pool_hwc|'
         'eltwise_op_basic|eltwise_innerloop|eltwise_perform_operation|mli_krn_permute_calc|mli_prv_valid_area_compensations|in_additive|weights_additive|'
         'zp_additive|bias_additive|compute_leaky_relu\\w*|compute_prelu\\w*|compute_relu\\w*|normalize_\\w+|compute_normalized_sum_square\\w*|argmax|fill_dst_array|heap\\w*|'
         'activation_lut|activation_lut_one_elem\\w*|compute_activation_lut|compute_clip\\w*|compute_rescale\\w*|clip_value|rescale_value|result_cast\\w*|'
         'mli_krn_softmax_get_max|adjust_weights\\w*|adjust_quant_params|dec_scales\\w*|inc_scales\\w*|calc_mul|get_mul_shift_value|define_\\w+|'
         'mli_krn_\w+_run|prelu_\w+_run|leaky_relu_\w+_run|\w+_prepare_and_run|leaky_relu_define\\w*|prelu_define\\w*|mli_prv_get_relu_limits|mli_prv_convert\\w*|mli_prv_calc\\w*').replace('\\w', '[A-Za-z0-9_]')
KEEP = r'(^|::| )(%s)(<|\()' % UNITS
PREP = 'mli_prv_(get_(generic|non_axis|axis)_tensor|get_tensor_(hwc|chw)|get_conv2d_weights_tensor[a-z0-9_]*|squash_[a-z_]*|reorder_[a-z_]*|rotate_[a-z_]*|count_elem_num[a-z_]*)'    # decided by P17 and P15
HOLD = PREP + '|calc_convert_params|mli_math_([^m]|m(ac|ul|em))|mli_hlp_|mli_chk_|mli_prv_(calc|convert|get_relu)[A-Za-z0-9_]*'
ENTRY = r'^mli_krn_(conv2d|depthwise_conv2d|group_conv2d|transpose_conv2d|fully_connected|avepool|maxpool|rnn_dense)'


def shorten(t):
    """name of a function without namespaces and parameter types"""
    t = re.sub(r' \(\.\d+\)$', '', t)
    t = re.sub(r'(snps_arc::)?(metaware::)?mli::((krn|ref|dsp|vdsp|mli_math)::)*|snps_arc::metaware::|\(anonymous namespace\)::', '', t)
    depth, out = 0, ''
    for k, ch in enumerate(t):                    # cut at the parameter list: the first '(' outside of <>
        if ch == '(' and depth == 0 and out:
            break
        depth += (ch in '<(') - (ch in '>)')
        out += ch
    d, st = 0, 0
    for k, ch in enumerate(out):                  # and the result type
        d += (ch in '<(') - (ch in '>)')
        if ch == ' ' and d == 0:
            st = k + 1
    out = out[st:]
    for a, b in (('signed char', 'i8'), ('unsigned int', 'u32'), ('short', 'i16'), ('long', 'i64'), ('int', 'i32'), ('_quant_specific_params', '')):
        out = re.sub(r'\b%s\b' % a if a[0] != '_' else a, b, out)
    return re.sub(r'\([a-z_]\w*\)', '', out).replace(', ', ',')


def library(cfg):
    srcs = [s for s in front.lib_sources() if '/kernels/' in s and not s.endswith('_compiler.cc')]
    bc = front.compile_bc(srcs, cfg, ['-fno-access-control', '-fstandalone-debug'])
    d = front.dump(bc, ['--roots=^mli_krn_|' + KEEP, '--strip-inline=' + KEEP + '|' + PREP + '|calc_convert_params|mli_prv_(calc|convert|get_relu)', '--noinline=' + HOLD + '|' + KEEP, '--inline=.*', '--inline-main', '--globals'] + front.NORMAL, 'win_' + cfg)
    global M, PROV
    for f in d['functions']:
        f['sdem'] = shorten(f['dem'])
    M = Mod(d)
    PROV = Prov(d)
    return M


class WCond(QCond, TCond):
    unroll = 0
    ptrform = True

    def headercmp(self, k, pred, a, b, w):
        if k:
            pred = {'slt': 'ult', 'sge': 'uge', 'sgt': 'ugt', 'sle': 'ule'}.get(pred, pred)
        return super().headercmp(k, pred, a, b, w)


def tidy(t, c):
    """names of the caller's own variables and digests of loops say nothing"""
    seen = {}
    t = re.sub(r'loop\{([0-9a-f]+)\}', lambda m: 'loop{%d}' % seen.setdefault(m.group(1), len(seen)), t)
    own = set(c.locals) - {a.s for a in c.args}

    def r(m):
        return m.group(1) + 'own' + role(m.group(2), c) if m.group(2) in own else m.group(0)
    return re.sub(r'((?<![\w>.\])}~])&?)([A-Za-z_]\w*(?:~\d*)?)(?=[.\[+,)\s]|$)', r, t)


def role(n, c):
    """the parameters an object of the caller is made from tell it from the others"""
    if not hasattr(c, 'roles'):
        if not hasattr(c, 'done'):
            return ''
        c.roles = {}
        args = {a.s for a in c.args}
        for e in c.events.values():
            if e[0] == 'store':
                to, what = [t.s for g, t in e[2][0]], [x.s for g, x in c.ascases(e[2][1])]
            elif e[0] == 'call' and e[2][1] and e[2][0] and not PURE.match(e[2][0]):
                to, what = [t.s for g, t in e[2][1][0]], [x.s for a in e[2][1][1:] for g, x in a]
            else:
                continue
            ns = {w for x in what for w in re.findall(r'(?<![\w.>])[A-Za-z_]\w*', x)} & args
            for t in to:
                m = re.match(r'&?([A-Za-z_]\w*(?:~\d*)?)', t)
                if m and m.group(1) not in args:
                    c.roles.setdefault(m.group(1), set()).update(ns)
    r = c.roles.get(n)
    return '{%s}' % ','.join(sorted(r)) if r else ''


def local(t, c=None):
    m = re.match(r'&?([A-Za-z_]\w*~?)(\.|\[|$| )', t)
    return m is not None and (c is None or m.group(1) not in {a.s for a in c.args})


class WCond(WCond):
    def callee_name(self, i):
        if i.get('callee') is None:
            return None
        return shorten(i.get('cdem') or i['callee'])

    def call(self, i, R):
        """the objects of the caller that a call is given are read before it is made"""
        f = self.m.fns.get(i.get('callee'))
        if f and not PURE.match(self.callee_name(i)):
            got = self.__dict__.setdefault('given', {})
            for k, o in enumerate(i['ops']):
                a = self.ascases(self.val(o))
                t = a[0][1] if len(a) == 1 else None
                if t is None or not re.match(r'&[A-Za-z_]\w*~?\d*$', t.s):
                    continue
                bt = getattr(t, 'bt', None)
                if bt is None or bt < 0:
                    bt = argtype(f, k)
                RR = self.curR()
                got[i['id'], k] = [(n, [(self.b.AND(g, RR), x) for g, x in self.read(t, o, s, ty, len(self.log), RR) if self.b.AND(g, RR)])
                                   for o, s, ty, n in self.leaves(bt)] if bt is not None and bt >= 0 else []
        return super().call(i, R)

    def passed(self, ins, k, a):
        """what a call is given: [(name, cases)]; an object of the caller is shown by what it holds"""
        ls = self.__dict__.get('given', {}).get((ins['id'], k))
        if ls is None:
            return [('', a)]
        return [(n, cs) for n, cs in ls] if not all(x.s == 'uninit' for n, cs in ls for g, x in cs) else []


NAMES = {}


def argtype(f, k):
    """pointed-to type of a parameter"""
    n = f['name']
    if n not in NAMES:
        c = WCond.__new__(WCond)
        WCond.__init__(c, M, f)
        NAMES[n] = [M.strip(a.bt) if a.bt is not None and a.bt >= 0 else -1 for a in c.args]
    return NAMES[n][k] if k < len(NAMES[n]) else -1


def pure(i):
    """a value and nothing else: it is part of what it is used in"""
    f = M.fns.get(i.get('callee'))
    if f is None or not f['blocks'] or i['ty'] == 'void':
        return False
    return not any(o[0] in 'ag' for (o, off, st, nb) in PROV.summary(f['name']).writes)


def calls(c, want):
    evs = {}
    for e in c.events.values():
        if e[0] == 'call' and e[2][0] is not None and want(e[3]):
            evs.setdefault(e[2][0], []).append(e)
    fs, acc = {}, {}
    for name, es in evs.items():
        excl = all(c.b.AND(x[1], y[1]) == 0 for k, x in enumerate(es) for y in es[:k])
        if excl:
            fs['call ' + name] = ([(R, 'made') for _, R, _, _ in es], 1)
            for _, R, (_, args), ins in es:
                for k, a in enumerate(args):
                    for n, cs in c.passed(ins, k, a):
                        x = fs.setdefault('call %s arg %d%s' % (name, k, n), ([], 0))
                        fs['call %s arg %d%s' % (name, k, n)] = (x[0] + [(c.b.AND(g, R), tidy(t.s, c)) for g, t in cs], c.b.OR(x[1], R))
            continue
        for _, R, (_, args), ins in es:
            ts = []
            for k, a in enumerate(args):
                p = ['%s %s' % (n, tidy(c.text([(c.b.AND(g, R), x) for g, x in cs], R), c)) for n, cs in c.passed(ins, k, a)]
                ts.append(p[0][1:] if len(p) == 1 and p[0][0] == ' ' else '{%s}' % '; '.join(p))
            k = 'call %s(%s)' % (name, ', '.join(ts))
            acc[k] = c.b.OR(acc.get(k, 0), R)
    fs.update({k: ([(R, 'made')], 1) for k, R in acc.items()})
    return fs


def subject(f):
    c = WCond(M, f)
    c.done = True
    fs = facts.retfact(c)
    fs.update(calls(c, lambda i: not PURE.match(c.callee_name(i)) and not pure(i)))
    ends = final(c)
    skip = set(ends) | getattr(c, 'firstplace', set())
    fs.update(facts.stores(c, lambda t: not local(t, c) and plain(t) not in skip))
    fs.update({'store ' + k: x for k, x in ends.items()})
    if DRIVER.match(f['sdem']):
        fs = {k: x for k, x in fs.items() if 'el_params' not in k.split(' = ')[0].split(' arg ')[0] or not k.startswith('store')}       # P30
    return c, {tidy(k, c): ([(g, tidy(t, c)) for g, t in cs], R) for k, (cs, R) in fs.items()}


DRIVER = re.compile(r'\w+_run(<|$)')


def plain(t):
    return re.sub(r'->|\.', '.', re.sub(r'(\.mem)?\.pi\d+$|\.mem\.\w+$', '', t.lstrip('&').replace('[0]', '')))


def final(c):
    """what the function leaves in fixed places of its arguments"""
    written = {plain(t.s): t.s for e in c.events.values() if e[0] == 'store' for g, t in e[2][0] if '$' not in t.s}
    out = {}
    for a in c.args:
        if a.bt is None or a.bt < 0:
            continue
        for o, s, ty, n in c.leaves(M.strip(a.bt)):
            k = plain('%s%s' % (a.s, n))
            if k not in written:
                if o or plain(a.s) not in written:
                    continue
            cs, tot = [], 0
            for (Rr, v, i), tm in zip(c.rets, c.rets_t):
                tot = c.b.OR(tot, Rr)
                cs += [(c.b.AND(g, Rr), x.s) for g, x in c.read(a, o, s, ty, tm, Rr) if c.b.AND(g, Rr)]
            if not any('loop{' in t or 'bytes[' in t for g, t in cs):
                out[k] = (cs, tot)
                c.firstplace = getattr(c, 'firstplace', set()) | ({plain(a.s)} if not o else set())
    return out


PURE = re.compile(r'mli_math_|mli_chk_|mli_hlp_|mli_prv_(count|calc|convert|get_relu)|llvm\.')


def subjects(cfg, only=None):
    library(cfg)
    seen = {}
    for n, f in sorted(M.fns.items(), key=lambda x: (x[1]['sdem'], len(x[1]['args']), x[0])):
        if not f['blocks'] or not (re.match(ENTRY, n) or re.search(KEEP, f['dem'])) or only and not re.search(only, f['sdem']):
            continue
        name = '%s/%d' % (f['sdem'], len(f['args']))
        if name in seen:
            continue
        if cfg == 'fullacc' and FULL.match(name):
            name += ' with FULL_ACCU'
        c, fs = subject(f)
        seen[name] = 1
        yield name, c, fs, '%s:%s' % (front.rel(f['file']), f['line'])


FULL = re.compile(r'(adjust_quant_params|bias_additive|result_cast|mli_krn_pool_hwc_nopad)<.*')     # units with another arithmetic in that configuration


def p19(cfg): return subjects(cfg)


def base(n):
    return re.split('[</]', n)[0]


def run(R):
    spec = facts.load('P19')
    want = {}
    for n in spec:
        want.setdefault(base(n), set()).add(n.rsplit('/', 1)[1].split()[0])

    class Skip(dict):
        pass

    def subs(cfg):
        """units whose signature is another one, and those who call them, are not compared"""
        got = {}
        xs = list(subjects(cfg))
        for n, c, fs, w in xs:
            got.setdefault(base(n), set()).add(n.rsplit('/', 1)[1].split()[0])
        off = {b for b in want if got.get(b) != want[b] and not (cfg != 'up' and b in got)}
        if len(off) > len(want) / 2:
            raise Broken('P19 (%s): most of the units are gone: %s' % (cfg, ', '.join(sorted(off))[:200]))
        for n, c, fs, w in xs:
            if base(n) in off or any(base(f.split(' ')[1].split('(')[0]) in off for f in spec.get(n, {}).get('facts', ()) if f.startswith('call ')):
                R.count('units not compared (a signature changed)')
                continue
            yield n, c, fs, w
    facts.run(R, subs, CFG[R.tier], lambda n: not n.startswith(('call ', 'store ', 'return')), gone=set(spec), rel=True)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    L = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    for n, c, fs, w in subjects('up', sys.argv[1]):
        print(n, len(fs), w)
        for k, (cs, R) in fs.items():
            print('   ', k[:L], '::', [(t[:L], c.b.show(c.b.simplify(g, R))[:200]) for g, t in cs][:3])
