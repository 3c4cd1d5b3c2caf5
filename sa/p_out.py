"""P30: what a kernel leaves in the header of its output tensor."""
import os, re
import front, facts
from front import Broken
from cond import Mod, const
from m3 import PCond, TCond, QCond
from prov import Prov

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'convergent', 'release']}
# the data loops: they are handed raw element pointers or views and cannot reach a header
COMPUTE = ('adjust_quant_params|adjust_weights_\\w+|dec_scales_for_new_gate|inc_scales_for_new_gate|activation_lut\\w*|rnn_dense_op_stacked|calc_convert_params|quant_params_\\w+|mli_prv_convert_\\w+|compute_\\w+|calc_mul|calc_convert|conv2d_run|convolution2D|depthwise_convolution2D|'
           'depthwise_convolution2D_wrapper|dotprod[123]D|eltwise_innerloop|eltwise_op_basic|fill_dst_array|group_convolution2D|heap_select_k|heap_sort|heapify|'
           'inner_loop|inner_product|mli_krn_pool_hwc_nopad|mli_krn_pool_hwc_pad|mli_krn_softmax_fx_run|mli_krn_softmax_sa8_run|'
           'normalize_tensor|normalize_tensor_one_dim|reduce_max2D_hwc|reduce_sum2D\\w*|rnn_dense_op|transpose_conv2d_run|transpose_convolution2D|define_quant_params|define_requant_params|leaky_relu_define_\\w+|prelu_define_\\w+|'
           'mli_prv_get_\\w*tensor\\w*|mli_prv_squash_\\w+|mli_prv_reorder_\\w+|mli_prv_rotate_\\w+|mli_prv_activation_lut\\w*|mli_prv_tensor_data_\\w+|mli_prv_get_relu_limits|mli_krn_permute_calc|mli_prv_valid_area_compensations|normalize_sum|get_mul_shift_value|mli_krn_softmax_get_max|mov_inner_loop')
KEEP = r'(^|::| )(%s)(<|\()' % COMPUTE.replace('\\w', '[A-Za-z0-9_]')


MOVES = re.compile(r'::mov_inner_loop<')
SPEC = facts.load('P30') if os.path.exists(facts.specfile('P30')) else {}
SKIP = re.compile(r'^mli_krn_permute_sa8$')             # decided with the rank fixed (probes)


def library(cfg):
    srcs = [s for s in front.lib_sources() if ('/kernels/' in s or '/bricks/' in s or '/private/' in s or s.endswith('/mli_mov_api.cc')) and not s.endswith(('_compiler.cc', '_runtime.cc'))]
    bc = front.compile_bc(srcs + [front.VERIF + '/sa/probes/p30.cc'], cfg, ['-fno-access-control', '-fstandalone-debug'])
    d = front.dump(bc, ['--roots=^mli_krn_|^p_', '--strip-inline=' + KEEP, '--noinline=^mli_chk_|^mli_prv_fx_init|' + KEEP, '--inline=.*', '--inline-main', '--globals', '--reach'] +
                   front.NORMAL, 'out_' + cfg)
    global M, PROV
    M, PROV = Mod(d), Prov(d)
    return M


class OCond(PCond):
    """a data loop leaves alone what the provenance of its stores does not name"""
    unroll = 5

    def cmp(self, pred, a, b, w=32):
        if pred == 'ult' and re.match(r'\$k\d+$', a.s):      # a counter is not negative
            pred = 'slt'
        return super().cmp(pred, a, b, w)

    def written(self, name, i, args):
        w = super().written(name, i, args)
        f = self.m.fns.get(i.get('callee'))
        if w and f and f['blocks']:
            s = PROV.summary(f['name'])
            hit = {o[1] for (o, off, st, nb), l in s.writes.items() if o[0] == 'a'}
            w = {k: v for k, v in w.items() if k in hit}
        return w


def plain(t):
    return re.sub(r'\.mem\.p\w*$', '.mem.p', t)


def subject(n):
    f = M.fns[n]
    c = OCond(M, f)
    if not outputs(c, f):
        return None
    ok = 0
    for Rr, v, ins in c.rets:
        for g, x in c.ascases(v):
            ok = c.b.OR(ok, c.b.AND(c.b.AND(Rr, g), c.cmp('eq', x, const(0))))
    if not ok:
        raise Broken('%s never succeeds' % n)
    fs = {}
    name = n[2:] if n.startswith('p_') else n
    keep = SPEC.get(name, {}).get('facts', ())
    fx = re.search(r'_fx\d+(_|$)', n) is not None
    for a in outputs(c, f):
        for o, s, ty, nm in list(c.leaves(M.strip(a.bt))):
            nm = nm.lstrip('.')
            if nm.startswith('el_params'):
                if fx:
                    if nm != 'el_params.sa.type':
                        continue
                    s, ty, nm = 1, 'i8', 'el_params.fx.frac_bits'
                elif nm.endswith('.mem.pi32'):
                    w = 1 if 'frac' in nm else 2
                    put(c, fs, a, o, w, 'i%d' % (8 * w), nm.replace('pi32', 'i%d' % (8 * w)), ok, keep)
            put(c, fs, a, o, s, ty, nm, ok, keep)
    fs.update({k: ([(c.b.AND(g, ok), t) for g, t in cs], ok) for k, (cs, R) in
               list(facts.stores(c, lambda t: re.search(r'out->el_params.*\.mem\.p', t)).items()) + list(facts.calls(c, lambda x: MOVES.search(x), short=lambda x: 'mov_inner_loop').items()) if k.startswith('store') or 'el_params' in k})
    where = {'mov': 'lib/src/move/mli_mov_api.cc', 'per': 'lib/src/kernels/diverse/impl/mli_krn_permute_ref.h'}.get(name[:3])
    return name, c, fs, where or '%s:%s' % (front.rel(f['file']), f['line'])


def outputs(c, f):
    return [a for k, a in enumerate(c.args) if a.bt is not None and a.bt >= 0 and M.types[M.strip(a.bt)].get('name') in ('mli_tensor', '_mli_tensor') and not c.is_const_ptr(f['args'][k]['t']) and a.s != 'in']


def put(c, fs, a, o, s, ty, nm, ok, keep):
    """what is at the place when the function reports success, unless what was there before"""
    acc = {}
    for (Rr, v, ins), tm in zip(c.rets, c.rets_t):
        for g, x in c.read(a, o, s, ty, tm, Rr):
            g = c.b.AND(c.b.AND(g, Rr), ok)
            if g and not re.search(r'bytes\[|\{\{|\{[^{}]*\|', x.s):    # the other view of the place
                acc[x.s] = c.b.OR(acc.get(x.s, 0), g)
    if '%s.%s' % (a.s, nm) in keep:
        pass
    elif nm == 'el_type' and set(acc) == {'in->el_type'}:   # what the parameter check demands anyway
        return
    elif all(plain(t).replace('->', '.') in ('%s.%s' % (a.s, plain(nm)),) for t in acc):
        return
    fs['%s.%s' % (a.s, nm)] = ([(g, t) for t, g in acc.items()], ok)


def subjects(cfg, only=None):
    """every kernel entry point and every fixed-rank probe"""
    m = library(cfg)
    ns = [n for n, f in sorted(m.fns.items()) if re.match('mli_krn_|p_', n) and f['blocks'] and f['linkage'] != 'internal' and not SKIP.match(n) and (not only or re.search(only, n))]
    for n in ns:
        s = subject(n)
        if s:
            yield s


def p30(cfg): return subjects(cfg)


def run(R):
    facts.run(R, subjects, CFG[R.tier], lambda n: not re.match(r'\w+\.', n), rel=True, drop=lambda n: n.startswith('call ') and not any(MOVES.search(f['dem']) for f in M.fns.values()))


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    for n, c, fs, w in subjects('up', sys.argv[1]):
        print(n, len(fs), w)
        for k, (cs, R) in fs.items():
            print('    %s = %s' % (k, ' | '.join('%s%s' % (t, '' if c.b.AND(g, R) == R else ' [%s]' % c.b.show(c.b.simplify(g, R))[:150]) for g, t in cs)[:300]))
