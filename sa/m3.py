"""Probes for the MLI 3 objects: small extern "C" functions that use only the public API of the compiler-support and
runtime classes; compiled together with the kernel sources and resolved to the arguments of the low level kernel."""
import os
import re
import front

K = front.LIB + '/kernels/'
NS = 'lib_mli::'


def it(r, ir):
    return ('it', r, ir)


def tn(r):
    return ('tn', r)


def cfg(t):
    return ('cfg', t)


EL = dict(src=None, pd='EltwisePrivateData')


def elt(n):
    return dict(cs=n + '_CS', rt=n, src=[K + 'eltwise/mli_krn_%s_compiler.cc' % n.lower(), K + 'eltwise/mli_krn_%s_runtime.cc' % n.lower()], pd='EltwisePrivateData', pdarg='k%sId' % n,
                ctor={'': [('left', it(4, 4)), ('right', it(4, 4)), ('out', it(4, 4))],
                      'tns': [('left', tn(4)), ('right', tn(4)), ('out', tn(4))]},
                att={'': ['left', 'right', 'out', 'ctrl'], 'tns': [('left', 4), ('right', 4), ('out', 4), 'ctrl']},
                io=[('l_size', 'u', 4), ('r_size', 'u', 4), ('o_size', 'u', 4), ('l_offs', 'i', 4), ('r_offs', 'i', 4), ('o_offs', 'i', 4)],
                sizes=['GetInputLeftBufferSize', 'GetInputRightBufferSize', 'GetOutputBufferSize'])


IO2 = [('i_size', 'u', 4), ('o_size', 'u', 4), ('i_offs', 'i', 4), ('o_offs', 'i', 4)]


def conv(ior, wr, zr, ir):
    return [('i_size', 'u', ior), ('o_size', 'u', ior), ('w_size', 'u', wr), ('i_offs', 'i', ior), ('o_offs', 'i', ior), ('w_offs', 'i', wr)]


def pool(n, low):
    return dict(cs=n + '_CS', rt=n, src=[K + 'pooling/mli_krn_%s_compiler.cc' % low, K + 'pooling/mli_krn_%s_runtime.cc' % low], pd='Pool2DPrivateData', pdarg='k%sId' % n,
                ctor={'': [('in', it(4, 4)), ('cfg', cfg('PoolOpConfig')), ('out', it(4, 4))],
                      'tns': [('in', tn(4)), ('cfg', cfg('PoolOpConfig')), ('out', tn(4))]},
                att={'': ['in', 'out', 'ctrl'], 'tns': [('in', 4), ('out', 4), 'ctrl']}, io=IO2, sizes=['GetInputBufferSize', 'GetOutputBufferSize'])


KERNELS = {
    'add': elt('Add'), 'sub': elt('Sub'), 'mul': elt('Mul'), 'max': elt('Max'), 'min': elt('Min'),
    'maxpool': pool('MaxPool2D', 'maxpool'), 'sumpool': pool('SumPool2D', 'sumpool'),
    'conv2d': dict(cs='Conv2d_CS', rt='Conv2d', src=[K + 'convolution/mli_krn_conv2d_compiler.cc', K + 'convolution/mli_krn_conv2d_runtime.cc'], pd='Conv2DPrivateData',
                   ctor={'': [('in', it(5, 5)), ('inzp', it(1, 5)), ('w', it(5, 5)), ('wzp', it(1, 5)), ('cfg', cfg('Conv2DConfig')), ('out', it(5, 5))],
                         'old': [('in', it(5, 5)), ('w', it(5, 5)), ('wzp', it(1, 5)), ('cfg', cfg('Conv2DConfig')), ('out', it(5, 5))],
                         'tns': [('in', tn(4)), ('w', tn(5)), ('cfg', cfg('Conv2DConfig')), ('out', tn(4))]},
                   att={'': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl'], 'old': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl'], 'tns': [('in', 4), ('out', 4), 'w', 'inzp', 'wzp', 'ctrl']},
                   io=conv(5, 5, 1, 5), sizes=['GetEncodedWeightsSize', 'GetEncodedInpZeroPtsSize', 'GetEncodedWtsZeroPtsSize', 'GetInputBufferSize', 'GetOutputBufferSize', 'GetWeightsBufferSize', 'GetZeroPointBufferSize']),
    'dwconv2d': dict(cs='DepthwiseConv2d_CS', rt='DepthwiseConv2d', src=[K + 'convolution/mli_krn_depthwise_conv2d_compiler.cc', K + 'convolution/mli_krn_depthwise_conv2d_runtime.cc'], pd='DepthwiseConv2DPrivateData',
                     ctor={'': [('in', it(5, 5)), ('inzp', it(1, 5)), ('w', it(3, 5)), ('wzp', it(1, 5)), ('cfg', cfg('DwConv2DConfig')), ('out', it(5, 5))],
                           'old': [('in', it(5, 5)), ('w', it(3, 5)), ('wzp', it(1, 5)), ('cfg', cfg('DwConv2DConfig')), ('out', it(5, 5))],
                           'tns': [('in', tn(4)), ('w', tn(3)), ('cfg', cfg('DwConv2DConfig')), ('out', tn(4))]},
                     att={'': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl'], 'old': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl'], 'tns': [('in', 4), ('out', 4), 'w', 'inzp', 'wzp', 'ctrl']},
                     io=conv(5, 3, 1, 5), sizes=['GetEncodedWeightsSize', 'GetEncodedInpZeroPtsSize', 'GetEncodedWtsZeroPtsSize', 'GetInputBufferSize', 'GetOutputBufferSize', 'GetWeightsBufferSize']),
    'tconv2d': dict(cs='TransposeConv2D_CS', rt='TransposeConv2D', src=[K + 'convolution/mli_krn_transpose_conv_compiler.cc', K + 'convolution/mli_krn_transpose_conv_runtime.cc'], pd='TransposeConv2DPrivateData',
                    ctor={'': [('in', it(5, 5)), ('inzp', it(1, 5)), ('w', it(5, 5)), ('wzp', it(1, 5)), ('cfg', cfg('TransposeConv2DConfig')), ('out', it(5, 5))],
                          'old': [('in', it(5, 5)), ('w', it(5, 5)), ('wzp', it(1, 5)), ('cfg', cfg('TransposeConv2DConfig')), ('out', it(5, 5))]},
                    att={'': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl'], 'old': ['in', 'out', 'w', 'inzp', 'wzp', 'ctrl']},
                    io=conv(5, 5, 1, 5), sizes=['GetEncodedWeightsSize', 'GetEncodedInpZeroPtsSize', 'GetEncodedWtsZeroPtsSize']),
    'fc': dict(cs='FullyConnected_CS', rt='FullyConnected', src=[K + 'common/impl/mli_krn_fully_connected_compiler.cc', K + 'common/impl/mli_krn_fully_connected_runtime.cc'], pd='FullyConnectedPrivateData',
               ctor={'': [('in', it(2, 2)), ('w', it(2, 2)), ('wzp', it(1, 2)), ('cfg', cfg('FullyConnectedConfig')), ('out', it(2, 2))],
                     'tns': [('in', tn(2)), ('w', tn(2)), ('wzp', tn(1)), ('out', tn(2))], 'nozp': [('in', tn(2)), ('w', tn(2)), ('out', tn(2))]},
               att={'': ['in', 'out', 'w', 'ctrl'], 'tns': [('in', 2), ('out', 2), 'w', 'wzp', 'ctrl'], 'nozp': [('in', 2), ('out', 2), 'w', 'wzp', 'ctrl']},
               sizes=['GetEncodedWeightsSize', 'GetEncodedWtsZeroPtsSize', 'GetInputBufferSize', 'GetOutputBufferSize', 'GetWeightsBufferSize', 'GetZeroPointBufferSize']),
    'matmul': dict(cs='MatMul_CS', rt='MatMul', src=[K + 'convolution/mli_krn_matmul_compiler.cc', K + 'convolution/mli_krn_matmul_runtime.cc'], pd='MatMulPrivateData',
                   ctor={'': [('left', it(2, 2)), ('right', it(2, 2)), ('out', it(2, 2))]}, att={'': ['left', 'right', 'out', 'params', 'ctrl']},
                   io=[('l_size', 'u', 2), ('r_size', 'u', 2), ('o_size', 'u', 2), ('l_offs', 'i', 2), ('r_offs', 'i', 2), ('o_offs', 'i', 2)], sizes=['GetEncodedParamsSize']),
    'clip': dict(cs='Clip_CS', rt='Clip', src=[K + 'clip/mli_krn_clip_compiler.cc', K + 'clip/mli_krn_clip_runtime.cc'], pd='ClipPrivateData',
                 ctor={'': [('in', it(4, 4)), ('out', it(4, 4))], 'tns': [('in', tn(4)), ('out', tn(4))]},
                 att={'': ['in', 'out', 'params', 'ctrl'], 'tns': [('in', 4), ('out', 4), 'params', 'ctrl']},
                 sizes=['GetEncodedParamsSize', 'GetInputBufferSize', 'GetOutputBufferSize', 'GetParamsBufferSize']),
    'rescale': dict(cs='Rescale_CS', rt='Rescale', src=[K + 'conversion/mli_krn_rescale_compiler.cc', K + 'conversion/mli_krn_rescale_runtime.cc'], pd='RescalePrivateData',
                    ctor={'': [('in', it(4, 4)), ('cfg', cfg('RescaleConfig')), ('params', it(1, 4)), ('out', it(4, 4))]}, att={'': ['in', 'out', 'params', 'ctrl']},
                    ioref=['params_size', 'in_bias_offs', 'scale_offs', 'shift_offs', 'out_bias_offs'],
                    sizes=['GetEncodedParamsSize', 'GetInputBufferSize', 'GetOutputBufferSize']),
    'prelu': dict(cs='Prelu_CS', rt='Prelu', src=[K + 'transform/mli_krn_prelu_compiler.cc', K + 'transform/mli_krn_prelu_runtime.cc'], pd='PreluPrivateData',
                  ctor={'': [('in', it(5, 5)), ('cfg', cfg('PreluOpConfig')), ('out', it(5, 5))], 'r4': [('in', it(4, 4)), ('cfg', cfg('PreluOpConfig')), ('out', it(4, 4))]},
                  att={'': ['in', 'out', 'params', 'ctrl'], 'r4': ['in', 'out', 'params', 'ctrl']},
                  ioref=['params_size', 'in_bias_offs', 'posscale_offs', 'negscale_offs', 'posshift_offs', 'negshift_offs', 'out_bias_offs'],
                  sizes=['GetEncodedParamsSize', 'GetParamsBufferSize']),
    'reduce_max': dict(cs='ReduceMax_CS', rt='ReduceMax', src=[K + 'conversion/mli_reduce_max_compiler.cc', K + 'conversion/mli_reduce_max_runtime.cc'], pd='ReduceMaxPrivateData',
                       ctor={'': [('in', it(4, 4)), ('cfg', cfg('ReduceOpConfig')), ('out', it(4, 4))]},
                       att={'': ['in', 'out', 'ctrl']}, io=IO2, sizes=[]),
    'reduce_sum': dict(cs='ReduceSum_CS', rt='ReduceSum', src=[K + 'conversion/mli_reduce_sum_compiler.cc', K + 'conversion/mli_reduce_sum_runtime.cc'], pd='ReduceSumPrivateData',
                       ctor={'': [('in', it(4, 4)), ('cfg', cfg('ReduceOpConfig')), ('out', it(4, 4))]}, att={'': ['in', 'out', 'ctrl']}, io=IO2, sizes=[]),
    'resize': dict(noruntime=True, cs='ResizeBilinear_CS', rt='ResizeBilinear', src=[K + 'conversion/mli_resize_bilinear_compiler.cc', K + 'conversion/mli_resize_bilinear_runtime.cc'], pd='ResizeBilinearPrivateData',
                   ctor={'': [('in', it(4, 4)), ('cfg', cfg('ResizeOpConfig')), ('out', it(4, 4))]}, att={'': ['in', 'out', 'ctrl']}, io=IO2, sizes=[]),
    'permute': dict(cs='Permute_CS', rt='Permute', src=[K + 'diverse/mli_krn_permute_compiler.cc', K + 'diverse/mli_krn_permute_runtime.cc'], pd='PermutePrivateData',
                    ctor={'': [('in', it(4, 4)), ('cfg', cfg('PermuteOpConfig')), ('out', it(4, 4))]}, att={'': ['in', 'out', 'ctrl']}, io=IO2, sizes=[]),
    'move': dict(cs='Move_CS', rt='Move', src=[front.LIB + '/move/mli_mov_compiler.cc', front.LIB + '/move/mli_mov_runtime.cc'], pd='MovePrivateData',
                 ctor={'': [('src', it(5, 5)), ('dst', it(5, 5))]}, att={'': ['src', 'dst', 'ctrl']}, sizes=[]),
    'move_bcast': dict(cs='MoveBroadcast_CS', rt='MoveBroadcast', src=[front.LIB + '/move/mli_move_broadcast_compiler.cc', front.LIB + '/move/mli_move_broadcast_runtime.cc'], pd='MoveBroadcastPrivateData',
                       ctor={'': [('src', it(4, 4)), ('dst', it(4, 4))]}, att={'': ['src', 'dst', 'ctrl']}, io=IO2, sizes=[]),
}

PRE = '''#include <cstring>
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_ref_private_types.hpp"
using namespace snps_arc::metaware::mli;
namespace R = snps_arc::metaware::mli::ref;
template <class T, unsigned n> static inline Tensor<T, n> rank_of(const Tensor<T, n>& t) { Tensor<T, n> r(t); r.set_rank(n); return r; }
template <class T, unsigned n, unsigned m> static inline TensorIterator<T, n, m> rank_of(const TensorIterator<T, n, m>& t) { TensorIterator<T, n, m> r(t); r.@FULL@.set_rank(n); return r; }
'''


def ptype(t):
    if t[0] == 'it':
        return 'const TensorIterator<NoBuffer, %d, %d>&' % t[1:]
    if t[0] == 'tn':
        return 'const Tensor<NoBuffer, %d>&' % t[1]
    return 'const %s&' % t[1]


def source(k, want=None):
    d = KERNELS[k]
    o = [PRE]

    def add(kind, text):
        if (want is None or kind in want) and not (d.get('noruntime') and kind not in ('blob', 'sizes')):
            o.append(text)
    for v in d['ctor']:
        pars, args = [], []
        for n, t in d['ctor'][v]:
            pars.append('%s %s' % (ptype(t), n))
            args.append(n if t[0] == 'cfg' else 'rank_of(%s)' % n)
        apars, aargs = [], []
        for a in d['att'][v]:
            if isinstance(a, tuple):
                apars.append('Tensor<OffsetBuffer, %d>& %s_t' % (a[1], a[0]))
                aargs.append(a[0] + '_t')
            else:
                apars.append('OffsetBuffer& %s_buf' % a)
                aargs.append(a + '_buf')
        P = ', '.join(['const lib_mli::PlatformDescription& pd'] + pars)
        AP = ', '.join(apars)
        A = ', '.join(['pd'] + args)
        mk = '  R::%s cs(%s);\n' % (d['cs'], A)
        att = '  cs.AttachBufferOffsets(%s);\n  char blob[sizeof(R::%s)];\n  cs.GetKernelPrivateData(blob);\n  R::%s rt(blob, sizeof(blob), membases, num_mems);\n' % (', '.join(aargs), d['pd'], d['rt'])
        sfx = '_' + v if v else ''
        allp = '%s, %s, uint64_t* membases, int num_mems' % (P, AP)
        add('issue', 'extern "C" int probe_issue%s(%s) {\n%s%s  return rt.Issue();\n}\n' % (sfx, allp, mk, att))
        add('updated', 'extern "C" int probe_updated%s(%s) {\n%s%s  rt.Update();\n  return rt.Issue();\n}\n' % (sfx, allp, mk, att))
        if d.get('io') or d.get('ioref'):
            if d.get('io'):
                ps = ', '.join('%s %s[%d]' % ('uint32_t' if t == 'u' else 'int32_t', n, c) for n, t, c in d['io'])
                cl = ', '.join(n for n, t, c in d['io'])
            else:
                ps = ', '.join('uint32_t& %s' % n for n in d['ioref'])
                cl = ', '.join(d['ioref'])
            add('io', 'extern "C" void probe_io%s(%s, %s) {\n%s%s  rt.GetIOSizesAndOffsets(%s);\n}\n' % (sfx, allp, ps, mk, att, cl))
            add('io_updated', 'extern "C" void probe_io_updated%s(%s, %s) {\n%s%s  rt.Update();\n  rt.GetIOSizesAndOffsets(%s);\n}\n' % (sfx, allp, ps, mk, att, cl))
        add('blob', 'extern "C" int probe_blob%s(%s, %s, void* blob) {\n%s  cs.AttachBufferOffsets(%s);\n  return cs.GetKernelPrivateData(blob);\n}\n' % (sfx, P, AP, mk, ', '.join(aargs)))
        add('sizes', 'extern "C" void probe_sizes%s(%s, unsigned* size_of_type, unsigned* data_size, unsigned* object_size%s) {\n%s  *size_of_type = sizeof(R::%s);\n  *data_size = cs.GetKernelPrivateDataSize();\n  *object_size = cs.GetRuntimeObjectSize() == sizeof(R::%s);\n%s}\n' %
                 (sfx, P, ''.join(', unsigned* %s' % s for s in d['sizes']), mk, d['pd'], d['rt'], ''.join('  *%s = cs.%s();\n' % (s, s) for s in d['sizes'])))
    return ''.join(o)


NOINL = r'--noinline=mli_reduce_|MoveBroadcastRun|GetSubTensorIterator|Tensor(Iterator)?<[^(]*::(read|write)<|(^|[ *&])mli::(krn|mov)::|[ ^]?::mli_krn|mli_krn_|mli_mov_|mli_hlp_|GetSubTensor|TensorIterator<[^(]*::Next\(|BufferIterator<[^(]*::(BufferIterator|UpdateConfig)'


def full_tensor():
    """the name of the iterator's member that holds the full tensor"""
    import re
    x = re.findall(r'^\s*Tensor<buf_T, tensorRank>\s+(\w+)\s*;', open(front.REPO + '/include/mli_iterator.hpp').read(), re.M)
    return x[0] if len(x) == 1 else 'm_full_tensor'


def load(k, cfgname='up', noinline=NOINL, want=None):
    p = front.tmp() + '/probe_%s_%s.cc' % (k, '_'.join(sorted(want or ['all'])))
    with open(p, 'w') as f:
        f.write(source(k, want).replace('@FULL@', full_tensor()))
    bc = front.compile_bc([p] + KERNELS[k]['src'], cfgname, ['-DNDEBUG', '-fno-access-control', '-fstandalone-debug'])
    return front.dump(bc, ['--roots=^probe_', '--inline-main', '--inline=.', noinline, '--internalize', '--callees', '--globals'] + (['--alltypes'] if want and 'blob' in want else []) + front.NORMAL, 'm3_%s_%s' % (k, cfgname))


# ---------------------------------------------------------------- analysis
import re
from cond import Mod, Term, hsh, const, NULL
from mem import MCond, W

IDENT = re.compile(r'[A-Za-z_]\w*->[\w.\[\]]+|\b(?:tile|Next)\{[^}]*\}\.[\w.\[\]]+')


def cover(s):
    """a union part that another member does not cover (or that is zero) is not shown: {x|uninit} is x"""
    while True:
        g = re.search(r'\|(uninit|0)\}', s)
        if not g:
            return s
        n, k = 0, g.start()
        while k > 0:
            k -= 1
            n += (s[k] == '}') - (s[k] == '{')
            if n < 0:
                break
        s = s[:k] + s[k + 1:g.start()] + s[g.end():]


def clean(s):
    """private member names are shown without the decoration of the naming scheme"""
    s = re.sub(r'\bm_(?=[a-z])', '', s)
    s = re.sub(r'\b(i2p|p2i)(?=\()', '', s)
    n = None
    while n != s:
        n, s = s, re.sub(r'\((\([^()]*\))\)', r'\1', s)
    s = cover(s)
    s = re.sub(r'(@\d+)\(\w+(?=[.\[])', r'\1(', s)      # what a call leaves in a local variable
    return re.sub(r'(?<=[a-z])_(?=[^\w]|$)', '', s)


def demangle(sym):
    import subprocess
    return subprocess.run(['c++filt', sym], capture_output=True, text=True).stdout.strip() or sym


IMPL = re.compile(r'\bkrn::|MoveBroadcastRun|define_quant_params|TensorIterator<.*::(read|write)<|Tensor<.*::(read|write)<')


class Args(list):
    """arguments of a call with what each of them points to when the call is made"""
    def __init__(self, args, leaf):
        super().__init__(args)
        self.leaf = leaf


class PCond(MCond):
    """GetSubTensor and Next of the iterators are functions of the content of the iterator (decided on their own by P27)"""
    unroll = 20
    inbounds = True
    symstep = True

    def cmp(self, pred, x, y, w=32):
        if x.s == 'uninit' or y.s == 'uninit':      # undefined behaviour: not an execution to speak about
            return 0
        return super().cmp(pred, x, y, w)

    def headercmp(self, k, pred, a, b, w):
        """a counter that starts at 0 and has not met its bound before is below it until it meets it"""
        if k and (pred, b.c) == ('ugt', 0):
            pred = 'ne'
        if k and pred in ('eq', 'ne') and a.base is None and b.base is None and a.s != 'uninit' != b.s:
            d = self.lin_add(self.lin_of(a), self.lin_of(b), -1)
            co = dict(d[1]).get(k)
            if co in (1, -1) and len(d[1]) > 1:
                n = self.lin_add((0, ()), d, -co)
                n = self.lin_add(n, (0, ((k, 1),)))
                if not any('$' in x for x, _ in n[1]):
                    t = Term(k)
                    t.w, t.lin = w, (0, ((k, 1),))
                    r = self.cmp('ult', t, self.linterm(n, w), w)
                    return self.b.NOT(r) if pred == 'eq' else r
        return self.cmp(pred, a, b, w)

    def content(self, t, bt, upto, R):
        """{leaf name: cases}"""
        out = {}
        for o, s, ty, n in self.leaves(bt):
            if 'buffer_itr' not in n:
                out[clean(n)] = [(self.b.AND(g, R), clean(x.s)) for g, x in self.read(t, o, s, ty, upto, R) if self.b.AND(g, R)]
        return out

    def opaque(self, kind, args, thisk, i):
        R = self.curR()
        if not hasattr(self, 'tags'):
            self.tags = {}
        t = args[thisk][0][1]
        bt = self.this_type(i, t, r'TensorIterator<', thisk)
        if bt < 0:
            return kind + '{?}', bt, t, {}
        con = self.content(t, bt, len(self.log), R)
        self.local(t, con)
        roots = {r for n, cs in con.items() if re.match(r'\.pos', n) for g, x in cs for r in re.findall(r'^Next\{.*\}(?:#\d+)?(?=\.)', x)}
        for n, cs in con.items() if not roots else ():
            if re.search(r'shape|config.(count|order)|buf\.offset', n):
                for g, x in cs:
                    roots |= {re.sub('_(buf|t)$', '', m) for m in re.findall(r'\b([A-Za-z]\w*?)->', x)} | set(re.findall(r'\b((?:tile|Next)\{[^{}]*\})', x))
        name = '%s{%s}' % (kind, '+'.join(sorted(roots)))
        k = 1
        sig = {n: sorted((x, g) for g, x in cs) for n, cs in con.items()}
        while name in self.tags and self.tags[name][1] != sig:
            k += 1
            name = '%s{%s}#%d' % (kind, '+'.join(sorted(roots)), k)
        self.tags.setdefault(name, (con, sig, R))
        return name, bt, t, con

    def local(self, t, con):
        """a local variable is shown by the name of what it was given first"""
        if re.match(r'&[A-Za-z_]\w*~?(\.\w+)*$', t.s):
            rs = {m.group(1) for n, cs in con.items() if 'full_tensor' in n and 'shape' in n for g, x in cs for m in [re.match(r'(subit\{.*\}(?:#\d+)?)\.', x)] if m}
            if len(rs) == 1:
                if not hasattr(self, 'lnames'):
                    self.lnames = {}
                self.lnames.setdefault(t.s[1:], rs.pop())

    def relocal(self, fs):
        ln = getattr(self, 'lnames', {})
        if not ln:
            return fs
        rx = re.compile(r'(?<=[&(])(%s)(?=[.,()\[]|$)' % '|'.join(re.escape(x) for x in sorted(ln, key=len, reverse=True)))
        f = lambda s: rx.sub(lambda m: ln[m.group(1)], s)
        return {f(n): ([(g, f(t)) for g, t in cs], R) for n, (cs, R) in fs.items()}

    def contents(self, i, args, R):
        """{'<argument><leaf>': cases}"""
        b = self.b
        out = {}
        ai = (self.m.fns.get(i.get('callee')) or {}).get('args') or []
        up = self.etime[i['id']]
        for k, a in enumerate(args):
            t = ai[k].get('t', -1) if k < len(ai) else -1
            pt = self.m.pointee(t) if t is not None and t >= 0 else -1
            T = self.m.types[pt] if pt >= 0 else None
            if T and T['kind'] in ('struct', 'union') and T['size'] and not all(p.s == 'null' for g, p in a):
                for o, s, ty, n in self.leaves(pt):
                    for g, p in a:
                        rr = b.AND(g, R)
                        for g2, x in self.read(p, o, s, ty, up, rr) if rr else []:
                            g2 = b.AND(g2, rr)
                            if g2:
                                out.setdefault('%d%s' % (k, clean(n)), []).append((g2, clean(x.s)))
            else:
                for g, x in a:
                    g = b.AND(g, R)
                    if g:
                        out.setdefault('%d' % k, []).append((g, clean(x.s)))
        return out

    def subobj(self, t, rx):
        """type index of the subobject t points to whose class name matches rx"""
        m = self.m
        bt, off = m.strip(t.bt) if t.bt is not None else -1, t.off
        while bt is not None and bt >= 0:
            x = m.types[bt]
            if off == 0 and re.match(rx, x.get('name') or ''):
                return bt
            if x['kind'] == 'struct':
                for n, o, s, mt in x['mem']:
                    if o <= off < o + max(s, 1):
                        bt, off = m.strip(mt), off - o
                        break
                else:
                    return -1
            elif x['kind'] == 'array':
                et = m.strip(x['base'])
                off %= max(m.types[et]['size'], 1)
                bt = et
            else:
                return -1
        return -1

    def this_type(self, i, t, rx, k=0):
        r = self.subobj(t, rx)
        if r < 0:                                           # an unnamed temporary: the type of the parameter
            a = (self.m.fns.get(i.get('callee')) or {}).get('args') or []
            a = [x for x in a if x.get('t', -1) is not None]
            if len(a) > k and a[k].get('t', -1) >= 0:
                r = self.m.pointee(a[k]['t'])
                r = self.m.strip(r) if r >= 0 else -1
                if r >= 0 and not re.match(rx, self.m.types[r].get('name') or ''):
                    r = -1
        return r

    def call(self, i, R):
        if i.get('callee') is None and i.get('cv'):
            cv = self.ascases(self.val(i['cv']))
            if len(cv) == 1 and re.match(r'&?_ZNK?\d*', cv[0][1].s):
                sym = cv[0][1].s.lstrip('&')
                i['callee'] = sym
                i['cdem'] = demangle(sym)
        name = i.get('cdem') or self.callee_name(i) or ''
        if '::GetSubTensor' in name or re.search(r'TensorIterator<[^(]*>::Next\(', name):
            self.etime[i['id']] = len(self.log)
            cr = self.curR()
            args = [self.ascases(self.val(o)) for o in i['ops']]
            self.events[i['id']] = ('call', cr, (name, args), i)
            if '::GetSubTensorIterator' in name:
                tag, bt, t, con = self.opaque('subit', args, 1, i)
                d = args[0][0][1]
                it = self.subobj(d, r'TensorIterator<')
                it = it if it >= 0 else bt
                keep = {}
                if bt >= 0:
                    for o, s, ty, n in self.leaves(bt):
                        if re.match(r'\.(m_)?full_tensor_?\.(buf|mem_stride|rank)', n):
                            keep[n] = self.ascases(self.merge(self.read(t, o, s, ty, len(self.log), cr)))
                self.fill(cr, d, it, tag, lambda n: True, i, keep)
                return None
            if '::GetSubTensor' in name:
                tag, bt, t, con = self.opaque('tile', args, 1, i)
                d = args[0][0][1]
                rt = self.subobj(d, r'Tensor<')
                if rt < 0 and bt >= 0:      # an unnamed temporary: same tensor type as the iterated one
                    rt = next((self.m.strip(mt) for n, o, s, mt in self.m.types[bt]['mem'] if re.match(r'(m_)?full_tensor_?$', n)), -1)
                up = len(self.log)
                # slicing keeps the buffer, the strides and the rank of the full tensor
                keep = {}
                if bt >= 0:
                    for o, s, ty, n in self.leaves(bt):
                        if re.match(r'\.(m_)?full_tensor_?\.(buf|mem_stride|rank)', n):
                            keep[re.sub(r'^\.(m_)?full_tensor_?', '', n)] = self.ascases(self.merge(self.read(t, o, s, ty, up, cr)))
                self.fill(cr, d, rt, tag, lambda n: True, i, keep)
                return None
            tag, bt, t, con = self.opaque('Next', args, 0, i)
            self.fill(cr, t, bt, tag, lambda n: not re.match(r'\.m?_?(full_tensor|config)', n), i)
            r = Term(tag + '.done')
            r.w = 1
            return ('b', self.asbool([(1, r)]))
        r = super().call(i, R)
        if IMPL.search(name):
            e = self.events[i['id']]
            if self.entering:
                self.first = getattr(self, 'first', {})
                self.first[i['id']] = (e[1], self.contents(i, e[2][1], e[1]))
            self.events[i['id']] = e[:2] + ((e[2][0], Args(e[2][1], self.contents(i, e[2][1], e[1]))),) + e[3:]
        if re.search(r'BufferIterator<[^(]*::BufferIterator', name):
            d = self.ascases(self.val(i['ops'][0]))[0][1]
            bt = self.this_type(i, d, r'BufferIterator<')
            for o, s, ty, n in self.leaves(bt) if bt >= 0 else []:
                if re.search(r'buffer_offset_?$', n):       # P27: every constructor starts the buffer at offset 0
                    self.wr('store', self.curR(), 1, self.addr(d, o, []), s, val=[(1, const(0, 32))], ins=i)
        return r

    def written(self, name, i, args):
        if re.match(r'_ZNK', i.get('callee') or '') or re.search(r'TensorIterator<.*::(read|write)<', name):
            return {}       # a const member function; element access goes through the pointer of the buffer (P27)
        return super().written(name, i, args)

    def fill(self, R, d, bt, tag, want, i, keep={}):
        if bt < 0:
            self.wr('havoc', R, 1, d, None, tag=tag, ins=i)
            return
        for o, s, ty, n in self.leaves(bt):
            if want(n):
                self.wr('store', R, 1, self.addr(d, o, []), s, val=keep.get(n) or [(1, self.mk(tag + clean(n), s, ty))], ins=i)


class TCond(PCond):
    """loops are counted: start + step * n for n below an exact number of iterations (no counter wraps around)"""
    tripform = True

    def headercmp(self, k, pred, a, b, w):
        if k and pred in ('ugt', 'ule'):
            a, b, pred = b, a, {'ugt': 'ult', 'ule': 'uge'}[pred]
        if k and pred in ('ult', 'uge', 'eq', 'ne') and a.base is None and b.base is None and 'uninit' not in (a.s, b.s):
            la, lb = self.lin_of(a), self.lin_of(b)
            st = dict(la[1]).get(k, 0) - dict(lb[1]).get(k, 0)
            if st < 0 and pred in ('eq', 'ne'):
                la, lb, st = lb, la, -st
            d = self.lin_add(self.lin_add(lb, la, -1), (0, ((k, 1),)), st)
            if st > 0 and (st == 1 or pred in ('ult', 'uge')) and not any('$' in n for n, c in d[1]):
                if d[0] % st == 0 and all(c % st == 0 for n, c in d[1]):
                    N = self.linterm((d[0] // st, tuple((n, c // st) for n, c in d[1])), w)
                elif not d[1]:
                    N = self.linterm((-(-d[0] // st), ()), w)
                else:
                    N = Term('ceil(%s / %d)' % (self.lin_str(d), st))
                    N.w = w
                self.tripterms[N.s] = N
                t = Term(k)
                t.w, t.lin = w, (0, ((k, 1),))
                r = self.cmp('ult', t, N, w)
                return r if pred in ('ult', 'ne') else self.b.NOT(r)
        return super().headercmp(k, pred, a, b, w)


class LCond(TCond):
    """clamps written as branches, selections or helper calls are one term: min, max and clamp"""

    def merge(self, cases):
        out = super().merge(cases)
        while len(out) > 1:
            hit = None
            for i, (g, x) in enumerate(out):
                for j, (h, y) in enumerate(out):
                    t = self.clampterm(g, x, h, y) if i != j and hit is None else None
                    if t is not None:
                        hit = [z for k, z in enumerate(out) if k not in (i, j)] + [(self.b.OR(g, h), t)]
            if hit is None:
                break
            out = super().merge(hit)
        return out

    def clampterm(self, ga, a, gb, b):
        """a under ga, b under gb: their minimum or maximum?"""
        if a.c is not None and b.c is not None or a is NULL or b is NULL or a.base is not None or b.base is not None or b.c is not None:
            return None
        if a.s == 'uninit' or b.s == 'uninit' or a.s == b.s:
            return None
        S = self.b.OR(ga, gb)
        views = [b]
        mm = getattr(self, 'mm', {}).get(b.s)
        if mm and a.c is not None and mm[2].c is not None:
            k, t, c = mm
            if k == 'min' and a.c < c.c or k == 'max' and a.c > c.c:
                views.append(t)
        w = max(a.w or 0, b.w or 0) or 32
        for v in views:
            for kind, preds in (('min', ('slt', 'sle')), ('max', ('sgt', 'sge'))):
                for p in preds:
                    if self.b.AND(self.cmp(p, a, v, w), S) == ga:
                        return self.mmterm(kind, b, a, w)
        return None

    def mmterm(self, kind, t, c, w):
        """min or max of t and c; of nested clamps with constants the upper bound is applied last"""
        if not hasattr(self, 'mm'):
            self.mm = {}
        if t.c is None and c.c is None and t.s > c.s:
            t, c = c, t
        inner = self.mm.get(t.s)
        if kind == 'max' and inner and inner[0] == 'min' and c.c is not None and inner[2].c is not None and c.c <= inner[2].c:
            return self.mmterm('min', self.mmterm('max', inner[1], c, w), inner[2], w)
        if inner and inner[0] == kind and c.c is not None and inner[2].c is not None:
            c = const(min(c.c, inner[2].c) if kind == 'min' else max(c.c, inner[2].c), w)
            t = inner[1]
        r = Term('%s(%s, %s)' % (kind, t.s, c.s))
        r.w = w
        self.mm[r.s] = (kind, t, c)
        return r


def balanced(s):
    d = 0
    for ch in s:
        d += (ch == '(') - (ch == ')')
        if d < 0:
            return False
    return d == 0


class QCond(LCond):
    """also follows the members of a small struct that is handed around in one integer register"""
    def pieces(self, t, w):
        if t.c is not None:
            return [(0, w, t)]
        if isinstance(t.elt, tuple) and t.elt[0] == 'pcs':
            return t.elt[1]
        if t.s == 'undef':
            return [(0, w, const(0, w))]
        return None

    def pack(self, ps, w):
        out = []
        for lo, n, t in ps:                             # neighbouring constants are one
            if out and t.c is not None and out[-1][2].c is not None:
                l, m, u = out.pop()
                out.append((l, m + n, const((u.c & ((1 << m) - 1)) | (t.c & ((1 << n) - 1)) << m, m + n)))
            else:
                out.append((lo, n, t))
        if len(out) == 1 and out[0][2].c is not None:
            c = out[0][2].c & ((1 << w) - 1)
            return const(c - (1 << w) if c >> (w - 1) else c, w)
        t = Term('{%s}' % '|'.join(x.s for _, _, x in out))
        t.w = w
        t.elt = ('pcs', out)
        t.lin = (0, ((t.s, 1),))
        return t

    def slice(self, ps, lo, n):
        """the pieces of [lo, lo + n), or None when a value is cut"""
        out = []
        for l, m, t in ps:
            a, e = max(l, lo), min(l + m, lo + n)
            if a >= e:
                continue
            if t.c is not None:
                out.append((a - lo, e - a, const((t.c & ((1 << m) - 1)) >> (a - l) & ((1 << (e - a)) - 1), e - a)))
            elif (a, e) == (l, l + m):
                out.append((a - lo, m, t))
            else:
                return None
        return out

    def binop(self, op, a, b, w):
        if w in (48, 64) and (a.c is None or b.c is None):
            pa, pb = self.pieces(a, w), self.pieces(b, w)
            if pa and pb:
                if op in ('shl', 'lshr') and b.c is not None and 0 < b.c < w:
                    if op == 'shl':
                        r = self.slice(pa, 0, w - b.c)
                        if r is not None:
                            return self.pack([(0, b.c, const(0, b.c))] + [(l + b.c, n, t) for l, n, t in r], w)
                    else:
                        r = self.slice(pa, b.c, w - b.c)
                        if r is not None:
                            return self.pack(r + [(w - b.c, b.c, const(0, b.c))], w)
                if op in ('and', 'or', 'add') and b.c is not None or op in ('or', 'add'):
                    cuts = sorted({x for ps in (pa, pb) for l, n, t in ps if t.c is None for x in (l, l + n)} | {0, w})
                    if b.c is not None:
                        cuts = sorted(set(cuts) | {k for k in range(1, w) if (b.c >> k & 1) != (b.c >> (k - 1) & 1)}) if op == 'and' else cuts
                    out = []
                    for l, e in zip(cuts, cuts[1:]):
                        x, y = self.slice(pa, l, e - l), self.slice(pb, l, e - l)
                        if not x or not y or len(x) > 1 or len(y) > 1:
                            break
                        u, v = x[0][2], y[0][2]
                        m = (1 << (e - l)) - 1
                        if op == 'and':
                            if v.c is not None and v.c & m == m:
                                z = u
                            elif v.c is not None and v.c & m == 0:
                                z = const(0, e - l)
                            else:
                                break
                        elif v.c is not None and v.c & m == 0:
                            z = u
                        elif u.c is not None and u.c & m == 0:
                            z = v
                        elif op == 'or' and u.c is not None and v.c is not None:
                            z = const((u.c | v.c) & m, e - l)
                        else:
                            break
                        out.append((l, e - l, z))
                    else:
                        return self.pack(out, w)
        return super().binop(op, a, b, w)

    def narrow(self, l, w):
        """arithmetic of few bits: the sum of everything, cut once"""
        if not hasattr(self, 'ntr'):
            self.ntr = {}
        todo, r = list(l[1]), (l[0], ())
        while todo:
            n, k = todo.pop()
            d = self.ntr.get(n)
            if d and d[0] >= w:
                r = (r[0] + k * d[1][0], r[1])
                todo += [(x, k * y) for x, y in d[1][1]]
            else:
                r = self.lin_add(r, (0, ((n, k),)))
        if not r[1]:
            return super().truncate(const(r[0], 64), w)
        if r[0] == 0 and len(r[1]) == 1 and r[1][0][1] == 1 and self.nw.get(r[1][0][0], 64) <= w:
            return super().linterm(r, w)
        u = Term('tr%d(%s)' % (w, self.lin_str(r)))
        u.w = w
        self.ntr[u.s] = (w, r)
        self.nw[u.s] = w
        return u

    def linterm(self, l, w=32, uns=False):
        if w in (8, 16) and l[1] and (l[0] or len(l[1]) > 1 or l[1][0][1] != 1):
            return self.narrow(l, w)
        return super().linterm(l, w, uns)

    def cmp(self, pred, a, b, w=32):
        if pred in ('eq', 'ne') and 1 in (a.c, b.c) and w > 1:         # a single bit that is set is not clear
            x = b if a.c == 1 else a
            if x.c is None and re.search(r' & 1\)$', x.s) and x.s[0] == '(' and balanced(x.s[1:-1]):
                pred, a, b = ('ne' if pred == 'eq' else 'eq'), x, const(0, w)
        if pred in ('eq', 'ne') and hasattr(self, 'ntr'):
            for x, y in ((a, b), (b, a)):
                d = self.ntr.get(x.s)
                if d and y.c == 0 and y.base is None and d[1][0] == 0 and len(d[1][1]) == 1 and d[1][1][0][1] == -1 and self.nw.get(d[1][1][0][0], 64) <= d[0]:
                    return super().cmp(pred, super().linterm((0, ((d[1][1][0][0], 1),)), w), y, w)
        return super().cmp(pred, a, b, w)

    def truncate(self, t, w):
        if isinstance(t.elt, tuple) and t.elt[0] == 'pcs':
            r = self.slice(t.elt[1], 0, w)
            if r is not None:
                if len(r) == 1 and r[0][2].c is None:
                    return r[0][2]
                if all(x.c is not None for _, _, x in r) or w in (48, 64):
                    return self.pack(r, w)
                if len(r) == 2 and r[0][2].c is None and r[1][2].c == 0:
                    u = Term('zx(%s)' % r[0][2].s)
                    u.w, u.uns = r[0][1], True
                    return u
        mm = getattr(self, 'mm', {}).get(t.s)
        if mm and all(x.w and x.w <= w if x.c is None else -(1 << (w - 1)) <= x.c < 1 << (w - 1) for x in mm[1:]):
            return t
        if w in (8, 16) and t.c is None and t.base is None and not (t.w and t.w <= w):
            return self.narrow(self.lin_of(t), w)
        if w == 32 and t.c is None and t.base is None and t.lin and t.w and t.w > 32 and all(self.nw.get(n, 64) <= 32 for n, k in t.lin[1]):
            return self.linterm(t.lin, 32)
        return super().truncate(t, w)

    def instr(self, i, R, out):
        if i['op'] in ('zext', 'sext') and i['ty'] == 'i64' and i['oty'] == 'i32':
            v = self.val(i['ops'][0])
            if not isinstance(v, tuple):
                for g, t in self.ascases(v):
                    if t.c is None and t.base is None:
                        for n, k in self.lin_of(t)[1]:
                            self.nw[n] = max(self.nw.get(n, 0), 32)
        q = super().instr(i, R, out)
        if i['op'] == 'zext' and i['ty'] in ('i48', 'i64') and i['oty'] in ('i8', 'i16', 'i32'):
            w, sw = int(i['ty'][1:]), int(i['oty'][1:])
            v = self.val(i['ops'][0])
            if not isinstance(v, tuple):
                def ext(t):
                    if t.c is not None:
                        return const(t.c & ((1 << sw) - 1), w)
                    u = Term(t.s if sw == 32 and w == 64 else 'zx(%s)' % t.s, None, t.dt)
                    u.w, u.uns = (t.w, t.uns) if sw == 32 and w == 64 else (sw, True)
                    if sw == 32 and w == 64:
                        u.lin, u.base, u.off, u.idx, u.bt = t.lin, t.base, t.off, t.idx, t.bt
                    if t.base is None:
                        u.elt = ('pcs', [(0, sw, t), (sw, w - sw, const(0, w - sw))])
                    return u
                self.env[i['id']] = self.app(ext, v)
        return q
