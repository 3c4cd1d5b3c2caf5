"""P12, P15, P17: tensor accessors, derived tensors and tensor views.  A probe names each function once (ranks fixed so that loops over
dimensions are followed one by one); every returned value, every field of every object written and every other store is computed."""
import os, re, subprocess
import front, facts
from front import Broken
from cond import Mod
from m3 import PCond, TCond, QCond

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'release', 'convergent']}
PROBES = front.VERIF + '/sa/probes/'
HELP = [front.REPO + '/lib/src/helpers/src/mli_helpers.cc']
WHERE = {'P12': 'lib/src/private/mli_prv_tensor.h', 'P15': 'lib/src/helpers/src/mli_helpers.cc', 'P17': 'lib/src/private/mli_prv_tensor.h', 'P26': 'lib/src/kernels/*/*_compiler.cc, include/mli_service_functions.hpp', 'P18': 'lib/src/bricks/impl/mli_prv_quant_ref.h'}
SRC = {'P12': HELP, 'P15': HELP, 'P17': [], 'P18': HELP, 'P26': [x for x in front.lib_sources() if x.endswith('_compiler.cc')]}
NOINL = {'P15': '--noinline=mli_chk_|convert_quantized_data|convert_float_data', 'P18': '--noinline=mli_math_(norm_fx|cast|add|sub|asl|asr|sat|acc|mac|limit|abs|neg)|reduce_sum'}


def plain(t):
    return re.sub(r'\.mem\.p\w*$', '.mem.p', t)


def usable(prop, cfg):
    """the probe without the lines whose function is not there under its name any more"""
    src = open(PROBES + prop.lower() + '.cc').read().split('\n')
    p = front.tmp() + '/probe_%s_%s.cc' % (prop, cfg)
    gone = []
    for _ in range(6):
        open(p, 'w').write('\n'.join(src))
        r = front.try_compile(p, cfg)
        bad = sorted({int(x) for x in re.findall(re.escape(p) + r':(\d+):\d+: (?:fatal )?error', r)} | {int(x) for x in re.findall(re.escape(p) + r':(\d+):\d+: note: in instantiation', r)}) if r else []
        if not r:
            return p, '\n'.join(src), gone
        bad = [b for b in bad if src[b - 1].startswith('P ')]
        if not bad:
            raise Broken('probe %s does not compile: %s' % (prop, r[:300]))
        for b in bad:
            gone.append(re.search(r'\b(p_\w+)\(', src[b - 1]).group(1)[2:])
            src[b - 1] = ''
    raise Broken('probe %s does not compile' % prop)


def subjects(prop, cfg, only=None):
    p, text, gone = usable(prop, cfg)
    bc = front.compile_bc([p] + SRC[prop], cfg, ['-fno-access-control', '-fstandalone-debug'])
    d = front.dump(bc, ['--roots=^p_', '--inline-main', '--inline=.*', '--globals'] + ([NOINL[prop]] if prop in NOINL else []) + front.NORMAL, 'tsr_%s_%s' % (prop, cfg))
    m = Mod(d)
    keep = facts.load(prop) if os.path.exists(facts.specfile(prop)) else {}
    for n in re.findall(r'\b(p_\w+)\(', text):
        if only and not re.search(only, n):
            continue
        f = m.fns.get(n)
        if f is None or not f['blocks']:
            raise Broken('probe %s missing' % n)
        c = {'P26': TCond, 'P18': QCond}.get(prop, PCond)(m, f)
        fs = facts.retfact(c)
        ok = None
        if prop == 'P15' and f.get('ret') != 'void' and n[2:6] != 'coun':       # the header is spoken about when the helper succeeds
            ok = 0
            for Rr, v, ins in c.rets:
                for g, x in c.ascases(v):
                    if x.s == '0':
                        ok = c.b.OR(ok, c.b.AND(Rr, g))
        if f.get('ret') == 'void' or not fs['return'][0]:
            fs.pop('return')
        objs = set()
        for a in c.args:
            bt = m.strip(a.bt) if a.bt is not None and a.bt >= 0 else -1
            if bt >= 0 and m.types[bt]['kind'] in ('struct', 'union'):
                objs.add(a.s)
                if prop == 'P15':                       # per-tensor parameters live in the same place as the pointers
                    for o, sz, ty, nm in list(c.leaves(bt)):
                        if 'el_params' in nm and nm.endswith('.mem.pi32'):
                            w = 1 if 'frac' in nm else 2
                            cs, tot = [], 0
                            for (Rr, v, ins), tm in zip(c.rets, c.rets_t):
                                tot = c.b.OR(tot, Rr)
                                cs += [(c.b.AND(g, Rr), x.s) for g, x in c.read(a, o, w, 'i%d' % (8 * w), tm, Rr)]
                            st2 = a.s + nm.replace('pi32', 'i%d' % (8 * w))
                            fs[st2] = (cs, tot if ok is None else ok)
                st = facts.state(c, a, bt, a.s, R=ok)
                fs.update({k: v for k, v in st.items() if k in keep.get(n[2:], {}).get('facts', ()) or len(v[0]) != 1 or plain(v[0][0][1]) != plain('%s->%s' % (a.s, k[len(a.s):].lstrip('.')))})
        mine = {x.get('n') or 'tmp%d' % x['id'] for bl in f['blocks'] for x in bl if x['op'] == 'alloca'}
        if prop == 'P15':
            for k, (cs, R) in list(fs.items()):
                for g, t in cs:
                    if 'bytes[' in t or '{{' in t or re.search(r'convert_\w+@\d\(', t):     # the other view of the place; what the conversion itself writes
                        R = c.b.AND(R, c.b.NOT(g))
                cs = [(c.b.AND(g, R), t) for g, t in cs]
                fs[k] = ([x for x in cs if x[0]], R)
                if not fs[k][0] or all(plain(t) == plain('%s->%s' % (k.split('.')[0], k.partition('.')[2])) for g, t in fs[k][0]) and k not in keep.get(n[2:], {}).get('facts', ()):
                    fs.pop(k)
        if prop == 'P26':                               # members the encoder leaves alone
            fs = {k: v for k, v in fs.items() if not (len(v[0]) == 1 and re.match(r'\*\(i\d+\)\(cs\+\d+\)$', v[0][0][1]))}
        fs = {k: v for k, v in fs.items() if not any('bytes[' in t for g, t in v[0])}
        fs.update(facts.stores(c, lambda t: not re.match(r'[&(*]*(%s)(->|\[|$|\+|\))' % '|'.join(map(re.escape, objs | {'-'})), t) and re.match(r'[&(*]*([\w~]*)', t).group(1) not in mine))
        if prop == 'P26' and 'return' in fs and n[-2:] != 'sz':      # what is written when the encoder succeeds
            ok = 0
            for g, t in fs['return'][0]:
                if t == '0':
                    ok = c.b.OR(ok, c.b.AND(g, fs['return'][1]))
            for k in [k for k in fs if k.startswith('store ')]:
                fs[k] = ([x for x in [(c.b.AND(g, ok), t) for g, t in fs[k][0]] if x[0]], 1)
        if prop == 'P18':                               # a summation only reads what it is given
            fs = {k: v for k, v in fs.items() if not any('reduce_sum@' in t for g, t in v[0])}
        if prop in NOINL and prop != 'P18':
            fs.update(facts.calls(c, lambda x: not x.startswith('llvm.'), short=lambda x: re.sub(r'\(.*', '', x)))
        yield n[2:] + (' with FULL_ACCU' if prop == 'P18' and cfg == 'fullacc' and n[2:] in FULL else ''), c, fs, WHERE[prop]


FULL = ('adjust_sa', 'bias_sa', 'cast_sa')     # P18: what the macro is there to change


def gone(prop, cfg):
    return usable(prop, cfg)[2]


def run(R):
    miss = set()
    cfgs = [c for c in (['up', 'fullacc'] if R.prop == 'P18' and R.tier == 'quick' else CFG[R.tier]) if R.prop != 'P15' or c != 'release']        # release builds do not run the argument checks
    for cfg in cfgs:
        miss |= set(gone(R.prop, cfg))
    for g in sorted(miss):
        R.count('functions no longer present under their name (not decided)')
    facts.run(R, lambda cfg: subjects(R.prop, cfg), cfgs, gone=miss)
    if R.prop == 'P26':
        readers(R)


READERS = re.compile(r'^(conv2d|dwconv2d|tconv2d|fc|matmul|prelu|rescale|clip)(/\w+)?( after Update)?$')


def readers(R):
    """where the runtime objects read encoded parameters: those facts of the issue and position probes (P21, P22, P25) that speak of them"""
    import p_m3
    widths = None
    for P in ('P21', 'P22', 'P25'):
        spec = facts.load(P)
        want = {}
        for name, d in spec.items():
            if READERS.match(name):
                ws = {n for n, cs in d['facts'].items() if not re.match(r'(tile|Next|subit)\{', n) and re.search(r'zp\b|params_buf|enc_param|wzp_buf|zero_point|quant_axis|sa\.dim|_offs$|params_size', n + ' ' + ' '.join(t for t, _ in cs))}
                if ws:
                    want[name] = ws
        if P == 'P22':
            enc = [k for n, c, fs, w in subjects('P26', 'up', r'p_fc_wz$') for k in fs if k.startswith('store ') and re.search(r'= .*\(z->', k)]
            ew = {int((re.search(r'(\d+)\*\$k0', k.split(' = ')[0]) or [0, 0])[1]) for k in enc}
            rd = {int(x) // 8 for t, _ in spec.get('fc', {'facts': {}})['facts'].get('argument 1.el_params.sa.zero_point.mem.pi32', []) for x in re.findall(r'^\*\(i(\d+)\)', t)}
            if len(ew) == 1 and len(rd) == 1:
                widths = (ew.pop(), rd.pop())
        ks = sorted({re.split(r'[/ ]', n)[0] for n in want})
        for k, r in p_m3.jobs(P, 'up', 'check', ks):
            if r[0] != 'ok':
                raise Broken(r[1])
            for name, n, diffs, where in r[1]:
                ws = want.get(name, ())
                if not ws:
                    continue
                R.count('runtime readers of encoded parameters')
                R.count('facts', len(ws))
                R.obl += len(ws)
                R.units.append('%s (runtime): %d facts' % (name, len(ws)))
                for fn, txt in diffs:
                    if fn in ws:
                        R.violation('%s %s' % (name, fn), where, txt if txt is not None else 'is no longer established')
                if name == 'fc' and widths and 'argument 1.el_params.sa.zero_point.mem.pi32' not in [fn for fn, _ in diffs]:
                    R.obligation(widths[0] == widths[1], 'fully_connected weights zero points', where, 'EncodeWeightsAndZeroPts writes zero points of %d byte(s) behind the weights, the runtime object reads them with %d bytes' % widths)
                    widths = None


def p12(cfg): return subjects('P12', cfg)
def p15(cfg): return subjects('P15', cfg)
def p17(cfg): return subjects('P17', cfg)
def p18(cfg): return subjects('P18', cfg)
def p26(cfg): return subjects('P26', cfg)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    for n, c, fs, w in subjects(sys.argv[1], 'up', sys.argv[2] if len(sys.argv) > 2 else None):
        print(n, len(fs))
        for k, (cs, R) in fs.items():
            print('    %s = %s' % (k, ' | '.join('%s%s' % (t, '' if c.b.AND(g, R) == R else ' [%s]' % c.b.show(g)[:150]) for g, t in cs)[:260]))
