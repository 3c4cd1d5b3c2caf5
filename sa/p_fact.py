"""P20: the runtime factory (ExecutionInterface::Create) and the compile-time factory (ref::KernelsFactory) construct the class asked for.
Sizes and ids of the table are symbolic (@size, @id): they are taken from the current program."""
import json, os, re
import front, facts
from front import Broken
from cond import Mod
from mem import MCond

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'release', 'convergent']}
SRC = front.LIB + '/private/src/mli_runtime.cc'
FACT = 'mli_kernels_factory_ref.hpp'


def ids():
    t = open(front.REPO + '/include/mli_types.hpp').read()
    m = re.search(r'enum\s+\w*kernel_id\w*[^{]*\{(.*?)\}|\{([^{}]*kNopId[^{}]*)\}', t, re.S)
    if not m:
        raise Broken('the enumeration of kernel ids was not found')
    return re.findall(r'^\s*(k[A-Z]\w*Id)\b', m.group(1) or m.group(2), re.M)


def probe(spec):
    """a translation unit that instantiates the factory and evaluates the sizes and ids the table names"""
    names = sorted(set(re.findall(r'@size:(\w+)', json.dumps(spec))))
    kid = sorted(set(ids()) | set(re.findall(r'@id:(\w+)', json.dumps(spec))))
    s = '#include <cassert>\n#include "mli_ref_runtime_api.hpp"\n#include "%s"\n' % FACT
    s += 'namespace L = snps_arc::metaware::mli;\n'
    for n in names:
        s += 'extern "C" unsigned vp_size_%s() { return sizeof(L::ref::%s); }\n' % (n, n)
    for n in kid:
        s += 'extern "C" unsigned vp_id_%s() { return (unsigned) L::%s; }\n' % (n, n)
    s += 'extern "C" L::KernelsFactory *vp_make(void *p, const L::PlatformDescription *d) { return new (p) L::ref::KernelsFactory(*d); }\n'
    d = front.VERIF + '/build/gen'
    os.makedirs(d, exist_ok=True)
    p = d + '/factory_%d.cc' % os.getpid()
    open(p, 'w').write(s)
    return p


def consts(m):
    out = {}
    for n, f in m.fns.items():
        if n.startswith('vp_size_') or n.startswith('vp_id_'):
            i = [i for b in f['blocks'] for i in (b['ins'] if isinstance(b, dict) else b)][-1]
            o = i['ops'][0]
            if o[0] != 'c':
                raise Broken(n + ' is not a constant')
            out['@' + n[3:].replace('_', ':', 1)] = int(o[1])
    return out


def short(n):
    return n.replace('snps_arc::metaware::mli::', '')


def content(c, m, f):
    """argument texts; an object made on the spot is shown by what it holds"""
    def leaves(t, bt, upto, R):
        return [c.text(c.read(t, o, s, ty, upto, R), R) for o, s, ty, n in c.leaves(bt)]

    def target(t):
        t = m.strip(t) if t is not None and t >= 0 else -1
        pt = t if t >= 0 and m.types[t]['kind'] in ('struct', 'union') else m.pointee(t) if t >= 0 else -1
        pt = m.strip(pt) if pt >= 0 else pt
        if pt >= 0 and m.types[pt].get('decl'):            # a declaration only: the definition of the same name
            for k, x in enumerate(m.types):
                if x['kind'] == m.types[pt]['kind'] and x.get('name') == m.types[pt].get('name') and not x.get('decl'):
                    return k
        return pt if pt >= 0 and m.types[pt]['kind'] in ('struct', 'union') else -1

    def texts(c, ins, name, args):
        R = c.events[ins['id']][1]
        cn = ins.get('callee') or ''
        ai = (m.fns.get(cn) or m.fns.get(cn.replace('C1E', 'C2E', 1)) or {}).get('args') or []
        out = []
        for k, a in enumerate(args):
            cs = c.ascases(a)
            t = c.text(a, R)
            pt = target(ai[k].get('t', -1)) if k < len(ai) else -1
            if pt >= 0 and len(cs) == 1 and t.startswith('&') and not t.startswith('&this'):
                mk = [e for e in c.events.values() if e[0] == 'call' and CONV.search(e[2][0] or '') and e[2][1] and c.text(e[2][1][0], e[1]) == t]
                if len(mk) == 1 and c.b.AND(mk[0][1], R) == R:                 # made by converting another iterator (P27 says what that is)
                    o = [c.text(x, R).lstrip('&') for x in mk[0][2][1][1:]]
                    out.append('copy of ' + ', '.join(o))
                    continue
                x = leaves(cs[0][1], pt, c.etime[ins['id']], R)
                t = '{' + ', '.join(x) + '}'
                for src in c.args:
                    if src.bt is not None and m.tname(m.strip(src.bt)) == m.tname(m.strip(pt)) and x and leaves(src, pt, 0, R) == x:
                        t = 'copy of ' + src.s
            out.append(t)
        return out
    return texts


CONV = re.compile(r'TensorIterator<[^(]*::TensorIterator\b')


def known(n):
    return not CONV.search(n or '') and not re.search(r'__assert_fail|^llvm\.|PrivateData::PrivateData|printf', n or '')


def mods(cfg, spec):
    p = probe(spec)
    try:
        bc = front.compile_bc([p] + [x for x in front.lib_sources() if x.endswith('_compiler.cc')], cfg)
        d = front.dump(bc, ['--roots=^vp_', '--reach', '--inline-main', '--inline=mli::(TensorIterator|IteratorCfg|Tensor|BufferIterator)<', '--noinline=TensorIterator<[^(]*::TensorIterator\\(|_CS::~?[A-Za-z0-9_]+_CS\\(|::KernelsFactory::[A-Za-z0-9_]+\\(', '--globals'] + front.NORMAL, 'factory_' + cfg)
    finally:
        os.remove(p)
    yield Mod(d)
    bc = front.compile_bc([SRC], cfg)
    d = front.dump(bc, ['--roots=ExecutionInterface::Create', '--inline-main', '--noinline=ref::[A-Za-z0-9_]+::[A-Za-z0-9_]+\\(', '--globals'] + front.NORMAL, 'create_' + cfg)
    yield Mod(d)


def subj(cfg, spec=None, vals=None):
    spec = spec if spec is not None else facts.load('P20')
    f1, m2 = mods(cfg, spec)
    k = consts(f1)
    if vals is not None:
        vals.update(k)
    n = 0
    for f in sorted(f1.fns.values(), key=lambda f: f['name']):
        mm = re.search(r'::ref::KernelsFactory::(\w+)\((.*)\)( const)?$', f['dem'])
        if not mm or not f['blocks'] or mm.group(1) == 'KernelsFactory':
            continue
        n += 1
        c = MCond(f1, f)
        fs = facts.retfact(c)
        fs.update(facts.calls(c, known, content(c, f1, f), short=short))
        fs.update(facts.stores(c, lambda t: not re.match(r'&?tmp\b', t)))
        yield 'factory ' + mm.group(1) + '(' + short(mm.group(2)) + ')', c, fs, '%s:%s' % (front.rel(f['file']), f['line'])
    if n < 30:
        raise Broken('only %d methods of the factory found' % n)
    fn = [f for f in m2.fns.values() if f['blocks'] and re.search(r'ExecutionInterface::Create\(', f['dem'])]
    if len(fn) != 1:
        raise Broken('ExecutionInterface::Create not found')
    c = MCond(m2, fn[0])
    fs = facts.calls(c, known, short=short)
    fs.update(facts.stores(c, lambda t: True))
    fs.update(facts.retfact(c))
    yield 'ExecutionInterface::Create', c, fs, '%s:%s' % (front.rel(fn[0]['file']), fn[0]['line'])


def concrete(spec, vals):
    def rep(mo):
        if mo.group(0) not in vals:
            raise Broken('the current program has no ' + mo.group(0))
        return str(vals[mo.group(0)])
    s = json.loads(re.sub(r'@(size|id):\w+', rep, json.dumps(spec)))
    for v in s.values():                    # the constants inside the atoms' meanings are numbers
        for a, i in v['atoms'].items():
            if i and isinstance(i[-1], str) and re.fullmatch(r'-?\d+', i[-1]):
                i[-1] = int(i[-1])
    return s


def run(R):
    raw = facts.load('P20')
    for cfg in CFG[R.tier]:
        vals = {}
        seen = set()
        spec = None
        for name, c, fs, where in subj(cfg, raw, vals):
            if spec is None:
                spec = concrete(raw, vals)
                v = {n: x for n, x in vals.items() if n.startswith('@id')}
                R.obligation(len(set(v.values())) == len(v), 'kernel ids', 'include/mli_types.hpp', 'two kernel ids have the same value')
                R.count('kernel ids', len(v))
            seen.add(name)
            R.count('functions')
            R.count('facts', len(fs))
            if 'Create' in name:
                returned(R, c, fs.pop('return'), fs, where)
            if name not in spec:
                R.units.append('%s (%s): not in the table' % (name, cfg))
                continue
            R.obl += len(spec[name]['facts'])
            R.units.append('%s (%s): %d facts' % (name, cfg, len(spec[name]['facts'])))
            for n, txt in facts.compare(c, fs, spec[name]):
                R.violation('%s %s' % (name, n), where, '%s %s' % (n, txt if txt is not None else 'is no longer made'))
        miss = set(spec or {}) - seen
        if miss:
            raise Broken('vanished: ' + ', '.join(sorted(miss))[:300])


def returned(R, c, ret, fs, where):
    """the constructed object where one is constructed (the base of the buffer), null elsewhere"""
    b = c.b
    made = 0
    for n, (cs, _) in fs.items():
        if n.startswith('call ref::'):
            for g, t in cs:
                made = b.OR(made, g)
    for g, t in ret[0]:
        g = b.AND(g, ret[1])
        g = b.AND(g, c.axioms(b.support(g) | b.support(made)))
        if not g:
            continue
        if t == 'null':
            bad = b.AND(g, made)
        elif t == 'allocation_memory_buffer':
            bad = b.AND(g, b.NOT(made))
        else:
            bad = g
        R.obligation(not bad, 'ExecutionInterface::Create return', where, 'returns %s when %s' % (t, facts.show(c, bad) if bad else ''))


def freeze():
    """development only"""
    rt = sorted(set(re.findall(r'using ref::(\w+);', open(SRC).read())) - {'ArgMax', 'TableBuiltin'})
    hdr = re.sub(r'/\*.*?\*/', '', open(front.REPO + '/include/' + FACT).read(), flags=re.S)
    cs = sorted(set(re.findall(r'return sizeof\(lib_ref::(\w+_CS)\)', hdr)))
    pre = {'x': ['@size:' + n for n in rt + cs]}
    vals = {}
    out = {}
    for name, c, fs, where in subj('up', pre, vals):
        z = json.dumps(facts.freeze(c, fs))
        mm = re.match(r'factory (\w+_CS)_GetSize', name)
        if mm and '@size:' + mm.group(1) in vals:
            v = vals['@size:' + mm.group(1)]
            assert '"%d"' % v in z, (name, z)
            z = z.replace('"%d"' % v, '"@size:%s"' % mm.group(1))
        if 'Create' in name:
            zz = json.loads(z)
            tr = {}
            for n, cl in zz['facts'].items():
                mm = re.match(r'call ref::(\w+)::', n)
                if not mm:
                    continue
                for x in cl[0][1]:
                    for a, _ in x:
                        m1 = re.fullmatch(r'alloc_buf_size u< (\d+)', a)
                        if m1:
                            assert int(m1.group(1)) == vals['@size:' + mm.group(1)], (n, a)
                        m2 = re.fullmatch(r'(\*\(i32\)\(kernel_private_data_buffer\) == )(\d+)', a)
                        if m2:
                            i = [k for k, v in vals.items() if k.startswith('@id') and v == int(m2.group(2))]
                            tr[a] = m2.group(1) + i[0]
            # equal sizes share an atom: conditions are stated per class
            at = {}
            fx = {}
            for n, cl in zz['facts'].items():
                mm = re.match(r'call ref::(\w+)::', n)
                if not mm:
                    continue
                fx[n] = [[cl[0][0], [[[('alloc_buf_size u< @size:' + mm.group(1)) if a.startswith('alloc_buf_size u<') else tr.get(a, a), p] for a, p in x] for x in cl[0][1]]]]
                for x, y in zip(cl[0][1], fx[n][0][1]):
                    for (a, _), (a2, _) in zip(x, y):
                        i = zz['atoms'][a]
                        at[a2] = i if a2 == a else i[:-1] + [a2.split()[-1]]
            zz = {'facts': fx, 'atoms': at}
            z = json.dumps(zz)
        out[name] = json.loads(z)
    return out


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    o = freeze()
    json.dump(o, open(facts.specfile('P20'), 'w'), indent=0, sort_keys=True)
    for n, v in o.items():
        print(n, len(v['facts']), [x for x in v['facts']][:3])
