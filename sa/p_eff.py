"""P08: who writes what.  P09: no hidden state, heap, input/output or recursion.  P29: runtime objects are defined by their construction."""
import re
import front
from front import Broken
from cond import Mod
from prov import Prov, root, depth

CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'convergent', 'release']}
ROOTS = r'^mli_(krn|mov|hlp|usr|chk)[a-z0-9_]*$|snps_arc::metaware::mli::ref::'
NS = 'snps_arc::metaware::mli::ref::'
_cache = {}


def library(cfg):
    if cfg not in _cache:
        bc = front.compile_bc(front.lib_sources(), cfg, ['-DNDEBUG', '-fno-access-control', '-fstandalone-debug'])
        d = front.dump(bc, ['--roots=' + ROOTS, '--reach', '--alltypes', '--globals', '--noinline=.', '--passes=function(sroa,mem2reg)'], 'lib_' + cfg)
        m = Mod(d)
        P = Prov(d)
        for f in d['functions']:
            P.summary(f['name'])
        _cache[cfg] = (m, P)
    return _cache[cfg]


def at(loc, f):
    for l in loc or ():
        if l[1]:
            return '%s:%s' % (front.rel(l[0]), l[1])
    return '%s:%s' % (front.rel(f['file']), f['line'])


def field(m, t, off, st):
    """name of the place off bytes into type t"""
    w = m.walk(t, off, [(st, 'i')] if st > 1 else [])
    if w is None:
        w = m.walk(t, off, [])
    return w[0].lstrip('.') if w else '+%d' % off


def pointee(m, f, k):
    return m.pointee(f['args'][k].get('t', -1))


def is_const(m, t):
    """does the parameter's type promise not to write what it points to"""
    while t is not None and t >= 0 and m.types[t]['kind'] in ('typedef', 'const', 'other'):
        t = m.types[t]['base']
    x = m.types[t] if t is not None and t >= 0 else None
    if not x or x['kind'] not in ('ptr', 'ref'):
        return False
    t = x['base']
    while t is not None and t >= 0:
        x = m.types[t]
        if x['kind'] == 'const':
            return True
        if x['kind'] != 'typedef':
            return False
        t = x['base']
    return False


def path(m, f, o, off=None, st=0):
    """(text, type) of an object seen from function f"""
    if o[0] == 'a':
        return f['args'][o[1]]['n'], pointee(m, f, o[1])
    if o[0] == 'd':
        n, t = path(m, f, o[1])
        fl = field(m, t, o[2] or 0, 0) if t is not None and t >= 0 else '+%s' % o[2]
        w = m.walk(t, o[2] or 0, []) if t is not None and t >= 0 else None
        return '%s->%s' % (n, fl), (m.pointee(w[1]) if w and not w[2] else -1)
    if o[0] == 'g':
        return o[1], -1
    return str(o), -1


def entries(m):
    """extern-C entry points of the MLI 2 interface"""
    return {n: f for n, f in m.fns.items() if re.match(r'mli_(krn|mov|hlp|usr|chk)_?[a-z0-9_]*$', f['dem']) and f['linkage'] != 'internal'}


def methods(m):
    """(class, method, function) of the MLI 3 kernel classes; constructors are called 'ctor'"""
    for n, f in sorted(m.fns.items()):
        g = re.match(re.escape(NS) + r'(\w+)::(~?\w+)\((.*)\)(?: const)?$', f['dem'])
        if g and ')::' not in f['dem']:             # not what is defined inside a method
            c, k = g.group(1), g.group(2)
            yield c, ('ctor' if k == c else 'dtor' if k[0] == '~' else k), n, f


# ------------------------------------------------------------------------------------------------ P08
SCRATCH = re.compile(r'^mli_krn_(lstm_cell|gru_cell|rnn_dense)')     # interfaces that document cfg->scratch_data as written
OUT = re.compile(r'out|dst|result', re.I)


def p08(R, cfg):
    m, P = library(cfg)
    for n, f in sorted(entries(m).items()):
        s = P.sums[(n, ())]
        R.count('entries')
        seen = {}
        for (o, off, st, nb), l in s.writes.items():
            fl = field(m, path(m, f, o)[1], off, st) if o[0] == 'a' and st >= 0 and path(m, f, o)[1] >= 0 else ''
            if o[0] == 'a' and st == 0 and not fl.startswith('data.') and m.strip(path(m, f, o)[1]) >= 0:
                for x in m.types[m.strip(path(m, f, o)[1])].get('mem', []):
                    if x[0] == 'data' and off < x[1] + x[2] and (nb or 1) + off > x[1]:
                        fl = 'data.' + fl               # the first member, or a store that covers the container
            seen.setdefault((o, fl), (l, off, st))
        for (o, fl), (l, off, st) in sorted(seen.items(), key=str):
            R.count('written places')
            r = root(o)
            if r[0] != 'a':
                continue                                # globals are P09
            pn, t = path(m, f, o)
            par = f['args'][r[1]]['n']
            w = at(l, f)
            k = '%s:%s' % (f['dem'], pn)
            if is_const(m, f['args'][r[1]].get('t', -1)):
                ok = bool(SCRATCH.match(f['dem'])) and depth(o) == 1 and 'scratch' in pn
                if f['dem'] == 'mli_hlp_convert_tensor' and par == 'src':
                    R.count('places not decided (needs the correlation of element types and direction)')
                    continue
                R.obligation(ok, k, w, 'memory reached through the read-only argument %s is written (%s)' % (par, pn))
            elif depth(o) == 0 and re.match(r'mli_(krn|mov|chk)', f['dem']) and m.tname(t) in ('mli_tensor', '_mli_tensor', 'mli_lut', '_mli_lut'):
                R.obligation(not fl.startswith('data.'), k + '.' + fl, w, 'the data container of %s (%s) is written: it belongs to the caller' % (par, fl))
            else:
                R.obligation(not f['dem'].startswith('mli_chk'), k, w, 'a parameter check writes %s' % pn)
        if not seen:
            R.obligation(True, f['dem'], '', '')
    for c, k, n, f in methods(m):
        s = P.sums[(n, ())]
        R.count('methods')
        places = {}
        for (o, off, st, nb), l in s.writes.items():
            if root(o)[0] == 'a':
                places.setdefault(o, l)
        if not places:
            R.obligation(True, '%s::%s' % (c, k), '', '')
        for o, l in sorted(places.items(), key=str):
            pn = path(m, f, o)[0]
            par = f['args'][root(o)[1]]
            this = root(o)[1] == 0 and par['n'] == 'this'
            key = '%s::%s:%s' % (c, k, pn)
            if this and depth(o) == 0:
                ok = not (k.startswith('Get') or k == 'Prefetch' and False)
                why = 'a query method changes the object'
            elif this:
                ok = k == 'Issue' and bool(OUT.search(pn))
                why = 'memory reached through %s is written' % pn
            elif k in ('ctor', 'Issue', 'Update', 'Prefetch', 'AttachBufferOffsets', 'dtor'):
                ok, why = False, 'memory reached through the argument %s is written (%s)' % (par['n'], pn)
            else:
                ok, why = not is_const(m, par.get('t', -1)), 'memory reached through the read-only argument %s is written (%s)' % (par['n'], pn)
            R.obligation(ok, key, at(l, f), why)
    R.count('stores followed', sum(len(s.writes) for s in P.sums.values()))
    R.count('function summaries', len(P.sums))
    R.units += sorted(entries(m))


# ------------------------------------------------------------------------------------------------ P09
PURE = re.compile(r'^(mem(cpy|move|set|cmp|chr)|str(len|cmp|ncmp)|l?l?abs|[fl]?(ldexp|scalbn|frexp|floor|ceil|round|trunc|fabs|sqrt|exp|exp2|log|log2|pow|tanh|sin|cos|rint|lrint|nearbyint|copysign|fmin|fmax|fmod)(f|l)?|__assert_fail|abort|__cxa_pure_virtual)$')
DIAG = re.compile(r'^(printf|fprintf|puts|putchar|fflush|fputs|vprintf|putc|fputc)$')


def closure(m, n):
    seen, work = set(), [n]
    while work:
        x = work.pop()
        if x in seen or x not in m.fns:
            seen.add(x)
            continue
        seen.add(x)
        for b in m.fns[x]['blocks']:
            for i in b if isinstance(b, list) else b['ins']:
                if i['op'] in ('call', 'invoke') and i.get('callee'):
                    work.append(i['callee'])
    return seen


def p09(R, cfg):
    m, P = library(cfg)
    mv = lambda f: '/lib/src/move/' in f['file']
    for cyc in P.recursion:
        f = m.fns[cyc[0]]
        R.violation('recursion:' + f['dem'], at(None, f), 'recursion: ' + ' -> '.join(m.fns[x]['dem'].split('(')[0] for x in cyc))
    R.obl += len(m.fns)
    R.count('functions in the call graph', len(m.fns))
    # diagnostics: messages are allowed to the compile-time objects (and to the debug layer), never to what runs on the device
    hot = {}
    for n in list(entries(m)) + [n for c, k, n, f in methods(m) if not c.endswith('_CS')]:
        hot[n] = closure(m, n)
    R.count('entry points', len(hot))
    for name, sites in sorted(P.external.items()):
        for fn, loc in sites:
            f = m.fns[fn]
            R.count('calls out of the library')
            dem = f['dem']
            if PURE.match(name) or name.startswith('_ZdlPv') and '::~' in dem:
                R.obl += 1
            elif DIAG.match(name):
                users = sorted(m.fns[h]['dem'].split('(')[0] for h, cl in hot.items() if fn in cl)
                dbg = any('mli_debug' in x[0] or 'assert' in x[0].lower() for x in loc or ())
                R.obligation(dbg or not users, '%s:%s' % (dem.split('(')[0], name), at(loc, f), '%s is called from %s' % (name, ', '.join(users[:3])))
            else:
                R.obligation(False, '%s:%s' % (dem.split('(')[0], name), at(loc, f), 'calls %s, which is neither part of the library nor a pure function' % name)
    inmv = {g for g, x in m.globals.items() if '/lib/src/move/' in (x.get('file') or '')}
    wr = {}
    for (n, k), s in sorted(P.sums.items(), key=str):
        f = m.fns[n]
        for (o, off, st, nb), l in s.writes.items():
            r = root(o)
            if r[0] == 'g' and r[1] in m.globals:
                wr.setdefault(r[1], {}).setdefault(at(l, f), f)
    for g, sites in sorted(wr.items()):
        for w, f in sorted(sites.items()):
            file = w.split(':')[0]
            R.obligation(g in inmv and file.startswith('lib/src/move/'), 'global:%s' % (m.globals[g].get('dem') or g), w, 'the static variable %s is written' % (m.globals[g].get('dem') or g))
    # state of the data-movement interface is read by that interface only
    for (n, k), s in sorted(P.sums.items(), key=str):
        f = m.fns[n]
        for (o, off, st, nb), l in s.reads.items():
            r = root(o)
            if r[0] == 'g' and r[1] in wr and r[1] in inmv:
                R.obligation(at(l, f).startswith('lib/src/move/'), 'read:%s' % r[1], at(l, f), 'the state %s of the data-movement interface is used outside of it' % r[1])
    for g, x in sorted(m.globals.items()):
        R.count('static variables and tables')
        if x.get('tls'):
            R.violation('tls:' + g, '%s:%s' % (front.rel(x.get('file') or ''), x.get('line')), 'thread-local state %s' % g)
    R.units += sorted(m.globals)


# ------------------------------------------------------------------------------------------------ P29
def extent(m, T, off, st):
    """(start, length) of the array in T that an access at off + n * st walks over"""
    t, base = T, 0
    while True:
        t = m.strip(t)
        if t < 0:
            return None
        x = m.types[t]
        if x['kind'] in ('struct', 'union'):
            for mb in x['mem']:
                if mb[1] <= off - base < mb[1] + max(mb[2], 1):
                    base += mb[1]
                    t = mb[3]
                    break
            else:
                return None
        elif x['kind'] == 'array':
            es = m.types[m.strip(x['base'])]['size']
            n = 1
            for d in x['dims']:
                n *= d
            if st == U_ or es == st or len(x['dims']) > 1 and st % es == 0:
                return base, es * n
            base += (off - base) // es * es
            t = x['base']
        else:
            return None


U_ = -1


def undefined(cfg):
    """class -> [(offset, size, field, condition text)] of what its constructor leaves undefined on some path, assertions on"""
    import facts
    import m3
    from m3 import PCond
    bc = front.compile_bc([f for f in front.lib_sources() if f.endswith('_runtime.cc')], cfg, ['-fno-access-control', '-fstandalone-debug'])
    d = front.dump(bc, [r'--roots=ref::.*\(void\*, unsigned long, unsigned long\*, int\)$', '--inline-main', '--inline=.', m3.NOINL.replace('|BufferIterator<[^(]*::(BufferIterator|UpdateConfig)', ''), '--globals', '--alltypes'] + front.NORMAL, 'def_' + cfg)
    m = Mod(d)
    out = {}
    for n, f in sorted(m.fns.items()):
        mm = re.search(r'::ref::(\w+)::(\w+)\(', f['dem'])
        if not mm or mm.group(1) != mm.group(2) or mm.group(1).endswith('_CS') or not f['blocks'] or len(f['args']) < 4 or 'C1E' in n:
            continue
        c = PCond(m, f)
        a = c.args[0]
        bt = m.strip(a.bt) if a.bt is not None and a.bt >= 0 else -1
        if bt < 0:
            raise Broken('the object constructed by %s is not known' % f['dem'])
        lv = {a.s + '.' + x: (o, s) for o, s, ty, x in c.leaves(bt)}
        lv.update({a.s + x: (o, s) for o, s, ty, x in c.leaves(bt)})
        u = []
        for k, (cs, R) in facts.state(c, a, bt, a.s).items():
            bad = 0
            for g, t in cs:
                if t == 'uninit' or t == '%s->%s' % (a.s, k[len(a.s):].lstrip('.')):
                    bad = c.b.OR(bad, c.b.AND(g, R))
            if bad:
                bad = c.b.AND(bad, c.axioms(c.b.support(bad)))
            if bad:
                if k not in lv:
                    raise Broken('field %s not placed' % k)
                u.append(lv[k] + (k[len(a.s):].lstrip('.'), facts.show(c, bad)))
        out[mm.group(1)] = (u, m.types[bt]['size'])
    return out


# confirmed: what an element-wise operand keeps undefined lies beyond its rank, or the rank of the output is out of range
SOMETIMES = re.compile(r'(Add|Sub|Mul|Max|Min)\.m_tile_(input_left|input_right|output)\.(shape|mem_stride|rank)\b')


def p29(R, cfg):
    m, P = library(cfg)
    seen = set()
    und = undefined('assert') if cfg == CFG['quick'][0] else {}
    ct = {}
    for c, k, n, f in methods(m):
        if k == 'ctor' and not c.endswith('_CS') and f['args'] and len(f['args']) > 2:
            ct.setdefault(c, []).append((n, f))
    if len(ct) < 15:
        raise Broken('only %d runtime classes found' % len(ct))
    for c in sorted(ct):
        R.count('runtime classes')
        R.units.append(c)
        for n, f in ct[c]:
            T = pointee(m, f, 0)

            def cover(s, bits):
                for (o, off, st, nb), l in s.writes.items():
                    if o != ('a', 0):
                        continue
                    if st:
                        e = extent(m, T, off, st)
                        if e is None:                   # not placed: taken to define the whole object
                            R.count('writes that could not be placed')
                            e = (0, m.types[T]['size'])
                        off, nb = e
                    bits.update(range(off, off + nb))
                return bits
            W = cover(P.sums[(n, ())], set())
            R.count('bytes defined by construction', len(W))
            for c2, k, n2, g in methods(m):
                if c2 != c or k in ('ctor', 'dtor'):
                    continue
                s = P.sums[(n2, ())]
                W2 = cover(s, set(W))
                for (o, off, st, nb), l in s.reads.items():
                    if o != ('a', 0) or nb < 0:
                        continue
                    a, b = off, nb
                    if st:
                        e = extent(m, T, off, st)
                        if e is None:
                            R.count('reads that could not be placed')
                            continue
                        a, b = e
                    R.count('reads of object fields')
                    fl = field(m, T, off, st)
                    R.obligation(any(x in W2 for x in range(a, a + b)), '%s::%s:%s' % (c, k, fl), at(l, g),
                                 '%s::%s() uses %s, which the constructor never defines' % (c, k, fl))
                    short = c.split('::')[-1]
                    for uo, un, uf, ug in und.get(short, ((), 0))[0]:
                        if uo < a + b and a < uo + un and (short, uf) not in seen:
                            seen.add((short, uf))
                            R.count('fields undefined on some path')
                            R.obligation(bool(SOMETIMES.match('%s.%s' % (short, uf))), '%s::%s sometimes' % (c, uf), at(l, g),
                                         '%s::%s() uses %s, which the constructor leaves undefined when %s' % (c, k, uf, ug))


def run(R):
    for cfg in CFG[R.tier]:
        {'P08': p08, 'P09': p09, 'P29': p29}[R.prop](R, cfg)
