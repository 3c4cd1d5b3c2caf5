"""P21-P25, P28: the MLI 3 objects.  For every kernel a probe constructs the compiler-support object, attaches buffers, passes the
private data to the runtime object and runs one step; the analysis resolves, over the IR of the probe and the current kernel sources, what
each field of each argument of the low level kernel is, and compares with confirmed tables."""
import json
import os
import re
import sys
from concurrent.futures import ProcessPoolExecutor
import front, facts, m3
from front import Broken
from cond import Mod
from m3 import clean, IMPL

NEED = {'P21': ['issue'], 'P22': ['issue'], 'P23': ['issue', 'updated'], 'P24': ['issue'], 'P25': ['io', 'io_updated'], 'P28': ['sizes', 'blob', 'issue']}
CFG = {'quick': ['up'], 'thorough': ['up', 'convergent', 'fullacc']}


def short(dem):
    """function name with template arguments, without namespaces, return type and parameters"""
    d = re.sub(r'\b(\w+::)+', '', dem)
    depth = 0
    for k, ch in enumerate(d):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0 and k:
            d = d[:k]
            break
    depth = 0
    for k in range(len(d) - 1, -1, -1):
        if d[k] == '>':
            depth += 1
        elif d[k] == '<':
            depth -= 1
        elif d[k] == ' ' and depth == 0:
            d = d[k + 1:]
            break
    depth = 0
    for k in range(len(d) - 1, 0, -1):
        if d[k] == '>':
            depth += 1
        elif d[k] == '<':
            depth -= 1
        elif d[k - 1:k + 1] == '::' and depth == 0:     # class templates
            d = d[k + 1:]
            break
    return d


def impls(c):
    out = []
    for e in sorted(c.events.values(), key=lambda e: c.etime[e[3]['id']] if e[3]['id'] in c.etime else 0):
        if e[0] == 'call' and e[1] and IMPL.search(e[3].get('cdem') or ''):
            out.append(e)
    return out


def impl_facts(c):
    """dispatch, status and, per argument of the kernel functions, every field"""
    b = c.b
    fs = {}
    leaf = {}
    reach = {}
    disp = []
    reach1 = {}
    car = set()
    ren = {}
    def anyiter(g):         # in some iteration of a loop
        return b.exists(g, lambda a: re.match(r'\$[vx]\d', a))
    for _, R, (name, args), ins in impls(c):
        sh = short(ins.get('cdem') or name)
        base = re.sub(r'<.*', '', sh)
        grp = 'quant' if base == 'define_quant_params' else 'kernel' if 'read' != base != 'write' else base
        disp.append((grp, R, sh))
        reach[grp] = b.OR(reach.get(grp, 0), R)
        for k, cs in args.leaf.items():
            if re.search(r'buffer_itr|_vptr', k) or k.startswith('0') and 'MoveBroadcastRun' in sh:
                continue            # decided by P27; the object itself
            car |= {x for g, t in cs for x in re.findall(r'carried\(([^()]*)\)', t)}
            f1 = getattr(c, 'first', {}).get(ins['id'])
            if f1 and any('carried(' in t for g, t in cs):
                for g, t in cs:
                    for x in re.findall(r'^&?carried\(([^()]*)\)$', t):
                        ren[re.sub(r'\.mem\.\w+$', '.mem', x)] = 'argument ' + k
                k, (R1, l1) = k + ' in the first iteration', f1
                cs = l1.get(k.split(' ')[0], [])
                reach1[grp, 'argument ' + k] = b.OR(reach1.get((grp, 'argument ' + k), 0), R1)
            leaf.setdefault((grp, 'argument ' + k), []).extend((anyiter(g), t) if grp in ('read', 'write') else (g, t) for g, t in cs)
    for grp in ('read', 'write'):
        if grp in reach:
            reach[grp] = anyiter(reach[grp])
            disp = [(g, anyiter(R) if g == grp else R, sh) for g, R, sh in disp]
    for grp in reach:
        fs[grp] = ([(R, sh) for g, R, sh in disp if g == grp] + [(b.NOT(reach[grp]), 'not called')], 1)
    for (grp, n), cs in leaf.items():
        if all(x == 'uninit' or re.match(r'&?[A-Za-z_]\w*(\.tmp)?$', x) and x.startswith('&') for g, x in cs):
            continue        # a result parameter, the address of a local variable
        fs[('' if grp == 'kernel' else grp + ' ') + n] = (cs, reach1.get((grp, n), reach[grp]))
    loops = [{i.get('id') for b in body for i in c.blocks[b]} for body in c.loops.values()]
    for e in c.events.values():         # how the next iteration differs
        if e[0] == 'store' and car and any(e[3]['id'] in ids for ids in loops):
            for g, t in e[2][0]:
                n = next((x for x in car if re.sub(r'\.mem\.\w+$', '.mem', clean(t.s.lstrip('&'))) == re.sub(r'\.mem\.\w+$', '.mem', x)), None)
                if n:
                    k = 'next iteration ' + n
                    cs, R = fs.get(k, ([], 0))
                    r = b.AND(g, e[1])
                    fs[k] = (cs + [(b.AND(r, g2), clean(x.s)) for g2, x in c.ascases(e[2][1])], b.OR(R, r))
    for n, (cs, R) in facts.retfact(c).items():
        fs[n] = (cs, R)
    # what a loop carries is named after the argument it becomes, not after the variable
    out = {}
    for n, (cs, R) in fs.items():
        m = re.match(r'next iteration (.*)', n)
        if m:
            p = re.sub(r'\.mem\.\w+$', '.mem', m.group(1))
            n = ren.get(p, p) + ' in the next iteration'
            cs = [(g, re.sub(r'^&?[^+@]*@\d+\([^()]*\)|^&?carried\([^()]*\)', 'before', t)) for g, t in cs]
        cs = [(g, re.sub(r'^&?carried\(.*\)$', 'carried', t)) for g, t in cs]
        out[n] = (cs, R)
    return c.relocal(out)


def tag_facts(c):
    fs = {}
    for tag, (con, sig, R) in getattr(c, 'tags', {}).items():
        for n, cs in con.items():
            fs[tag + n] = (cs, R)
    return c.relocal(fs)


def used(fs):
    """drop what is said about tiles that no other fact mentions"""
    tags = {n: re.match(r'((?:tile|Next|subit)\{.*\}(?:#\d+)?)\.', n) for n in fs}
    tags = {n: m.group(1) for n, m in tags.items() if m}
    live, todo = set(), [n for n in fs if n not in tags]
    names = set(tags.values())
    while todo:
        n = todo.pop()
        for g, t in fs[n][0]:
            for x in names - live:
                if x in t:
                    live.add(x)
                    todo += [k for k in tags if tags[k] == x]
    return {n: f for n, f in fs.items() if n not in tags or tags[n] in live}


def is_tag(n):
    return re.match(r'(tile|Next|subit)\{', n)


def owner(n, f):
    """which of P21, P22, P24 a fact of the issue probe belongs to"""
    if n in ('kernel', 'quant', 'read', 'write', 'return') or re.search(r'\.el_type( in the first iteration)?$', n):
        return 'P24'
    if '.data.mem' in n or '.buf.' in n or any(re.search(r'membases|_buf->|_t->', t) for g, t in f[0]):
        return 'P22'
    return 'P21'


def split(prop, name, fs):
    """the facts of the issue probe that prop decides: those of its table, and new ones by kind"""
    if not SPECS:
        return {n: f for n, f in fs.items() if owner(n, f) == prop}
    own = {p: SPECS[p].get(name, {}).get('facts', {}) for p in SPECS}
    return {n: f for n, f in fs.items() if n in own[prop] or not any(n in own[p] for p in own) and owner(n, f) == prop}


SPECS = {}


def same(c, x, y):
    """do two facts denote the same guarded texts (in one analysis)"""
    def norm(f):
        d = {}
        for g, t in f[0]:
            g = c.b.AND(g, f[1])
            if g:
                d[t] = c.b.OR(d.get(t, 0), g)
        return d
    return norm(x) == norm(y)


def subjects(prop, k, cfg):
    d = m3.KERNELS[k]
    need = NEED[prop]
    if d.get('noruntime') and prop != 'P28':
        return
    if prop == 'P25' and not (d.get('io') or d.get('ioref')):
        return
    m = Mod(m3.load(k, cfg, want=need))
    where = ', '.join(front.rel(x) for x in d['src'])
    for v in d['ctor']:
        sfx = '_' + v if v else ''
        name = k + ('/' + v if v else '')

        def get(p):
            f = m.fns.get('probe_' + p + sfx)
            if f is None or not f['blocks']:
                raise Broken('probe %s of %s missing' % (p, k))
            return m3.PCond(m, f)
        if prop in ('P21', 'P22', 'P24'):
            c = get('issue')
            fs = impl_facts(c)
            if not any(n in fs for n in ('kernel', 'read', 'write')):
                raise Broken('%s: no call of a kernel function found' % name)
            fs.update(tag_facts(c))
            yield name, c, split(prop, name, used(fs)), where
        elif prop == 'P23':
            c = get('updated')
            c0 = get('issue')
            fs = impl_facts(c)
            f0 = impl_facts(c0)
            out = {}
            for n, f in fs.items():
                a = json.dumps(facts.encode(c, *f, True)[0])
                z = json.dumps(facts.encode(c0, *f0[n], True)[0]) if n in f0 else None
                out[n] = ([(f[1], 'as before Update')], f[1]) if a == z else f
            out.update({n: f for n, f in tag_facts(c).items() if n.startswith('Next')})
            yield name, c, out, where
        elif prop == 'P25':
            for p in ('io', 'io_updated'):
                c = get(p)
                fs = {}
                ups = c.rets_t
                if d.get('io'):
                    lv = [(n, j) for n, t, cnt in d['io'] for j in range(cnt)]
                else:
                    lv = [(n, 0) for n in d['ioref']]
                an = {a['n']: t for a, t in zip(c.f['args'], c.args) if a.get('n')} if hasattr(c, 'f') else {}
                for n, j in lv:
                    t = an[n]
                    cs, tot = [], 0
                    for (Rr, _, _), up in zip(c.rets, ups):
                        tot = c.b.OR(tot, Rr)
                        for g, x in c.read(t, 4 * j, 4, 'i32', up, Rr):
                            g = c.b.AND(g, Rr)
                            if g:
                                cs.append((g, clean(x.s)))
                    fs['%s[%d]' % (n, j) if d.get('io') else n] = (cs, tot)
                yield name + ('' if p == 'io' else ' after Update'), c, fs, where
        elif prop == 'P28':
            c = get('sizes')
            an = {a['n']: t for a, t in zip(c.f['args'], c.args) if a.get('n')}
            fs = {}
            for n in ['size_of_type', 'data_size', 'object_size'] + d['sizes']:
                cs, tot = [], 0
                for (Rr, _, _), up in zip(c.rets, c.rets_t):
                    tot = c.b.OR(tot, Rr)
                    for g, x in c.read(an[n], 0, 4, 'i32', up, Rr):
                        g = c.b.AND(g, Rr)
                        if g:
                            cs.append((g, clean(x.s)))
                fs[n] = (cs, tot)
            fs['data size covers the private data'] = ([(g, 'yes' if t == '%s' % fs['size_of_type'][0][0][1] else 'reports %s, needs %s' % (t, fs['size_of_type'][0][0][1])) for g, t in fs['data_size'][0]], fs['data_size'][1])
            # absolute sizes are not part of the contract
            del fs['size_of_type'], fs['data_size']
            yield name, c, fs, where
            c = get('blob')
            an = {a['n']: t for a, t in zip(c.f['args'], c.args) if a.get('n')}
            fs = dict(facts.retfact(c))
            bt = next((j for j, t in enumerate(m.types) if t.get('name') == d['pd'] and t['kind'] == 'struct' and t['size']), -1)
            if bt < 0:
                raise Broken('%s: type %s not found' % (k, d['pd']))
            base = c.key(an['blob'])[0]
            ext = max([w.off + w.size for w in c.bybase.get(base, []) if w.size] or [0])
            anyv = any(w.size is None or w.idx for w in c.bybase.get(base, []))
            fs['bytes written'] = ([(1, 'variable' if anyv else 'all of the private data' if ext == m.types[bt]['size'] else '%d of %d' % (ext, m.types[bt]['size']))], 1)
            for o, s, ty, n in c.leaves(bt):
                if re.search(r'(kernel_id|\bsize)_?$', n) and n.count('.') <= 1:
                    cs, tot = [], 0
                    for (Rr, _, _), up in zip(c.rets, c.rets_t):
                        tot = c.b.OR(tot, Rr)
                        for g, x in c.read(an['blob'], o, s, ty, up, Rr):
                            g = c.b.AND(g, Rr)
                            if g:
                                cs.append((g, 'sizeof' if n.endswith('size') and x.s == str(m.types[bt]['size']) else clean(x.s)))
                    fs['header' + clean(n)] = (cs, tot)
            if not d.get('noruntime'):
                c2 = get('issue')
                over = [(e[1], 'reads %s bytes of %d' % (a[2][0][1].s, m.types[bt]['size'])) for e in c2.events.values() if e[0] == 'call' and re.match(r'llvm\.memcpy|memcpy', e[2][0] or '')
                        for a in [e[2][1]] if any(re.match(r'&?blob\b', t.s) for g, t in a[1]) and not (len(a[2]) == 1 and a[2][0][1].c is not None and a[2][0][1].c <= m.types[bt]['size'])]
                fs['runtime constructor copies'] = (over or [(1, 'at most the private data')], 1)
            yield name + ' private data', c, fs, where


def worker(job):
    prop, k, cfg, mode = job
    sys.setrecursionlimit(20000)
    out = []
    try:
        spec = facts.load(prop) if mode == 'check' else {}
        SPECS.clear()
        if mode == 'check' and prop in ('P21', 'P22', 'P24'):
            SPECS.update({p: facts.load(p) for p in ('P21', 'P22', 'P24')})
        for name, c, fs, where in subjects(prop, k, cfg):
            if mode == 'freeze':
                out.append((name, facts.freeze(c, fs, True), None, None))
            elif name not in spec:
                out.append((name, 0, [(None, 'not in the confirmed table')], where))
            else:
                out.append((name, len(spec[name]['facts']), [x for x in facts.compare(c, fs, facts.align(spec[name], c, fs), lambda n: n.startswith('argument ') and '.' in n, True) if x[1] is not None or not is_tag(x[0])], where))
    except Broken as e:
        return ('broken', str(e))
    return ('ok', out)


def jobs(prop, cfg, mode, only=None):
    with ProcessPoolExecutor(8) as ex:
        for (p, k, cf, mo), r in zip([(prop, k, cfg, mode) for k in m3.KERNELS if not only or k in only], ex.map(worker, [(prop, k, cfg, mode) for k in m3.KERNELS if not only or k in only])):
            yield k, r


def freeze(prop, only=None):
    out = {}
    for k, r in jobs(prop, 'up', 'freeze', only):
        if r[0] != 'ok':
            raise Broken(r[1])
        for name, fr, _, _ in r[1]:
            out[name] = fr
    return out


def run(R):
    spec = facts.load(R.prop)
    for cfg in CFG[R.tier]:
        seen = set()
        for k, r in jobs(R.prop, cfg, 'check'):
            if r[0] != 'ok':
                raise Broken(r[1])
            for name, n, diffs, where in r[1]:
                seen.add(name)
                R.count('probes')
                R.count('facts', n)
                R.obl += n
                R.units.append('%s (%s): %d facts' % (name, cfg, n))
                for fn, txt in diffs:
                    R.violation('%s %s' % (name, fn) if fn else name, where, txt if txt is not None else 'is no longer established')
        miss = set(spec) - seen
        if miss:
            raise Broken('%s (%s): vanished: %s' % (R.prop, cfg, ', '.join(sorted(miss))[:300]))


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    prop = sys.argv[1]
    out = freeze(prop, [a for a in sys.argv[2:] if not a.startswith('-')])
    for name in out:
        print(name, len(out[name]['facts']))
        if '-v' in sys.argv:
            for n, cs in out[name]['facts'].items():
                print('    %s = %s' % (n, ' | '.join('%s%s' % (t, '' if not cl else ' when ' + ' and '.join('(' + ' or '.join(('' if p else 'not ') + a for a, p in x) + ')' for x in cl)) for t, cl in cs)))
    if '-n' not in sys.argv:
        json.dump(out, open(facts.specfile(prop), 'w'), indent=0, sort_keys=True)
