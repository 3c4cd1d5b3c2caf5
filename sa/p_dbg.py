"""P10: the debug mode never changes what is computed.
 arguments  the library is compiled with the checking macros (and <assert.h>) replaced by brackets around their argument; no write inside
            a bracket may reach memory that is used outside the brackets (callee effects from access-path summaries)
 units      with the macros bracketed, every library source is the same program in every debug mode
 macros     what each macro of the real header yields in each mode
 release    in release mode every kernel entry returns MLI_STATUS_OK"""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import front
from front import Broken
from prov import Prov, root
from absint import Interp, Oct, Reg, Giveup, const, var, text, show, ev

MODES = ['RELEASE', 'RET_CODES', 'ASSERT', 'DEBUG', 'FULL']
SH = front.VERIF + '/sa/probes/shadow'
MARK = front.VERIF + '/sa/probes/p10_mark.h'
BEGIN, END = {'mlisa_begin'}, {'mlisa_end', 'mlisa_chk', 'mlisa_st'}
QUIET = re.compile(r'^(mlisa_\w+|printf|puts|putchar|fflush|abort|__assert_fail|llvm\.(dbg|lifetime|assume|stacksave|stackrestore)\S*)$')


def flags(mode):
    return ['-DROUND_MODE_UP', '-DMLI_DEBUG_MODE=DBG_MODE_' + mode]


def marked(files, mode, passes):
    """bitcode of the sources with bracketed macros"""
    d = front.tmp() + '/p10_' + mode
    os.makedirs(d, exist_ok=True)

    def one(f):
        o = '%s/%s.%x.bc' % (d, os.path.basename(f), hash(f) & 0xffffff)
        if not os.path.exists(o):
            r = subprocess.run([front.CXX, '-std=gnu++17', '-U__clang__', '-w'] + flags(mode) + ['-I' + SH] + front.INC +
                               ['-include', MARK, '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-emit-llvm', '-c', f, '-o', o],
                               capture_output=True, text=True)
            if r.returncode:
                return (f, r.stderr)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


# ------------------------------------------------------------------------------------------------ arguments
def depths(f):
    """nesting depth of the brackets before every instruction (block, index) -> depth, or None when it is not well nested"""
    bl = f['blocks']
    at = {0: 0}
    todo, dep = [0], {}
    while todo:
        b = todo.pop()
        d = at[b]
        for i, ins in enumerate(bl[b]):
            n = ins.get('callee')
            if n in END:
                d -= 1
            dep[(b, i)] = d
            if n in BEGIN:
                d += 1
        t = bl[b][-1]
        for s in list(t.get('succ') or []) + ([t['def']] + [c[1] for c in t['cases']] if t['op'] == 'switch' else []):
            if s not in at:
                at[s] = d
                todo.append(s)
            elif at[s] != d:
                return None
    return dep


class Fn:
    def __init__(self, f, P):
        self.f, self.P = f, P
        self.by = {i['id']: i for b in f['blocks'] for i in b}

    def base(self, v, n=0):
        """('alloca', id) | ('arg', k) | ('global', name) | ('loaded', id) | None"""
        if v[0] == 'g':
            return ('global', v[1])
        if v[0] == 'xgep':
            return self.base(v[1], n + 1)
        if v[0] == 'a':
            return ('arg', v[1])
        if v[0] in ('v', 'i') and v[1] in self.by and n < 60:
            i = self.by[v[1]]
            if i['op'] == 'alloca':
                return ('alloca', i['id'])
            if i['op'] == 'getelementptr':
                return self.base(i['gep'][0], n + 1)
            if i['op'] in ('bitcast', 'addrspacecast', 'freeze'):
                return self.base(i['ops'][0], n + 1)
            if i['op'] == 'load':
                return ('loaded', i['id'])
            if i['op'] == 'call':
                return ('loaded', i['id'])
        return None

    def ops(self, i):
        out = list(i.get('ops') or [])
        if i['op'] == 'getelementptr':
            out = [i['gep'][0]] + [x[1] for x in i['gep'][2]]
        if i['op'] == 'phi':
            out = [x[1] for x in i['in']]
        return out

    def kept(self, a, off, users):
        """what the pointers stored in the local object at the offset point to"""
        out, todo = [], [(a, 0)]
        while todo:
            v, at = todo.pop()
            for b, k, i in users.get(v, []):
                if i['op'] in ('bitcast',):
                    todo.append((i['id'], at))
                elif i['op'] == 'getelementptr' and i['gep'][0][-1] == v and not i['gep'][2]:
                    todo.append((i['id'], at + i['gep'][1]))
                elif i['op'] == 'store' and i['ops'][1][-1] == v and at == off:
                    out.append(self.base(i['ops'][0]))
        return out

    def run(self):
        """[(ins, what)] writes inside brackets that something outside sees; (brackets, undecided)"""
        dep = depths(self.f)
        if dep is None:
            return [], 0, 1
        n, bad, und = 0, [], 0
        users = {}
        for b, blk in enumerate(self.f['blocks']):
            for k, i in enumerate(blk):
                for v in self.ops(i):
                    if v[0] in ('v', 'i'):
                        users.setdefault(v[1], []).append((b, k, i))

        def private(a, seen=None):
            """the local object is only looked at inside brackets"""
            seen = seen or set()
            for b, k, i in users.get(a, []):
                if i['id'] in seen or i['op'] == 'alloca':
                    continue
                seen.add(i['id'])
                if i['op'] in ('getelementptr', 'bitcast'):
                    if not private(i['id'], seen):
                        return False
                    continue
                if dep.get((b, k), 0) > 0:
                    continue
                if i['op'] == 'store' and i['ops'][1] == ['v', a] or i['op'] == 'store' and i['ops'][1][-1] == a and i['ops'][0][-1] != a:
                    continue
                if i['op'] == 'call' and ((i.get('callee') or '').startswith(('llvm.lifetime', 'llvm.dbg'))):
                    continue
                if i['op'] == 'call' and (i.get('callee') or '').startswith(('llvm.memset', 'llvm.memcpy')) and i['ops'][0][-1] == a:
                    continue
                return False
            return True
        for b, blk in enumerate(self.f['blocks']):
            for k, i in enumerate(blk):
                if i.get('callee') in BEGIN:
                    n += 1
                if dep.get((b, k), 0) <= 0:
                    continue
                W = []
                if i['op'] == 'store':
                    W = [(self.base(i['ops'][1]), 'a store')]
                elif i['op'] in ('atomicrmw', 'cmpxchg'):
                    W = [(self.base(i['ops'][0]), 'an atomic update')]
                elif i['op'] in ('call', 'invoke'):
                    c = i.get('callee')
                    if c is None:
                        und += 1
                        continue
                    if c in BEGIN or c in END or QUIET.match(c):
                        continue
                    if c.startswith('llvm.'):
                        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                            W = [(self.base(i['ops'][0]), 'a block write')]
                    elif c not in self.P.fns:
                        continue
                    else:
                        s = self.P.summary(c, ())
                        nm = re.sub(r'\(.*', '', i.get('cdem') or c)
                        for (o, off, st, _), loc in s.writes.items():
                            r = root(o)
                            if r[0] == 'g':
                                W.append((('global', r[1]), 'the call of %s' % nm))
                            elif r[0] == 'a' and r[1] < len(i['ops']):
                                bs = self.base(i['ops'][r[1]])
                                if o[0] == 'd' and bs and bs[0] == 'alloca':
                                    kept = self.kept(bs[1], o[2], users) if o[1][0] == 'a' else []
                                    und += not kept
                                    W += [(x, 'the call of %s' % nm) for x in kept]
                                    continue
                                W.append((bs, 'the call of %s' % nm))
                for bs, what in W:
                    if bs is None:
                        und += 1
                    elif bs[0] == 'alloca':
                        if not private(bs[1]):
                            bad.append((i, '%s changes the local %s, which is used outside the check' % (what, self.by[bs[1]].get('n') or 'object')))
                    elif bs[0] == 'loaded' and self.by[bs[1]]['op'] == 'call':
                        und += 1
                    else:
                        bad.append((i, '%s writes through %s' % (what, bs[1] if bs[0] == 'global' else 'a parameter or pointer')))
        return bad, n, und


def arguments(R):
    files = front.lib_sources()
    bcs = marked(files, 'FULL', None)
    lost = [x for x in bcs if isinstance(x, tuple)]
    for f, e in lost:
        R.count('sources that do not compile with bracketed macros (not decided)')
        R.units.append('%s: %s' % (front.rel(f), e[:200]))
    bcs = [x for x in bcs if not isinstance(x, tuple)]
    if not bcs:
        raise Broken('no library source compiles with bracketed macros: ' + lost[0][1][:300])
    raw = front.dump(bcs, ['--roots=.', '--alltypes'], 'p10_raw')
    d = front.dump(bcs, ['--roots=.', '--noinline=.', '--alltypes', '--globals', '--passes=function(sroa,mem2reg)'], 'p10_prov')
    P = Prov(d)
    seen = set()
    for f in d['functions']:
        if not f['blocks'] or f['name'] in ('mli_check', 'mli_check_status'):
            continue
        for i, t in released(P, f):
            loc = next((l for l in i.get('loc') or () if l[1]), None)
            w = '%s:%s' % (front.rel(loc[0]), loc[1]) if loc else front.rel('%s:%s' % (f['file'], f['line']))
            if (w, t) not in seen:
                seen.add((w, t))
                R.violation(re.sub(r'\(.*', '', f['dem']), w, t)
    for f in raw['functions']:
        if not f['blocks'] or not any(i.get('callee') in BEGIN for b in f['blocks'] for i in b) or f['name'] in ('mli_check', 'mli_check_status'):
            continue
        bad, n, und = Fn(f, P).run()
        R.count('functions with checks')
        R.count('checked expressions', n)
        R.obl += n
        if und:
            R.count('expressions not decided', und)
        for i, t in bad:
            loc = next((l for l in i.get('loc') or () if l[1]), None)
            w = '%s:%s' % (front.rel(loc[0]), loc[1]) if loc else front.rel('%s:%s' % (f['file'], f['line']))
            key = re.sub(r'\(.*', '', f['dem'])
            if (w, t) not in seen:
                seen.add((w, t))
                R.violation(key, w, 'inside a checked expression, ' + t)


def impure(P, f, i):
    """the instruction changes memory the function does not own"""
    if i['op'] == 'store':
        return 'a store'
    if i['op'] not in ('call', 'invoke'):
        return None
    c = i.get('callee') or ''
    if QUIET.match(c) or c.startswith('llvm.') and not c.startswith(('llvm.mem',)):
        return None
    if c.startswith('llvm.mem'):
        return 'a block write'
    if c in P.fns:
        return 'the call of ' + re.sub(r'\(.*', '', i.get('cdem') or c) if any(root(k[0])[0] in 'ag' for k in P.summary(c, ()).writes) else None
    return None


def released(P, f):
    """what happens only where a check failed, which release mode never notices: [(ins, text)]"""
    bl = f['blocks']
    by = {i['id']: i for b in bl for i in b}
    if not any(i.get('callee') in ('mlisa_chk', 'mlisa_st') for b in bl for i in b):
        return []
    live, edges, todo = set(), set(), [(None, 0)]

    def value(v, seen):
        if v[0] == 'c':
            return v[1]
        if v[0] not in ('v', 'i') or v[1] in seen:
            return None
        i, seen = by[v[1]], seen | {v[1]}
        if i.get('callee') in ('mlisa_chk', 'mlisa_st'):
            return 0
        if i['op'] == 'phi':
            blk = where[i['id']]
            xs = {value(x[1], seen) for x in i['in'] if (x[0], blk) in edges}
            return xs.pop() if len(xs) == 1 else None
        if i['op'] in ('zext', 'sext', 'trunc', 'freeze'):
            return value(i['ops'][0], seen)
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne'):
            a, b = value(i['ops'][0], seen), value(i['ops'][1], seen)
            return None if a is None or b is None else int((a == b) == (i['pred'] == 'eq'))
        if i['op'] in ('or', 'and', 'xor'):
            a, b = value(i['ops'][0], seen), value(i['ops'][1], seen)
            if i['op'] == 'and' and 0 in (a, b):
                return 0
            return None if a is None or b is None else {'or': a | b, 'and': a & b, 'xor': a ^ b}[i['op']]
        if i['op'] == 'select':
            c = value(i['ops'][0], seen)
            return None if c is None else value(i['ops'][1 if c & 1 else 2], seen)
        return None
    where = {i['id']: k for k, b in enumerate(bl) for i in b}

    def targets(t):
        if t['op'] == 'br' and t['ops']:
            c = value(t['ops'][0], frozenset())
            return t['succ'] if c is None else [t['succ'][0 if c & 1 else 1]]
        if t['op'] == 'switch':
            c = value(t['ops'][0], frozenset())
            if c is None:
                return [t['def']] + [x[1] for x in t['cases']]
            return [next((x[1] for x in t['cases'] if int(x[0]) == c), t['def'])]
        return t.get('succ') or []
    while True:                                # optimistic edges only grow
        n = (len(live), len(edges))
        live.add(0)
        for b in sorted(live):
            for s in targets(bl[b][-1]):
                edges.add((b, s))
                live.add(s)
        if (len(live), len(edges)) == n:
            break
    out = []
    for b in range(len(bl)):
        if b in live:
            continue
        for i in bl[b]:
            w = impure(P, f, i)
            if w:
                out.append((i, '%s happens only where a check fails, which release mode does not notice' % w))
    users = {}
    for b in bl:
        for i in b:
            for v in (list(i.get('ops') or []) if i['op'] != 'getelementptr' else [i['gep'][0]] + [x[1] for x in i['gep'][2]]) + ([x[1] for x in i['in']] if i['op'] == 'phi' else []):
                if v[0] in ('v', 'i'):
                    users.setdefault(v[1], []).append(i)
    for b in live:
        for i in bl[b]:
            if i['op'] != 'phi' or all((x[0], b) in edges for x in i['in']):
                continue
            todo, seen = [i], set()
            while todo:
                x = todo.pop()
                if x['id'] in seen:
                    continue
                seen.add(x['id'])
                if where[x['id']] not in live:
                    continue
                if x['op'] == 'store' or x['op'] in ('call', 'invoke') and impure(P, f, x):
                    out.append((x, 'a value that differs where a check fails, which release mode does not notice, reaches %s' % impure(P, f, x)))
                    break
                if x['op'] in ('ret', 'br', 'switch'):
                    continue
                todo += users.get(x['id'], [])
    return out


# ------------------------------------------------------------------------------------------------ units
def tokens(f, mode):
    r = subprocess.run([front.CXX, '-std=gnu++17', '-U__clang__', '-w', '-E', '-P'] + flags(mode) + ['-I' + SH] + front.INC + ['-include', MARK, f], capture_output=True, text=True)
    if r.returncode:
        return None
    return ' '.join(r.stdout.split('mlisa_start_of_unit', 1)[-1].split())


def expr(fn, by, v, n, memo):
    """structural name of a value"""
    if v[0] not in ('v', 'i'):
        return tuple(v[:2]) if v[0] != 'xgep' else ('xgep', str(v)[:80])
    i = by.get(v[1])
    if i is None or n > 14:
        return ('...',)
    k = (v[1], n)
    if k not in memo:
        memo[k] = ('?',)
        if i['op'] == 'phi':
            x = ('phi', i['ty'], tuple(sorted(str(expr(fn, by, y[1], n + 5, memo)) for y in i['in'])))
        else:
            o = list(i.get('ops') or [])
            if i['op'] == 'getelementptr':
                o = [i['gep'][0]] + [y[1] for y in i['gep'][2]]
                x = ('gep', i['gep'][1], tuple(y[0] for y in i['gep'][2]), tuple(expr(fn, by, y, n + 1, memo) for y in o))
            else:
                x = (i['op'], i['ty'], i.get('pred'), i.get('callee'), i.get('n'), tuple(expr(fn, by, y, n + 1, memo) for y in o))
        memo[k] = hash(x)
    return memo[k]


def effects(f):
    by = {i['id']: i for b in f['blocks'] for i in b}
    memo, out = {}, {}

    def put(k, i):
        out.setdefault(k, []).append(i)
    for b in f['blocks']:
        for i in b:
            E = lambda v: expr(f, by, v, 0, memo)
            if i['op'] == 'store':
                put(('store', i['size'], E(i['ops'][0]), E(i['ops'][1])), i)
            elif i['op'] in ('call', 'invoke') and not QUIET.match(i.get('callee') or ''):
                put(('call', i.get('callee'), tuple(E(x) for x in i['ops'])), i)
            elif i['op'] in ('br', 'switch') and i['ops']:
                put((i['op'], E(i['ops'][0])), i)
            elif i['op'] == 'ret' and i['ops']:
                put(('ret', E(i['ops'][0])), i)
    return out


def units(R):
    files = front.lib_sources()
    with ThreadPoolExecutor(8) as ex:
        tk = dict(zip([(f, m) for f in files for m in MODES], ex.map(lambda x: tokens(*x), [(f, m) for f in files for m in MODES])))
    for f in files:
        R.count('library sources')
        base = tk[(f, 'RET_CODES')]
        for m in MODES:
            if m == 'RET_CODES':
                continue
            R.obl += 1
            if tk[(f, m)] == base or base is None or tk[(f, m)] is None:
                continue
            R.count('sources whose text depends on the mode')
            fx = {}
            for mm in ('RET_CODES', m):
                b = [x for x in marked([f], mm, None) if not isinstance(x, tuple)]
                if not b:
                    fx = None
                    break
                d = front.dump(b, ['--roots=.', '--passes=always-inline,function(sroa,mem2reg,adce,simplifycfg,loop-simplify,loop(loop-deletion),dse,adce,simplifycfg)'], 'p10_u')
                fx[mm] = {x['name']: (x, effects(x)) for x in d['functions'] if x['blocks'] and x['name'] not in ('mli_check', 'mli_check_status')}
            if fx is None:
                continue
            for n in sorted(set(fx['RET_CODES']) & set(fx[m])):
                (fa, a), (fb, b) = fx['RET_CODES'][n], fx[m][n]
                for x, y, mx, my in ((a, b, 'RET_CODES', m), (b, a, m, 'RET_CODES')):
                    for k in x:
                        if len(x[k]) > len(y.get(k, [])):
                            i = x[k][0]
                            loc = next((l for l in i.get('loc') or () if l[1]), None)
                            w = '%s:%s' % (front.rel(loc[0]), loc[1]) if loc else front.rel('%s:%s' % (fa['file'], fa['line']))
                            R.violation(re.sub(r'\(.*', '', fa['dem']), w, 'this %s is only in the program of DBG_MODE_%s, not in that of DBG_MODE_%s' % ({'br': 'branch', 'ret': 'returned value'}.get(k[0], k[0]), mx, my))
                            break
                    else:
                        continue
                    break


# ------------------------------------------------------------------------------------------------ macros
def macros(R):
    p = front.VERIF + '/sa/probes/p10.cc'
    for m in MODES:
        for nd in ([], ['-DNDEBUG']):
            o = front.tmp() + '/p10m.bc'
            r = subprocess.run([front.CXX, '-std=gnu++17', '-U__clang__', '-w'] + flags(m) + nd + front.INC + ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c', p, '-o', o], capture_output=True, text=True)
            if r.returncode:
                R.count('macro probes that do not compile (not decided)')
                R.units.append('macros in %s: %s' % (m, r.stderr[:200]))
                continue
            d = front.dump([o], ['--roots=^m_', '--inline=^mli_'] + front.NORMAL, 'p10m')
            for f in d['functions']:
                if not f['name'].startswith('m_'):
                    continue
                n = len(f['args'])
                orc = Oct(('c', 'v')[:n])
                for v in orc.vs:
                    orc.le([(v, 1)], 100)
                    orc.le([(v, -1)], 100)
                try:
                    I = MacroInterp(f)
                    I.run({k: var(v) for k, v in enumerate(orc.vs)}, Reg(orc))
                except Giveup as e:
                    R.count('macro cases not decided')
                    continue
                R.count('macro cases')
                rel = m == 'RELEASE'
                asserts = m in ('ASSERT', 'DEBUG', 'FULL') and not nd
                extra = m == 'FULL' and not nd
                what = {'m_check': 'MLI_CHECK', 'm_check2': 'MLI_CHECK2', 'm_status': 'MLI_CHECK_STATUS', 'm_assert': 'MLI_ASSERT', 'm_extra': 'MLI_EXTRA_ASSERT', 'm_fix': 'MLI_CHECK_AND_FIX', 'm_fixr': 'MLI_CHECK_AND_FIX'}[f['name']]
                for reg, t, ins in I.paths:
                    R.obl += 1
                    for pt in reg.points((t,)):
                        c, v, got = pt.get('c'), pt.get('v'), ev(t, pt)
                        want = {'m_check': 0 if rel else int(c == 0), 'm_check2': 0 if rel else int(c == 0), 'm_status': 0 if rel else c, 'm_assert': v, 'm_extra': v, 'm_fix': v, 'm_fixr': 0}[f['name']]
                        if got != want:
                            R.violation(what, 'lib/src/private/mli_debug.h', 'in DBG_MODE_%s%s it yields %s where %s; required %d (argument %d)' % (m, ' with NDEBUG' if nd else '', text(t), show(reg), want, c))
                            break
                stop = {'m_assert': asserts, 'm_extra': extra}.get(f['name'], asserts and f['name'] != 'm_fix' and f['name'] != 'm_fixr')
                for reg in I.stops:
                    for pt in reg.points():
                        if not stop or f['name'] != 'm_status' and pt['c'] != 0 or f['name'] == 'm_status' and pt['c'] == 0:
                            R.violation(what, 'lib/src/private/mli_debug.h', 'in DBG_MODE_%s%s it stops the program where %s' % (m, ' with NDEBUG' if nd else '', show(reg)))
                            break


class MacroInterp(Interp):
    def __init__(self, fn):
        Interp.__init__(self, fn)
        self.stops = []

    def call(self, reg, e, ins):
        n = ins.get('callee') or ''
        if n in ('__assert_fail', 'abort'):
            self.stops.append(reg)
            return []
        if n in ('printf', 'puts', 'putchar'):
            return [(reg, const(0))]
        return Interp.call(self, reg, e, ins)

    def val(self, e, v, ty):
        if v[0] in ('g', 'n', 'xgep'):
            return const(0)
        return Interp.val(self, e, v, ty)


# ------------------------------------------------------------------------------------------------ release
def release(R):
    files = front.lib_sources()
    bc = front.compile_bc(files, 'release')
    d = front.dump(bc, ['--roots=^mli_krn_[a-z0-9_]*$', '--reach', '--inline=^mli_check', '--passes=always-inline,function(sroa,mem2reg,sccp,simplifycfg)', '--alltypes'], 'p10_rel')
    fns = {f['name']: f for f in d['functions']}
    memo = {}

    def rets(name, depth=0):
        """constants a function may return; None stands for something else"""
        if name in memo:
            return memo[name]
        memo[name] = set()
        f = fns.get(name)
        if f is None or not f['blocks'] or depth > 12:
            memo[name] = {None}
            return memo[name]
        by = {i['id']: i for b in f['blocks'] for i in b}
        out = set()
        for b in f['blocks']:
            if b[-1]['op'] == 'ret' and b[-1]['ops']:
                todo, seen = [b[-1]['ops'][0]], set()
                while todo:
                    v = todo.pop()
                    if v[0] == 'c':
                        out.add((v[1], at(b[-1], f)))
                    elif v[0] in ('v', 'i') and v[1] not in seen:
                        seen.add(v[1])
                        i = by[v[1]]
                        if i['op'] == 'phi':
                            todo += [x[1] for x in i['in']]
                        elif i['op'] == 'select':
                            todo += i['ops'][1:]
                        elif i['op'] == 'call' and i.get('callee') in fns:
                            out |= rets(i['callee'], depth + 1)
                        elif i['op'] in ('freeze', 'trunc', 'zext', 'sext'):
                            todo += i['ops']
                        else:
                            out.add(None)
                    elif v[0] not in ('v', 'i', 'u'):
                        out.add(None)
        memo[name] = out
        return out

    def at(ins, f):
        l = next((x for x in ins.get('loc') or () if x[1]), None)
        return '%s:%s' % (front.rel(l[0]), l[1]) if l else front.rel('%s:%s' % (f['file'], f['line']))
    for n, f in sorted(fns.items()):
        if not re.match(r'mli_krn_[a-z0-9_]*$', n) or f['linkage'] == 'internal' or not f['blocks'] or not is_status(d, f):
            continue
        R.count('release mode entries')
        R.obl += 1
        rs = rets(n)
        if None in rs:
            R.count('release mode entries not decided')
        for v, w in sorted(x for x in rs if x is not None and x[0] != 0):
            R.violation(n + ' release', w, 'in release mode the entry can return status %d' % v)


def is_status(d, f):
    t = (f.get('sig') or [-1])[0]
    return t is not None and t >= 0 and 'mli_status' in str(d['types'][t].get('name', ''))


def run(R):
    arguments(R)
    units(R)
    macros(R)
    try:
        release(R)
    except Broken as e:
        R.count('release mode builds that do not compile (not decided)')
        R.units.append(str(e)[:300])
