"""P13: every builder of mli_mov_cfg_t defines every field.  P14: the handle protocol."""
import re
import front, facts
from front import Broken
from cond import Mod
from mem import MCond

SRC = front.LIB + '/move/mli_mov_api.cc'
BUILD = ['copy', 'slice', 'concat', 'subsample', 'permute', 'padding2d_chw', 'padding2d_hwc']
BUILDERS = ['mli_mov_cfg_for_' + x for x in BUILD] + ['mli_mov_cfg_all']
CFG = {'quick': ['up'], 'thorough': ['up', 'fullacc', 'release', 'convergent']}


def subj13(cfg):
    bc = front.compile_bc([SRC], cfg)
    d = front.dump(bc, ['--roots=^mli_mov_cfg_(for_[a-z0-9_]+|all)$', '--inline-main', '--inline=^mli_mov_cfg_', '--globals'] + front.NORMAL, 'mov_' + cfg)
    m = Mod(d)
    for n in BUILDERS:
        f = m.fns.get(n)
        if f is None or not f['blocks']:
            raise Broken('builder %s not found' % n)
        c = MCond(m, f)
        a = c.args[0]
        fs = facts.state(c, a, a.bt, 'cfg')
        fs.update(facts.retfact(c))
        yield n, c, fs, '%s:%s' % (front.rel(f['file']), f['line'])


HANDLE = ['mli_mov_tensor_sync', 'mli_mov_prepare', 'mli_mov_registercallback', 'mli_mov_start', 'mli_mov_isdone', 'mli_mov_wait',
          'mli_mov_set_num_dma_ch', 'mli_mov_acquire_handle', 'mli_mov_release_handle']


def moved(name, i, d):
    """the copying bricks write tensor memory and, at most, the transfer part of the handle, never its state"""
    if re.search(r'mov_inner_loop|mli_mov_prepare_run|mli_mov_memcpy', name or ''):
        return {k: s for k, s in d.items() if k == 3}
    if name == 'mli_mov_isdone':        # stores nothing through the handle: confirmed by its own subject below
        return {k: s for k, s in d.items() if k != 0}
    return None


def subj14(cfg):
    bc = front.compile_bc([SRC], cfg)
    names = '|'.join(HANDLE)
    d = front.dump(bc, ['--roots=^(%s)$' % names, '--inline-main', '--noinline=^(%s)$|mli_chk_|mov_inner_loop|mli_mov_prepare_run|mli_mov_memcpy' % names, '--globals'] + front.NORMAL, 'movh_' + cfg)
    m = Mod(d)
    for n in HANDLE:
        f = m.fns.get(n)
        if f is None or not f['blocks']:
            raise Broken('%s not found' % n)
        c = MCond(m, f, havoc=moved)
        hs = [a for a in c.args if m.tname(a.bt) in ('_mli_mov_handle_t', 'mli_mov_handle_t')]
        fs = {}
        if n != 'mli_mov_prepare':
            fs.update(facts.retfact(c))
            for a in hs:
                fs.update(facts.state(c, a, a.bt, 'h'))
        else:
            fs.update({k: v for k, v in facts.state(c, hs[0], hs[0].bt, 'h').items()})
        fs.update(facts.stores(c, lambda t: re.match(r'&?(dma_pool|callbacktable)', t)))
        if n in ('mli_mov_tensor_sync', 'mli_mov_wait', 'mli_mov_start'):
            def at(c, ins, name, args):
                ts = [c.text(a, c.events[ins['id']][1]) for a in args]
                if name.startswith('*') and hs:
                    o = [x for x in c.leaves(hs[0].bt) if x[3] == '.state'][0]
                    ts.append('with h.state = ' + c.text(c.read(hs[0], o[0], o[1], o[2], c.etime[ins['id']])))
                return ts
            fs.update(facts.calls(c, argtext=at))
        yield n, c, fs, '%s:%s' % (front.rel(f['file']), f['line'])


def returns_undone(f, callee):
    """can f return along a path on which the last result of callee was not true?  Boolean path analysis over the flow graph."""
    N = {'D': '!D', '!D': 'D', 0: 1, 1: 0, 'T': 'T'}
    stack, seen = [(0, None, ())], set()
    while stack:
        st = stack.pop()
        if st in seen:
            continue
        seen.add(st)
        bb, pred, env = st
        env = dict(env)

        def val(o):
            if o[0] == 'c':
                return 1 if o[1] else 0
            return env.get(o[1], 'T') if o[0] == 'i' else 'T'
        phis = {}
        for i in f['blocks'][bb]:
            op = i['op']
            if op == 'phi':
                phis[i['id']] = next((val(o) for p, o in i['in'] if p == pred), 'T')
                continue
            env.update(phis)
            phis = {}
            if op == 'call' and (i.get('callee') == callee):
                env = {k: v for k, v in env.items() if v not in ('D', '!D')}
                env[i['id']] = 'D'
            elif op == 'xor' and i['ops'][1][0] == 'c' and i['ops'][1][1] in (1, -1):
                env[i['id']] = N[val(i['ops'][0])]
            elif op == 'icmp' and i['pred'] in ('eq', 'ne') and i['ops'][1][0] == 'c' and i['ops'][1][1] == 0:
                env[i['id']] = val(i['ops'][0]) if i['pred'] == 'ne' else N[val(i['ops'][0])]
            elif op in ('zext', 'sext', 'trunc', 'freeze'):
                env[i['id']] = val(i['ops'][0])
            elif op == 'ret':
                return True
            elif op in ('br', 'switch'):
                succ = i['succ']
                if op == 'switch' or not i['ops']:
                    nx = [(s, env) for s in succ]
                else:
                    v = val(i['ops'][0])
                    nx = []
                    if v in (1, 'T'):
                        nx.append((succ[0], env))
                    if v in (0, 'T'):
                        nx.append((succ[1], env))
                    if v in ('D', '!D'):        # the edge on which the callee reported false
                        e2 = {k: (0 if x == 'D' else 1 if x == '!D' else x) for k, x in env.items()}
                        nx.append((succ[1 if v == 'D' else 0], e2))
                for s, e in nx:
                    stack.append((s, bb, tuple(sorted(e.items(), key=str))))
    return False


def run(R):
    if R.prop == 'P14':
        for cfg in CFG[R.tier][:1]:
            bc = front.compile_bc([SRC], cfg)
            m = Mod(front.dump(bc, ['--roots=^mli_mov_wait$', '--inline-main', '--noinline=^mli_mov_isdone$'] + front.NORMAL, 'movw_' + cfg))
            f = m.fns.get('mli_mov_wait')
            R.obligation(not returns_undone(f, 'mli_mov_isdone'), 'mli_mov_wait', '%s:%s' % (front.rel(f['file']), f['line']),
                         'can return although mli_mov_isdone reported false')
    facts.run(R, {'P13': subj13, 'P14': subj14}[R.prop], [x for x in CFG[R.tier] if x != 'release' or R.prop == 'P13'], extra_ok=lambda n: False)
