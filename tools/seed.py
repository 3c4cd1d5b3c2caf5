"""Development aid: seed(id, prop, edits, demo_cc, needs, breaks) plants one change in /repo, confirms it builds, passes the
stable tests and that the demonstration tells the trees apart, stores it under seeded/<id>/ and restores /repo."""
import subprocess, os, json, sys
V = '/verif/seeded/'
SH = '''#!/bin/bash
# exit 0: behaviour as required; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
I="-Iinclude -Iinclude/internal -Iinclude/api -Ilib/src/private -Ilib/src/bricks -Ilib/src/helpers -Ilib/src/kernels -Ilib/src/kernels/convolution -Ilib/src/kernels/eltwise -Ilib/src/kernels/pooling -Ilib/src/kernels/conversion -Ilib/src/kernels/diverse -Ilib/src/kernels/transform -Ilib/src/move -Ilib/src/pal"
g++ -std=gnu++17 -w -g -O0 %s $I "$d/demo.cc" %s -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''


def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    b = run('bash /opt/vp/build.sh')
    if b.returncode:
        return 'build: ' + b.stdout[-300:] + b.stderr[-800:]
    run('bash /opt/vp/test.sh /tmp/seedres.json')
    r = json.load(open('/tmp/seedres.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    k = base.get('passed') or base.get('tests') or next(v for v in base.values() if isinstance(v, list))
    miss = set(k) - set(r['passed'])
    return 'tests lost: %d %s' % (len(miss), sorted(miss)[:5]) if miss else ''


def seed(id, prop, edits, demo, needs, breaks, lib='rc', srcs='lib/src/private/src/mli_check.cc'):
    flags = {'rc': '-DROUND_MODE_UP -DMLI_DEBUG_MODE=DBG_MODE_RET_CODES', 'up': '-DROUND_MODE_UP', 'convergent': '-DROUND_MODE_CONVERGENT', 'up_fullaccu_dbg': '-DROUND_MODE_UP -DFULL_ACCU -DAVEPOOL_16BIT_MUL -DMLI_DEBUG_MODE=DBG_MODE_FULL'}[lib]
    if run('git -C /repo status --short').stdout.strip():
        print('repo dirty'); sys.exit(1)
    d = V + id
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(SH % (flags, (srcs + ' ' if lib == 'rc' else '') + '_build/%s/bin/libmli.a' % ('up' if lib == 'rc' else lib)))
    open(d + '/demo.cc', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    run('bash /opt/vp/build.sh')
    c = run('bash %s/demo.sh' % d, cwd='/repo')
    bad = []
    if c.returncode:
        bad.append('demo fails on clean: %d %s' % (c.returncode, (c.stdout + c.stderr)[-300:]))
    try:
        for f, a, b, *n in edits:
            p = '/repo/' + f
            s = open(p).read()
            if (n and s.count(a) < n[0]) or (not n and s.count(a) != 1):
                bad.append('%s: pattern count %d: %s' % (f, s.count(a), a[:80]))
                continue
            if n:
                i = -1
                for _ in range(n[0]):
                    i = s.index(a, i + 1)
                s = s[:i] + b + s[i + len(a):]
            else:
                s = s.replace(a, b)
            open(p, 'w').write(s)
        if not bad:
            open(d + '/patch.diff', 'w').write(run('git -C /repo diff').stdout)
            t = tests()
            if t:
                bad.append(t)
            else:
                c = run('bash %s/demo.sh' % d, cwd='/repo')
                if c.returncode == 0 or c.returncode == 2:
                    bad.append('demo with patch: rc %d %s' % (c.returncode, c.stdout[-200:] + c.stderr[-200:]))
                k = run('python3 /verif/check.py ' + prop, cwd='/verif')
                print(id, prop, 'demo rc', c.returncode, '| check rc', k.returncode, '|', (k.stdout.strip().splitlines() or [''])[0][:260])
    finally:
        run('git -C /repo checkout -- .')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if bad:
        print(id, 'NOT KEPT', bad)
        run('rm -rf /verif/seeded/' + id)
    run('bash /opt/vp/build.sh')
    return not bad
