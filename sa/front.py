"""Front end shared by all checks: compile the current /repo sources to LLVM IR and dump the resolved program."""
import os, subprocess, sys, tempfile, atexit, shutil, json, time, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MLI_REPO', '/repo')
LIB = REPO + '/lib/src'
INC = ['-I' + REPO + '/' + p for p in ('include', 'include/internal', 'include/api')] + \
      ['-I' + LIB + '/' + p for p in ('private', 'bricks', 'helpers', 'kernels', 'kernels/convolution', 'kernels/eltwise',
                                     'kernels/pooling', 'kernels/conversion', 'kernels/diverse', 'kernels/transform', 'move', 'pal')]
CONFIGS = {
    'up': ['-DROUND_MODE_UP', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
    'convergent': ['-DROUND_MODE_CONVERGENT', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
    'full': ['-DROUND_MODE_UP', '-DFULL_ACCU', '-DAVEPOOL_16BIT_MUL', '-DMLI_DEBUG_MODE=DBG_MODE_FULL'],
    'fullacc': ['-DROUND_MODE_UP', '-DFULL_ACCU', '-DAVEPOOL_16BIT_MUL', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
    'release': ['-DROUND_MODE_UP', '-DMLI_DEBUG_MODE=DBG_MODE_RELEASE'],
    'assert': ['-DROUND_MODE_UP', '-DMLI_DEBUG_MODE=DBG_MODE_ASSERT'],
}
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class Broken(Exception):
    """the analysis lost its footing (build failure, vanished instances): neither pass nor violation"""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='mlisa')
        if not os.environ.get('MLISA_KEEP'):
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def irtool():
    p = VERIF + '/build/irtool'
    src = VERIF + '/tools/irtool.cc'
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src):
        return p
    p = tmp() + '/irtool'
    if not os.path.exists(p):
        r = subprocess.run(['bash', VERIF + '/tools/build_irtool.sh', p], capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build irtool: ' + r.stderr[-2000:])
    return p


def lib_sources():
    """sources of the library target, from the build description"""
    import glob
    out = set()
    for ln in open(REPO + '/lib/mli_lib.cmake'):
        m = re.match(r'\s*\$\{MLI_LIB_CMAKE_DIR\}/(\S+\.cc)\s*$', ln)
        if m:
            out |= set(glob.glob(REPO + '/lib/' + m.group(1)))
    if len(out) < 60:
        raise Broken('only %d library sources found from lib/mli_lib.cmake' % len(out))
    return sorted(out)


def compile_bc(files, cfg='up', extra=()):
    os.makedirs(tmp() + '/bc', exist_ok=True)

    def one(f):
        o = tmp() + '/bc/%s.%s.%x.bc' % (os.path.basename(f), cfg, hash((f, tuple(extra))) & 0xffffffff)
        if os.path.exists(o):
            return o
        cmd = [CXX, '-std=gnu++17', '-U__clang__', '-w'] + CONFIGS[cfg] + list(extra) + INC + \
              ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-emit-llvm', '-c', f, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot compile %s (%s): %s' % (f, cfg, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def try_compile(f, cfg, extra=('-fno-access-control',)):
    """the compiler's complaints about f ('' when it compiles)"""
    r = subprocess.run([CXX, '-std=gnu++17', '-U__clang__', '-w', '-ferror-limit=0', '-fsyntax-only'] + CONFIGS[cfg] + list(extra) + INC + [f], capture_output=True, text=True)
    return r.stderr if r.returncode else ''


def dump(bcs, args, name='x'):
    o = tmp() + '/%s.json' % name
    r = subprocess.run([irtool()] + bcs + list(args) + ['-o', o], capture_output=True, text=True)
    if r.returncode:
        raise Broken('irtool failed: ' + r.stderr[-2000:])
    return json.load(open(o))


def rel(p):
    p = os.path.normpath(p)
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p


# constant-trip loops are unrolled, so that a loop over a fixed list and the written-out list are the same program
NORMAL = ['--passes=always-inline,function(sroa,mem2reg,loop-unroll<O3;full-unroll-max=16;no-partial;no-runtime;no-upperbound;no-peeling;no-profile-peeling>,sroa,mem2reg)',
          '-unroll-threshold=1000000', '-unroll-max-iteration-count-to-analyze=16']
