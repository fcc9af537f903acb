"""Compile driver translation units against /repo's current sources and export
normalised IR."""
import hashlib
import os
import subprocess
import sys
import tempfile
import atexit
import shutil
from .vf import Module, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
_S = ('sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,sroa<modify-cfg>,instsimplify,gvn<no-pre;no-load-pre;no-split-backedge-load-pre;memdep>,'
      'instsimplify,simplifycfg,adce,')
# loops with a small constant trip count (fixed-size vectors, initialiser lists) are unrolled so that local aggregates become scalars
PIPE = 'always-inline,globaldce,function(' + 2 * (_S + 'loop-simplify,lcssa,loop(loop-unroll-full),') + _S + 'loop-simplify,lcssa)'
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        os.makedirs(BUILD, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix='run', dir=BUILD)
        atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp


def irx():
    exe = os.path.join(BUILD, 'irx')
    src = os.path.join(VERIF, 'tools', 'irx.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = '/usr/lib/llvm-18/bin/llvm-config'
    fl = subprocess.check_output([cfg, '--cxxflags', '--ldflags'], text=True).split()
    out = exe + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O1', '-std=c++17', src, '-o', out] + fl + ['-lLLVM-18'], check=True)
    os.replace(out, exe)
    return exe


FLAGS = ['-std=c++17', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-math-errno', '-w',
         '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-return', '-fno-discard-value-names']


def compile_bc(src, flags=(), debug=False, opt=None):
    d = tmpdir()
    h = hashlib.sha1(('%s|%s|%s' % (src, flags, debug)).encode()).hexdigest()[:12]
    bc = os.path.join(d, '%s-%d.bc' % (h, os.getpid()))
    fl = list(FLAGS)
    fl += ['-DDEBUG'] if debug else ['-DNDEBUG']
    cmd = ['clang++'] + fl + ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/drivers'] + list(flags) + ['-c', '-emit-llvm', src, '-o', bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('driver %s does not compile against the current tree:\n%s' % (src, r.stdout[-3000:]))
    return bc


def export(bc, roots='^drv_', keep='', pipe=PIPE):
    js = bc[:-3] + hashlib.sha1((roots + keep + pipe).encode()).hexdigest()[:6] + '.json'
    r = subprocess.run([irx(), bc, js, roots, keep, pipe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('irx failed: ' + r.stdout[-2000:])
    return Module(js)


def driver(name, flags=(), debug=False, roots='^drv_', keep='', pipe=PIPE):
    src = os.path.join(VERIF, 'drivers', name)
    return export(compile_bc(src, flags, debug), roots, keep, pipe)


def sources(*globs):
    """library sources of the current tree (all files a directory holds, so that
    code may move between them)"""
    import glob
    out = []
    for g in globs:
        fs = sorted(glob.glob(os.path.join(REPO, 'src', 'lib', g)))
        if not fs:
            raise AnalysisError('no source matches src/lib/%s' % g)
        out += fs
    return out


def linked(name, srcs, flags=(), debug=False, roots='^drv_', keep='', pipe=PIPE):
    """driver linked with library sources into one module"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda f: compile_bc(f, flags, debug), [os.path.join(VERIF, 'drivers', name)] + list(srcs)))
    out = bcs[0][:-3] + hashlib.sha1(repr(srcs).encode()).hexdigest()[:6] + '.l.bc'
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-link', '-o', out] + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('llvm-link failed: ' + r.stdout[-2000:])
    return export(out, roots, keep, pipe)
