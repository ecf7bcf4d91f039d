"""Compiles translation units of /repo's current working tree to LLVM IR (for the
verifier) and, on demand, the whole library to native code (for replays)."""
import os, subprocess, hashlib, re, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
import llparse

REPO = os.environ.get('ADOLC_REPO', '/repo')
SRC = os.path.join(REPO, 'ADOL-C', 'src')
INC = os.path.join(REPO, 'ADOL-C', 'include')

_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='irdv.', dir='/tmp')
        atexit.register(shutil.rmtree, _work, True)
    return _work


def settings_dir():
    """adolc_settings.h generated from the repository's template, with the
    configuration of the reference build (sparse, boost pool)"""
    d = os.path.join(workdir(), 'gen')
    f = os.path.join(d, 'adolc', 'internal', 'adolc_settings.h')
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        t = open(os.path.join(INC, 'adolc/internal/adolc_settings.h.in')).read()
        t = t.replace('@ADVBRANCH@', '').replace('@ADTL_REFCNT@', '')
        t = t.replace('@ADOLC_SPARSE@', '#define ADOLC_SPARSE 1').replace('@USE_BOOST_POOL@', '#define USE_BOOST_POOL 1')
        open(f, 'w').write(t)
    return d


def defs():
    return ['-DADOLC_ADOUBLE_STDCZERO=1', '-DADOLC_BITWORD_BITS=32', '-DADOLC_PATCHLEVEL=3', '-DADOLC_SHARED',
            '-DADOLC_SPARSE=1', '-DADOLC_SUBVERSION=7', '-DADOLC_VERSION=2', '-Dadolc_EXPORTS']


def colpack_inc():
    r = []
    for base in ('/opt/vp/colpack-cmake',):
        if os.path.isdir(base):
            for root, dirs, files in os.walk(base):
                for f in files:
                    if f.endswith('.cmake'):
                        t = open(os.path.join(root, f)).read()
                        for m in re.findall(r'INTERFACE_INCLUDE_DIRECTORIES\s+"?([^\s")]+)', t):
                            r.append(m)
    return r


_colpack = None


def incs():
    global _colpack
    if _colpack is None:
        _colpack = []
        for d in colpack_inc() + ['/usr/include/ColPack', '/opt/vp/colpack/include', '/opt/vp/colpack/include/ColPack']:
            if os.path.isdir(d) and d not in _colpack:
                _colpack.append(d)
    return ['-I' + INC, '-I' + settings_dir(), '-I' + SRC] + ['-I' + d for d in _colpack]


class BuildError(Exception):
    pass


def compile_ll(src, extra=(), name=None, timeout=300):
    """src: path relative to ADOL-C/src, or absolute"""
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    nm = (name or os.path.basename(path).rsplit('.', 1)[0])
    out = os.path.join(workdir(), nm + '.ll')
    cmd = ['clang++', '-std=c++20', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang',
           '-disable-lifetime-markers', '-fno-discard-value-names', '-ffp-contract=off', '-fno-strict-aliasing', '-w',
           '-fmath-errno', *defs(), *incs(), *extra, path, '-o', out + '.0']
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError(f'{src}: ' + r.stderr[-2000:])
    r = subprocess.run(['opt', '-S', '-passes=function(sroa,early-cse,simplifycfg),globaldce', out + '.0', '-o', out],
                       capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError(f'{src}: opt: ' + r.stderr[-2000:])
    os.unlink(out + '.0')
    return llparse.Module(open(out).read(), nm)


def compile_many(srcs, extra=(), jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        futs = {s: ex.submit(compile_ll, s, extra, s.replace('/', '_').rsplit('.', 1)[0]) for s in srcs}
        return {s: f.result() for s, f in futs.items()}
