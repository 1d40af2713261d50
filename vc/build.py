"""Mechanical extraction: /repo/src/X.cpp --clang--> LLVM IR --opt--> normalised IR text, redone on every run."""
import hashlib
import os
import subprocess
import time
from . import ir

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VC_CACHE', os.path.join(HERE, '.cache'))

FLAGS = ['-isystem', '/opt/vp/compat', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-D__GCC_DESTRUCTIVE_SIZE=64',
         '-D__GCC_CONSTRUCTIVE_SIZE=64', '-DBUILDING_RIPTIDE_CPP', '-std=c++20', '-fPIC', '-x', 'c++', '-mavx2', '-mbmi2', '-fpermissive',
         '-pthread', '-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off', '-w', '-fno-delete-null-pointer-checks', '-include', os.path.join(HERE, 'vc/inc/prelude.h'),
         '-I/opt/vp/venv/lib/python3.12/site-packages/numpy/core/include', '-isystem', '/usr/include/python3.12']
OPT = ('function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,'
       'simplifycfg,loop-simplify)')

NOINLINE = ('_ZN7riptide7logging6logger',)     # calls kept as calls: logging has no effect on results
TIMES = {}


class ExtractionError(Exception):
    pass


def _key(tu, src, extra):
    h = hashlib.sha256()
    d = os.path.join(REPO, 'src')
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f)
            if f.endswith(('.h', '.hpp', '.inc')) or p == src:
                h.update(f.encode())
                h.update(open(p, 'rb').read())
    e = entry(tu)
    if e:
        h.update(open(e, 'rb').read())
    for f in ('prelude.h', 'mt.h'):
        h.update(open(os.path.join(HERE, 'vc', 'inc', f), 'rb').read())
    h.update(repr((FLAGS, OPT, NOINLINE, extra, 'nolibcalls', tu.endswith('.mt') and 'dce2')).encode())
    return h.hexdigest()[:24]


def entry(tu):
    """a file that includes the source file and re-exports some of its static functions, so that extraction keeps them (X.mt: source file X)"""
    e = os.path.join(HERE, 'vc', 'entries', tu + '.entry.cpp')
    return e if os.path.exists(e) else None


def extract(tu, thresh=2000, src=None, extra=()):
    """-> path of normalised .ll"""
    src = src or os.path.join(REPO, 'src', tu.split('.')[0] + '.cpp')
    os.makedirs(CACHE, exist_ok=True)
    k = _key(tu, src, (thresh, tuple(extra)))
    ll = os.path.join(CACHE, '%s-%s.ll' % (tu, k))
    if os.path.exists(ll):
        return ll
    t0 = time.time()
    base = ll[:-3] + '.%d' % os.getpid()
    bc, ob = base + '.bc', base + '.opt.bc'
    try:
        r = subprocess.run(['clang-18'] + FLAGS + list(extra) + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'vc', 'inc'), '-emit-llvm', '-c', entry(tu) or src, '-o', bc],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            raise ExtractionError('clang failed on %s:\n%s' % (src, r.stdout.decode()[-2000:]))
        nm = subprocess.run(['llvm-nm-18', bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split()
        keep = ['--force-attribute=%s:noinline' % f for f in sorted({f for f in nm if f.startswith(NOINLINE)})]
        pre = ''
        if tu.endswith('.mt'):
            # only the re-exported functions and what they reach
            pre = 'internalize,globaldce,'
            keep.append('--internalize-public-api-list=' + ','.join(sorted({f for f in nm if f.startswith('vc_')} | {'g_cMathWorker', 'stMBGCallback', 'stRICallback'})))
        r = subprocess.run(['opt-18', '-passes=' + ('forceattrs,' if len(keep) > bool(pre) else '') + pre + OPT] + keep + ['--inline-threshold=%d' % thresh, '--disable-simplify-libcalls', bc, '-o', ob],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise ExtractionError('opt failed on %s:\n%s' % (tu, r.stdout.decode()[-2000:]))
        r = subprocess.run(['llvm-dis-18', ob, '-o', base + '.ll'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ExtractionError('llvm-dis failed on %s' % tu)
        os.rename(bc, ll[:-3] + '.bc')
        os.rename(ob, ll[:-3] + '.opt.bc')
        os.rename(base + '.ll', ll)
    finally:
        for f in (bc, ob, base + '.ll'):
            if os.path.exists(f):
                os.unlink(f)
    TIMES[tu] = time.time() - t0
    return ll


def prune_cache(limit=40):
    fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
    for f in fs[:-3 * limit]:
        os.unlink(f)


_mods = {}


def module(tu, **kw):
    k = (tu, repr(kw))
    if k not in _mods:
        M = ir.Module(open(extract(tu, **kw)).read())
        M.tu = tu
        M.path = extract(tu, **kw)
        _mods[k] = M
    return _mods[k]
