"""Contracts of external functions (trusted)."""
from . import term as tm
from .term import const, fresh, isc, eq, ite, bor, band, slt, sle, add
from .sym import Vec, Unsupported, Region
from . import intrin

MATH1 = {'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh',
         'tanh', 'asinh', 'acosh', 'atanh', 'cbrt', 'tgamma', 'lgamma', 'erf', 'erfc'}
MATH2 = {'pow', 'atan2', 'hypot', 'fmod', 'remainder', 'copysign', 'ldexp', 'nextafter'}
RND = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'away', 'rint': 'even', 'nearbyint': 'even', 'roundeven': 'even'}


def m1(nm):
    def h(ex, I, a, st):
        if nm == 'sqrt':
            return tm.fop('fsqrt', (a[0],), a[0].w)
        if nm == 'fabs':
            return tm.f_abs(a[0])
        if nm in RND:
            return tm.fop('fround', (a[0],), a[0].w, RND[nm])
        ex.used_assumptions.add('libm %s is a pure function of its argument' % nm)
        return tm.uf('libm_' + nm, (a[0],), a[0].w)
    return h


def m2(nm):
    def h(ex, I, a, st):
        if nm == 'fmod':
            return tm.fop('frem', (a[0], a[1]), a[0].w)
        ex.used_assumptions.add('libm %s is a pure function of its arguments' % nm)
        return tm.uf('libm_' + nm, (a[0], a[1]), a[0].w)
    return h


def nop(ex, I, a, st):
    t = I.ty
    if t is None or t.k == 'void':
        return None
    if t.k == 'i':
        return fresh('ext', t.n) if t.n != 1 else fresh('ext', 0)
    if t.k == 'p':
        return const(0, 64)
    raise Unsupported('external returning %r' % t)


def noreturn(ex, I, a, st):
    s = st.copy()
    s.gh['dead'] = True
    return [(None, s)]


def alloc(ex, I, a, st):
    fresh('heap', 64)
    if ex.on_alloc is not None:
        r = ex.on_alloc(ex, st, a[0])
        if r is not None:
            return r.base
    r = Region('alloca!%d' % tm._fresh[0], 1, a[0], kind='obj')
    ex.regions[r.base.id] = r
    return r.base


def memcmp(ex, I, a, st):
    n = a[2]
    if not isc(n) or n.x > 64:
        raise Unsupported('memcmp length')
    x = ex.load_bytes(st, a[0], n.x)
    y = ex.load_bytes(st, a[1], n.x)
    return ite(eq(x, y), const(0, 32), ite(tm.ult(intrin.bswap(x), intrin.bswap(y)), const(-1, 32), const(1, 32)))


NPT = {'b': 0, 'a': 1, 'h': 2, 's': 3, 't': 4, 'i': 5, 'j': 6, 'l': 7, 'm': 8, 'f': 11, 'd': 12, 'e': 13}


def sentinel_bytes(d):
    '''riptable invalid value of a dtype (contract of GetDefaultForType; checked against RipTide.cpp by its own case)'''
    import struct
    if d == 0:
        return b'\0'
    if d in (1, 3, 5, 7, 9):
        n = {1: 1, 3: 2, 5: 4, 7: 8, 9: 8}[d]
        return (1 << (8 * n - 1)).to_bytes(n, 'little')
    if d in (2, 4, 6, 8, 10):
        n = {2: 1, 4: 2, 6: 4, 8: 8, 10: 8}[d]
        return b'\xff' * n
    if d == 11:
        return (0x7fc00000).to_bytes(4, 'little')
    if d == 12:
        return (0x7ff8 << 48).to_bytes(8, 'little')
    if d == 13:
        return ((0x7fff << 64) | (3 << 62)).to_bytes(16, 'little')
    return None


def get_default(ex, I, a, st):
    d = a[0]
    if not isc(d):
        raise Unsupported('GetDefaultForType of an unknown type')
    data = sentinel_bytes(d.x)
    if data is None:
        raise Unsupported('GetDefaultForType(%d)' % d.x)
    nm = '@default_%d' % d.x
    r = ex.byname.get(nm)
    if r is None:
        r = Region(nm, len(data), const(1, 64), writable=False, kind='const', data=data)
        ex.regions[r.base.id] = r
        ex.byname[nm] = r
    return r.base


def log(ex, I, a, st):
    ex.used_assumptions.add('calls of the logging library have no effect on data')
    return nop(ex, I, a, st)


def strlen(ex, I, a, st):
    for c, r, off in ex.lookup(a[0]):
        if c is tm.TRUE and r.data is not None and tm.isc(off) and r.gran == 1:
            j = bytes(r.data).find(b'\0', off.x)
            if j >= 0:
                return const(j - off.x, 64)
    raise Unsupported('strlen of a variable string')


def get_numpy_type(c):
    return lambda ex, I, a, st: const(NPT[c], 32)


TAB = {
    '_Z17GetDefaultForTypei': get_default,
    'puts': nop, 'perror': nop, 'printf': nop, 'putchar': nop, 'fflush': nop, 'fprintf': nop, 'fputs': nop, 'fwrite': nop,
    '_Z7FmAllocm': alloc, '_Z6FmFreePv': nop, '_Znwm': alloc, '_Znam': alloc, 'malloc': alloc, 'free': nop, '_ZdlPv': nop, '_ZdlPvm': nop, '_ZdaPv': nop,
    'strlen': strlen, 'memcmp': memcmp, 'bcmp': memcmp,
    'memcpy': lambda ex, I, a, st: (intrin.memcpy(ex, a[0], a[1], a[2], st), a[0])[1],
    'memmove': lambda ex, I, a, st: (intrin.memcpy(ex, a[0], a[1], a[2], st), a[0])[1],
    'memset': lambda ex, I, a, st: (intrin.memset(ex, a[0], tm.extract(a[1], 7, 0), a[2], st), a[0])[1],
    'abort': noreturn, '_ZSt9terminatev': noreturn, '__cxa_throw': noreturn, '_ZSt20__throw_length_errorPKc': noreturn,
    'PyErr_Format': nop, 'PyErr_SetString': nop,
}


for _c in NPT:
    TAB['_Z12GetNumpyType' + _c] = get_numpy_type(_c)


def find(name):
    h = TAB.get(name)
    if h:
        return h
    if name.startswith('_ZN7riptide7logging6logger'):
        return log
    b = name
    if b.endswith('f') and (b[:-1] in MATH1 or b[:-1] in RND or b[:-1] in MATH2 or b[:-1] in ('sqrt', 'fabs')):
        b = b[:-1]
    elif b.endswith('l') and (b[:-1] in MATH1 or b[:-1] in RND or b[:-1] in MATH2 or b[:-1] in ('sqrt', 'fabs')) and b not in MATH1:
        b = b[:-1]
    if b in MATH1 or b in RND or b in ('sqrt', 'fabs'):
        return m1(b)
    if b in MATH2:
        return m2(b)
    return None
