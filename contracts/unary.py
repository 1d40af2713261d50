"""P01: element-wise unary operations.

For each (operation, element type) the kernel the dispatchers of UnaryOps.cpp select must write, for every length, every stride and every
alignment, out[k] = op(in[k]) for each k and nothing else.
"""
from .common import *


def TUS(prop):
    return ['UnaryOps']


def z0(x):
    return const(0, x.w)


def one(d):
    return {F32: const(0x3f800000, 32), F64: const(0x3ff << 52, 64), F80: const((0x3fff << 64) | (1 << 63), 80)}[d]


def fexp(x):
    """(all exponent bits set, all exponent bits clear) of a float"""
    if x.w == 80:
        e = tm.extract(x, 78, 64)
    elif x.w == 64:
        e = tm.extract(x, 62, 52)
    else:
        e = tm.extract(x, 30, 23)
    return eq(e, const(-1, e.w)), eq(e, const(0, e.w))


def fzero(d):
    return const(0, BITS[d])


def isfin(x):
    return bnot(fexp(x)[0])


def isinf(x):
    return band(fexp(x)[0], bnot(tm.f_isnan(x)))


def isnormal(x):
    a, b = fexp(x)
    return band(bnot(a), bnot(b))


def b8(c):
    return tm.b2bv(c, 8)


FL = (F32, F64, F80)
SGN = (I8, I16, I32, I64, LL)
ALLINT = (I8, U8, I16, U16, I32, U32, I64, U64, LL, ULL)
NUM = ALLINT + FL


def absv(d, x):
    return tm.f_abs(x) if d in FL else ite(slt(x, z0(x)), tm.neg(x), x)


def negv(d, x):
    return tm.f_neg(x) if d in FL else tm.neg(x)


def signv(d, x):
    if d in FL:
        z = fzero(d)
        o = one(d)
        return ite(tm.f_isnan(x), x, ite(tm.f_lt(z, x), o, ite(tm.f_lt(x, z), tm.f_neg(o), z)))
    return ite(slt(z0(x), x), const(1, x.w), ite(slt(x, z0(x)), const(-1, x.w), z0(x)))


def nanv(d, x):
    return b8(is_invalid(d, x))


def infv(d, x):
    return b8(isinf(x) if d in FL else FALSE)


def normv(d, x):
    return b8(isnormal(x) if d in FL else TRUE)


def nanorzero(d, x):
    if d in FL:
        return b8(bor(tm.f_isnan(x), tm.f_eq(x, fzero(d))))
    return b8(bor(is_invalid(d, x), eq(x, z0(x))))


def fin(d, x):
    return b8(isfin(x) if d in FL else bnot(is_invalid(d, x)))


def notb(f):
    return lambda d, x: tm.bvxor(f(d, x), const(1, 8))


def rnd(kind):
    return lambda d, x: tm.fop('fround', (x,), x.w, kind)


def todbl(d, x):
    if d in FL:
        return x
    return tm.fop('sitofp' if d in SIGNED else 'uitofp', (x,), 64)


def libm(nm):
    def f(d, x):
        y = todbl(d, x)
        return tm.fop('fsqrt', (y,), y.w) if nm == 'sqrt' else tm.uf('libm_' + nm, (y,), y.w)
    return f


def same(d):
    return d


def tobool(d):
    return BOOL


def todouble(d):
    return d if d in FL else F64


LIB = (I32, U32, I64, U64, LL, ULL)
# operation: (types served by a kernel, output type, specification)
SPEC = {
    'ABS': (SGN + FL, same, absv),
    'SIGN': (SGN + FL, same, signv),
    'NEG': (SGN + FL, same, negv),
    'NEGATIVE': (SGN + FL, same, negv),
    'LOGICAL_NOT': ((BOOL,) + NUM, tobool, lambda d, x: b8(tm.f_eq(x, fzero(d)) if d in FL else eq(x, z0(x)))),
    'BITWISE_NOT': ((BOOL,) + ALLINT, same, lambda d, x: tm.bvxor(x, const(1, 8)) if d == BOOL else tm.bvnot(x)),
    'INVERT': ((BOOL,) + ALLINT, same, lambda d, x: tm.bvxor(x, const(1, 8)) if d == BOOL else tm.bvnot(x)),
    'ISNAN': ((BOOL,) + NUM, tobool, nanv),
    'ISNOTNAN': ((BOOL,) + NUM, tobool, notb(nanv)),
    'ISFINITE': ((BOOL,) + NUM, tobool, fin),
    'ISNOTFINITE': ((BOOL,) + NUM, tobool, notb(fin)),
    'ISINF': ((BOOL,) + NUM, tobool, infv),
    'ISNOTINF': ((BOOL,) + NUM, tobool, notb(infv)),
    'ISNORMAL': (NUM, tobool, normv),
    'ISNOTNORMAL': (NUM, tobool, notb(normv)),
    'ISNANORZERO': (NUM, tobool, nanorzero),
    'SIGNBIT': (FL, tobool, lambda d, x: b8(eq(tm.extract(x, x.w - 1, x.w - 1), const(1, 1)))),
    'FLOOR': (FL, same, rnd('floor')),
    'CEIL': (FL, same, rnd('ceil')),
    'TRUNC': (FL, same, rnd('trunc')),
    'ROUND': (FL, same, rnd('even')),
    'SQRT': (FL + LIB, todouble, libm('sqrt')),
    'CBRT': (LIB, todouble, libm('cbrt')),
    'LOG': (FL + LIB, todouble, libm('log')),
    'LOG10': (FL + LIB, todouble, libm('log10')),
    'EXP': (FL + LIB, todouble, libm('exp')),
    'EXP2': (FL + LIB, todouble, libm('exp2')),
}

MODES = ('cc', 'cs', 'sc', 'ss', 'inplace')


def kernel_for(ctx, op, d):
    f, ov = dispatch(ctx, '_Z14GetUnaryOpFastiiiPi', [OPS[op], d, 0, ('out',)])
    if f is None:
        f, ov = dispatch(ctx, '_Z14GetUnaryOpSlowiiiPi', [OPS[op], d, 0, ('out',)])
    return f, ov[0]


def setup(op, d, mode):
    types, outt, spec = SPEC[op]
    od = outt(d)

    def s(ctx):
        f, wanted = kernel_for(ctx, op, d)
        what = '%s(%s)' % (op, NAMES[d])
        if f is None:
            raise Broken('no kernel is selected for ' + what)
        if wanted != od:
            raise Broken('%s reports output type %s instead of %s' % (what, wanted, NAMES[od]))
        ctx.setup_obs.append('%s -> kernel with output %s' % (what, NAMES[od]))
        if d in (LL, ULL):
            # same kernel as the other 64-bit type: already under contract
            f2, w2 = kernel_for(ctx, op, I64 if d == LL else U64)
            if f == f2 and mode == 'cc':
                return
        n = ctx.len('n')
        isz, osz = SIZE[d], SIZE[od]
        if mode == 'inplace':
            si, so = const(isz, 64), const(osz, 64)
            o = ctx.typed('out', od, n)
            a = o
            ctx.calls(f, [o.base, o.base, n, si, so])
        else:
            if mode[0] == 'c':
                si = const(isz, 64)
                a = ctx.typed('in', d, n, writable=False)
            else:
                si = ctx.stride('si', exclude=isz, size=isz)
                a = ctx.typed('in', d, n, writable=False, stride=si)
            if mode[1] == 'c':
                so = const(osz, 64)
                o = ctx.typed('out', od, n)
            else:
                so = ctx.stride('so', True, exclude=osz, size=osz)
                o = ctx.typed('out', od, n, stride=so)
            ctx.calls(f, [a.base, o.base, n, si, so])
        w, wo = BITS[d], BITS[od]

        def el(k):
            x = a.rd0(k)
            return tm.extract(x, w - 1, 0) if x.w != w else x

        def rel(v, sp):
            v = tm.extract(v, wo - 1, 0) if v.w != wo else v
            return fsame0(v, sp) if od in FLOATS else eq(v, sp)
        ctx.ensure(o, const(0, 64), n, lambda k: spec(d, el(k)), 'out[k] == %s' % what, rel=rel)
    return s


def cases(prop, tier):
    out = []
    for op, (types, outt, spec) in SPEC.items():
        for d in types:
            for mode in MODES:
                if mode == 'inplace' and SIZE[d] != SIZE[outt(d)]:
                    continue
                if d in (LL, ULL) and mode != 'cc':
                    continue
                out.append(Case('%s %s %s' % (op, NAMES[d], mode), 'UnaryOps', setup(op, d, mode), group='%s %s' % (op, NAMES[d])))
    return out
