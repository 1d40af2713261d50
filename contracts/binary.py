"""P02: element-wise binary arithmetic.

For each (operation, element type, scalar mode) the kernel CheckMathOpTwoInputs selects must write, for every length and alignment and for in-place
use, out[k] = op(first[k], second[k]), where a scalar operand stands for the same value at every position, and must touch nothing else.
"""
from .common import *


def TUS(prop):
    return ['BasicMath']


FL = (F32, F64, F80)
SGN = (I8, I16, I32, I64, LL)
UNS = (U8, U16, U32, U64, ULL)
ALLINT = SGN + UNS
NUM = ALLINT + FL
MODES = {'aa': 0, 'sa': 1, 'as': 2}


def f(op):
    return lambda d, x, y: tm.fop(op, (x, y), x.w)


def arith(fo, io):
    return lambda d, x, y: tm.fop(fo, (x, y), x.w) if d in FL else io(x, y)


def todbl(d, x):
    if d in FL:
        return x
    if d == BOOL:
        return tm.fop('uitofp', (x,), 64)
    return tm.fop('sitofp' if d in SIGNED else 'uitofp', (x,), 64)


def less(d, x, y):
    if d in FL:
        return tm.f_lt(x, y)
    return slt(x, y) if d in SIGNED else tm.ult(x, y)


def mn(d, x, y):
    if d in FL:
        return ite(bor(less(d, y, x), tm.f_isnan(y)), y, x)
    return ite(less(d, y, x), y, x)


def mx(d, x, y):
    if d in FL:
        return ite(bor(less(d, x, y), tm.f_isnan(y)), y, x)
    return ite(less(d, x, y), y, x)


def divv(d, x, y):
    # every type but float32 divides in double
    x, y = (tm.fop('fptrunc', (v,), 64) if d == F80 else todbl(d, v) for v in (x, y))
    return tm.fop('fdiv', (x, y), x.w)


def z(x):
    return const(0, x.w)


def floordiv(d, x, y):
    if d in FL:
        return ite(tm.f_isnan(y), y, tm.fop('fround', (tm.fop('fdiv', (x, y), x.w),), x.w, 'floor'))
    if d in UNSIGNED:
        return ite(eq(y, z(y)), z(x), tm.udiv(x, y))
    # -1 apart: the quotient of the smallest value by -1 wraps
    q, r = tm.sdiv(x, y), tm.srem(x, y)
    fl = ite(band(bnot(tm.beq(slt(x, z(x)), slt(y, z(y)))), bnot(eq(r, z(x)))), sub(q, const(1, x.w)), q)
    return ite(eq(y, z(y)), z(x), ite(eq(y, const(-1, y.w)), tm.neg(x), fl))


def modv(d, x, y):
    if d in FL:
        return rem(d, x, y)
    if d in UNSIGNED:
        return ite(eq(y, z(y)), z(x), tm.urem(x, y))
    return ite(bor(eq(y, z(y)), eq(y, const(-1, y.w))), z(x), tm.srem(x, y))


def rem(d, x, y):
    w = x.w
    fl = tm.fop('fround', (tm.fop('fdiv', (x, y), w),), w, 'floor')
    return tm.fop('fsub', (x, tm.fop('fmul', (y, fl), w)), w)


def power(d, x, y):
    if d in FL:
        return tm.uf('libm_pow', (x, y), x.w)
    v = tm.uf('libm_pow', (todbl(d, x), todbl(d, y)), 64)
    return v


def subdt(d, x, y):
    bad = bor(eq(x, z(x)), eq(y, z(y)), is_invalid(d, x), is_invalid(d, y))
    return ite(bad, const(0x7ff8 << 48, 64), tm.fop('sitofp', (sub(x, y),), 64))


def subdates(d, x, y):
    bad = bor(eq(x, z(x)), eq(y, z(y)), is_invalid(d, x), is_invalid(d, y))
    return ite(bad, z(x), sub(x, y))


def same(d):
    return d


def todouble(d):
    return F32 if d == F32 else F64


BIT = (BOOL,) + ALLINT
SPEC = {
    'ADD': ((BOOL,) + NUM, same, lambda d, x, y: tm.bvor(x, y) if d == BOOL else arith('fadd', add)(d, x, y)),
    'SUB': ((BOOL,) + NUM, same, lambda d, x, y: tm.bvand(x, tm.bvxor(y, const(1, 8))) if d == BOOL else arith('fsub', sub)(d, x, y)),
    'MUL': ((BOOL,) + NUM, same, lambda d, x, y: tm.bvand(x, y) if d == BOOL else arith('fmul', mul)(d, x, y)),
    'MIN': ((I8, U8, I16, U16, I32, U32, F32, F64), same, mn),
    'MAX': ((I8, U8, I16, U16, I32, U32, F32, F64), same, mx),
    'DIV': ((BOOL,) + NUM, todouble, divv),
    'SUBDATETIMES': ((I32, I64, LL), lambda d: F64, subdt),
    'SUBDATES': ((I32, I64, LL), same, subdates),
    'FLOORDIV': (NUM, same, floordiv),
    'MOD': (NUM, same, modv),
    'REMAINDER': (FL, same, rem),
    'POWER': (NUM, same, power),
    'LOGICAL_AND': ((BOOL,), same, lambda d, x, y: tm.bvand(x, y)),
    'LOGICAL_OR': ((BOOL,), same, lambda d, x, y: tm.bvor(x, y)),
    'BITWISE_AND': (BIT, same, lambda d, x, y: tm.bvand(x, y)),
    'BITWISE_OR': (BIT, same, lambda d, x, y: tm.bvor(x, y)),
    'BITWISE_XOR': (BIT, same, lambda d, x, y: tm.bvxor(x, y)),
    'BITWISE_XOR_SPECIAL': (BIT, same, lambda d, x, y: tm.bvxor(x, y)),
    'BITWISE_ANDNOT': (BIT, same, lambda d, x, y: tm.bvand(x, tm.bvnot(y))),
    'BITWISE_NOTAND': (BIT, same, lambda d, x, y: tm.bvand(tm.bvnot(x), y)),
}
BUF = 32                 # scalars are passed as a 32-byte buffer holding the value repeated


def kernel_for(ctx, op, mode, t1, t2):
    fn, ov = dispatch(ctx, 'vc_CheckMathOpTwoInputs', [OPS[op], mode, t1, t2, 0, ('out',)])
    return fn, ov[0]


def scalar_buf(ctx, name, d):
    """the 32-byte broadcast buffer"""
    n = BUF // SIZE[d]
    w = BITS[d]

    def gen(rp, r, ln, rng, env, content, i):
        x = rp.gen_default(r, 1, rng, i)
        return x * ln
    r = ctx.typed(name, d, const(n, 64), writable=False, gen=gen)
    r.init = lambda ex, idx, w: r.rd0(const(0, 64))
    return r


def setup(op, d, mode, alias):
    types, outt, spec = SPEC[op]
    od = outt(d)

    def s(ctx):
        m = MODES[mode]
        fn, wanted = kernel_for(ctx, op, m, d, d)
        what = '%s(%s)' % (op, NAMES[d])
        if fn is None:
            raise Broken('no kernel is selected for ' + what)
        norm = {LL: I64, ULL: U64}
        if norm.get(wanted, wanted) != norm.get(od, od):
            raise Broken('%s reports output type %s instead of %s' % (what, wanted, NAMES[od]))
        ctx.setup_obs.append('%s -> kernel with output %s' % (what, NAMES[od]))
        if d in (LL, ULL) and fn == kernel_for(ctx, op, m, norm[d], norm[d])[0]:
            return
        n = ctx.len('n')
        out = None
        w, wo = BITS[d], BITS[od]

        def cut(x):
            return tm.extract(x, w - 1, 0) if x.w != w else x
        if mode[0] == 's':
            a = scalar_buf(ctx, 'in1', d)
        elif alias == '1':
            a = out = ctx.typed('out', od, n)
        else:
            a = ctx.typed('in1', d, n, writable=False)
        if mode[1] == 's':
            b = scalar_buf(ctx, 'in2', d)
        elif alias == '2':
            b = out = ctx.typed('out', od, n)
        else:
            b = ctx.typed('in2', d, n, writable=False)
        if out is None:
            out = ctx.typed('out', od, n)
        ctx.calls(fn, [a.base, b.base, out.base, n, const(m, 32)])
        z0 = const(0, 64)

        def rel(v, sp):
            v = tm.extract(v, wo - 1, 0) if v.w != wo else v
            if op == 'POWER' and d not in FL:
                return eq(v, powint(d, sp))
            return fsame0(v, sp) if od in FLOATS else eq(v, sp)
        ctx.ensure(out, z0, n, lambda k: spec(d, cut(a.rd0(z0 if mode[0] == 's' else k)), cut(b.rd0(z0 if mode[1] == 's' else k))), 'out[k] == %s' % what, rel=rel)
    return s


def powint(d, v):
    """the conversion of pow()'s double to the integer type"""
    return tm.fop('fptosi' if d in SIGNED else 'fptoui', (v,), BITS[d])


def cases(prop, tier):
    out = []
    for op, (types, outt, spec) in SPEC.items():
        for d in types:
            for mode in MODES:
                if op == 'BITWISE_XOR_SPECIAL' and mode == 'sa':
                    pass
                for alias in ('', '1', '2'):
                    if alias and (mode[int(alias) - 1] == 's' or SIZE[d] != SIZE[outt(d)]):
                        continue
                    if d in (LL, ULL) and alias:
                        continue
                    out.append(Case('%s %s %s%s' % (op, NAMES[d], mode, ' out=in' + alias if alias else ''), 'BasicMath', setup(op, d, mode, alias),
                                    group='%s %s %s' % (op, NAMES[d], mode)))
    return out
