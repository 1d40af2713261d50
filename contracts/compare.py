"""P03: element-wise comparisons.

For each (comparison, operand types, scalar mode) the kernel GetComparisonOpFast selects must write out[k] = 1 or 0 according to the mathematical
comparison of first[k] and second[k], for every length, alignment and scalar side; int64 against uint64 compares the integer values.
"""
from .common import *
from .binary import scalar_buf, MODES, NUM, ALLINT, FL


def TUS(prop):
    return ['Compare']


OPL = ('CMP_EQ', 'CMP_NE', 'CMP_LT', 'CMP_GT', 'CMP_LTE', 'CMP_GTE')
TYPES = (BOOL,) + ALLINT + (F32, F64)
MIX = [(I64, U64), (U64, I64), (LL, ULL), (ULL, LL), (I64, LL), (U64, ULL), (LL, U64), (ULL, I64)]


def ext(d, x, w):
    return tm.sext(x, w) if d in SIGNED else tm.zext(x, w)


def compare(op, d1, d2, x, y):
    if d1 in FLOATS:
        return {'CMP_EQ': tm.f_eq(x, y), 'CMP_NE': bnot(tm.f_eq(x, y)), 'CMP_LT': tm.f_lt(x, y), 'CMP_GT': tm.f_lt(y, x),
                'CMP_LTE': tm.f_le(x, y), 'CMP_GTE': tm.f_le(y, x)}[op]
    if d1 != d2 and (d1 in SIGNED) != (d2 in SIGNED):
        w = x.w + 1
        x, y = ext(d1, x, w), ext(d2, y, w)
        lt, le = slt, sle
    elif d1 in SIGNED:
        lt, le = slt, sle
    else:
        lt, le = tm.ult, tm.ule
    return {'CMP_EQ': eq(x, y), 'CMP_NE': bnot(eq(x, y)), 'CMP_LT': lt(x, y), 'CMP_GT': lt(y, x), 'CMP_LTE': le(x, y), 'CMP_GTE': le(y, x)}[op]


def setup(op, d1, d2, mode, alias):
    def s(ctx):
        m = MODES[mode]
        fn, ov = dispatch(ctx, '_Z19GetComparisonOpFastiiiiiPi', [OPS[op], m, d1, d2, 0, ('out',)])
        what = '%s(%s, %s)' % (op, NAMES[d1], NAMES[d2])
        if fn is None:
            raise Broken('no kernel is selected for ' + what)
        if ov[0] != BOOL:
            raise Broken('%s reports output type %s instead of bool' % (what, ov[0]))
        ctx.setup_obs.append('%s -> kernel with bool output' % what)
        n = ctx.len('n')
        out = None
        if mode[0] == 's':
            a = scalar_buf(ctx, 'in1', d1)
        elif alias == '1':
            a = out = ctx.typed('out', BOOL, n)
        else:
            a = ctx.typed('in1', d1, n, writable=False)
        if mode[1] == 's':
            b = scalar_buf(ctx, 'in2', d2)
        elif alias == '2':
            b = out = ctx.typed('out', BOOL, n)
        else:
            b = ctx.typed('in2', d2, n, writable=False)
        if out is None:
            out = ctx.typed('out', BOOL, n)
        ctx.calls(fn, [a.base, b.base, out.base, n, const(m, 32)])
        z0 = const(0, 64)
        ctx.ensure(out, z0, n, lambda k: ite(compare(op, d1, d2, a.rd0(z0 if mode[0] == 's' else k), b.rd0(z0 if mode[1] == 's' else k)), const(1, 8), const(0, 8)), 'out[k] == %s' % what)
    return s


def cases(prop, tier):
    out = []
    for op in OPL:
        for d1, d2 in [(d, d) for d in TYPES] + MIX:
            for mode in MODES:
                for alias in ('', '1', '2'):
                    if alias and (mode[int(alias) - 1] == 's' or d1 != BOOL):
                        continue
                    out.append(Case('%s %s %s %s%s' % (op, NAMES[d1], NAMES[d2], mode, ' out=in' + alias if alias else ''), 'Compare', setup(op, d1, d2, mode, alias),
                                    group='%s %s %s %s' % (op, NAMES[d1], NAMES[d2], mode)))
    return out
