"""P04: array conversions keep values and invalids.

The conversion kernel selected for (input type, output type) must write, for every length and stride, the C conversion of each element, with the
invalid value of the input type becoming the invalid value of the output type ("safe"); the masked variant changes exactly the masked elements.
"""
from .common import *

FL = (F32, F64, F80)
TYPES = (BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F80)


def TUS(prop):
    return ['Convert']


def conv(d, e, x):
    w = BITS[e]
    if d in FLOATS:
        if e in FLOATS:
            return x if d == e else tm.fop('fpext' if w > BITS[d] else 'fptrunc', (x,), w)
        return tm.fop('fptosi' if e in SIGNED else 'fptoui', (x,), w)
    if e in FLOATS:
        return tm.fop('sitofp' if d in SIGNED or d == BOOL else 'uitofp', (x,), w)
    if w <= x.w:
        return tm.extract(x, w - 1, 0)
    return tm.sext(x, w) if d in SIGNED else tm.zext(x, w)


def bad(e):
    return const({F32: 0x7fc00000, F64: 0x7ff8 << 48, F80: (0x7fff << 64) | (3 << 62)}[e], BITS[e]) if e in FLOATS else const(0, 8) if e == BOOL else invalid(e)


def nonzero(d, x):
    if d in FLOATS:
        return bnot(tm.f_eq(x, const(0, x.w)))
    return bnot(eq(x, const(0, x.w)))


def safe(d, e, x):
    if d == e:
        return x
    if e == BOOL:
        return ite(nonzero(d, x), const(1, 8), const(0, 8))
    if d in FLOATS:
        if e in FLOATS:
            return conv(d, e, x)
        return ite(tm.ult(tm.extract(x, x.w - 2, 0), const(tm.f_exp_all(x.w), x.w - 1)), conv(d, e, x), bad(e))
    if d == BOOL:
        return conv(d, e, x)
    return ite(is_invalid(d, x), bad(e), conv(d, e, x))


def unsafe(d, e, x):
    if d == e:
        return x
    if e == BOOL:
        return ite(nonzero(d, x), const(1, 8), const(0, 8))
    return conv(d, e, x)


def masked(d, e, x):
    if d == e:
        return x
    if e == BOOL:
        return ite(nonzero(d, x), const(1, 8), const(0, 8))
    if d == BOOL:
        return conv(d, e, x)
    return ite(is_invalid(d, x), bad(e), conv(d, e, x))


def badreg(ctx, name, d, isin):
    """the sentinel the caller passes: GetInvalid / GetDefaultForType"""
    v = const(0x80, 8) if d == BOOL and isin else bad(d)
    n = SIZE[d]
    b = v.x.to_bytes(n, 'little')
    r = ctx.arr(name, n, const(1, 64), writable=False, fl=BITS[d] if d in FLOATS else None, gen=lambda rp, rg, ln, rng, env, content, i: [v.x])
    r.init = lambda ex, idx, w, r=r: tm.zext(v, 8 * n)
    return r


def setup(fam, d, e, mode):
    disp = {'safe': 'vc_GetConversionFunctionSafe', 'unsafe': 'vc_GetConversionFunctionUnsafe', 'putmask': 'vc_GetConversionPutMask'}[fam]
    spec = {'safe': safe, 'unsafe': unsafe, 'putmask': masked}[fam]

    def s(ctx):
        fn, ov = dispatch(ctx, disp, [d, e])
        what = '%s(%s -> %s)' % (fam, NAMES[d], NAMES[e])
        if fn is None:
            raise Broken('no kernel is selected for ' + what)
        for d2, e2 in ((LL if d == I64 else ULL if d == U64 else d, LL if e == I64 else ULL if e == U64 else e),):
            if (d2, e2) != (d, e) and (d == e) == (d2 == e2) and dispatch(ctx, disp, [d2, e2])[0] != fn:
                raise Broken('%s: long long selects another kernel' % what)
        ctx.setup_obs.append('%s -> kernel' % what)
        n = ctx.len('n')
        w, wo = BITS[d], BITS[e]
        isz, osz = SIZE[d], SIZE[e]
        z0 = const(0, 64)
        b1 = badreg(ctx, 'bad_in', d, True)
        b2 = badreg(ctx, 'bad_out', e, False)

        def cut(v, w):
            return tm.extract(v, w - 1, 0) if v.w != w else v

        def rel(v, sp):
            return fsame0(cut(v, wo), cut(sp, wo)) if e in FLOATS else eq(v, sp)
        if fam == 'putmask':
            a = ctx.typed('in', d, n, writable=False)
            o = ctx.typed('out', e, n)
            m = ctx.typed('mask', BOOL, n, writable=False)
            ctx.calls(fn, [a.base, o.base, m.base, n, b1.base, b2.base])
            ctx.ensure(o, z0, n, lambda k: ite(eq(m.rd0(k), const(0, 8)), cut(o.rd0(k), wo), spec(d, e, cut(a.rd0(k), w))), 'out[k] == %s' % what, rel=rel)
            return
        if mode[0] == 'c':
            si = const(isz, 64)
            a = ctx.typed('in', d, n, writable=False)
        else:
            si = ctx.stride('si', exclude=isz, size=isz)
            a = ctx.typed('in', d, n, writable=False, stride=si)
        if mode[1] == 'c':
            so = const(osz, 64)
            o = ctx.typed('out', e, n)
        else:
            so = ctx.stride('so', True, exclude=osz, size=osz)
            o = ctx.typed('out', e, n, stride=so)
        ctx.calls(fn, [a.base, o.base, n, b1.base, b2.base, si, so])
        ctx.ensure(o, z0, n, lambda k: spec(d, e, cut(a.rd0(k), w)), 'out[k] == %s' % what, rel=rel)
    return s


def cases(prop, tier):
    out = []
    for fam in ('safe', 'unsafe', 'putmask'):
        for d in TYPES:
            for e in TYPES:
                for mode in (('cc', 'sc') if fam != 'putmask' else ('',)):
                    out.append(Case('%s %s %s %s' % (fam, NAMES[d], NAMES[e], mode), 'Convert', setup(fam, d, e, mode), group='%s %s %s' % (fam, NAMES[d], NAMES[e])))
    return out
