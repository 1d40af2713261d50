"""P09: fancy and boolean indexing."""
from .common import *
from vc.sym import Inv
from vc.sym import Fold as _Fold

IDX = (I8, U8, I16, U16, I32, U32, I64, U64)


def TUS(prop):
    return ['Merge']


def getitem(isz, d, mode):
    """out[p] == values[index[p]] (negative signed indices count from the end), the default value when the index is out of range"""
    def s(ctx):
        fn = dispatch(ctx, 'vc_GetItemFunction', [const(isz, 64), d])[0]
        alt = {I64: LL, U64: ULL}.get(d)
        if alt is not None and dispatch(ctx, 'vc_GetItemFunction', [const(isz, 64), alt])[0] != fn:
            raise Broken('long long index selects another kernel')
        n, m = ctx.len('n'), ctx.len('m', gen=lambda rng, env, i: rng.choice((0, 1, 3, 100, 130, 300)))
        w = BITS[d]
        if mode == 'contiguous':
            sv = si = None
            svt, sit = const(isz, 64), const(SIZE[d], 64)
        else:
            sv = svt = ctx.stride('sv', size=isz, exclude=isz if mode == 'strided values' else None)
            si = sit = ctx.stride('si', size=SIZE[d], exclude=SIZE[d] if mode == 'strided index' else None)
        a = ctx.arr('values', isz, m, writable=False, stride=sv)
        x = ctx.arr('index', SIZE[d], n, writable=False, stride=si,
                    gen=lambda rp, r, ln, rng, env, content, i: [rng.choice((rng.randrange(-310, 310), rng.getrandbits(w), 1 << (w - 1), (1 << w) - 1)) & ((1 << w) - 1) for _ in range(ln)])
        o = ctx.arr('out', isz, n)
        df = ctx.arr('default', isz, const(1, 64), writable=False)

        def spec(p):
            i = x.rd0(p)
            if d in SIGNED:
                i = tm.sext(i, 64)
                ok = band(sle(tm.neg(m), i), slt(i, m))
                i = ite(slt(i, const(0, 64)), add(i, m), i)
            else:
                i = tm.zext(i, 64)
                ok = tm.ult(i, m)
            return ite(ok, a.rd0(i), df.rd0(const(0, 64)))
        ctx.calls(fn, [a.base, x.base, o.base, m, const(isz, 64), n, sit, svt, df.base])
        ctx.ensure(o, const(0, 64), n, spec, 'out[p] == values[index[p]]')
        ctx.ensure_frame(a)
    return s


def getvar(isz, d, mode):
    """the same for items of any other size (strings, records), byte by byte; the item size is fixed per case"""
    def s(ctx):
        fn = dispatch(ctx, 'vc_GetItemFunction', [const(isz, 64), d])[0]
        if fn is None:
            raise Broken('no kernel for items of %d bytes' % isz)
        n, m = ctx.len('n', gen=lambda rng, env, i: rng.randrange(0, 20)), ctx.len('m', gen=lambda rng, env, i: rng.choice((0, 1, 3, 100, 130, 300)))
        w = BITS[d]
        rows = 1 if mode == 'contiguous' else 2          # a strided value array takes every second item
        si = ctx.stride('si', size=SIZE[d]) if mode != 'contiguous' else None
        a = ctx.arr('values', 1, tm.mulc(m, isz * rows), writable=False)
        x = ctx.arr('index', SIZE[d], n, writable=False, stride=si,
                    gen=lambda rp, r, ln, rng, env, content, i: [rng.choice((rng.randrange(-310, 310), rng.getrandbits(w), 1 << (w - 1), (1 << w) - 1)) & ((1 << w) - 1) for _ in range(ln)])
        o = ctx.arr('out', 1, tm.mulc(n, isz))
        df = ctx.arr('default', 1, const(isz, 64), writable=False)
        ctx.calls(fn, [a.base, x.base, o.base, m, const(isz, 64), n, si if si is not None else const(SIZE[d], 64), const(isz * rows, 64), df.base])
        def spec(p, b):
            i = x.rd0(p)
            if d in SIGNED:
                i = tm.sext(i, 64)
                ok = band(sle(tm.neg(m), i), slt(i, m))
                i = add(i, ite(slt(i, const(0, 64)), m, const(0, 64)))
            else:
                i = tm.zext(i, 64)
                ok = tm.ult(i, m)
            return ite(ok, a.rd0(add(tm.mulc(i, isz * rows), const(b, 64))), df.rd0(const(b, 64)))
        for b in range(isz):
            ctx.ensure(o, const(0, 64), n, lambda p, b=b: spec(p, b), 'byte %d of out item p == byte of values item index[p]' % b, at=lambda p, b=b: add(tm.mulc(p, isz), const(b, 64)))
    return s


def cases(prop, tier):
    out = []
    for isz in (1, 2, 4, 8, 16):
        for d in IDX:
            for mode in ('contiguous', 'strided values', 'strided index'):
                out.append(Case('getitem size %d index %s %s' % (isz, NAMES[d], mode), 'Merge', getitem(isz, d, mode)))
    for isz in (3, 12):
        for d in IDX:
            for mode in ('contiguous', 'strided'):
                out.append(Case('getitem bytes %d index %s %s' % (isz, NAMES[d], mode), 'Merge', getvar(isz, d, mode)))
    return out
