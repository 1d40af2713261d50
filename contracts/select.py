"""P08: group-by selections over grouped rows.

The rows are given sorted by group: the rows of group i are group[first[i]], ..., group[first[i] + count[i] - 1].
"""
from .common import *
from .groupby import cut, cv, invc, NAMES, TYPES
from vc.term import implies
from vc.sym import Inv
from vc.sym import Fold as _Fold

FUNCS = dict(FIRST=100, NTH=101, LAST=102)


def TUS(prop):
    return ['GroupBy']


class G:
    """grouped rows: the arrays group, first and count of a valid grouping"""

    def __init__(self, ctx, vb):
        n = self.n = ctx.len('n', hi=(1 << 31) - 1 if vb == 32 else NMAX)
        m = self.m = ctx.len('m')
        nb = self.nb = ctx.len('nbins', hi=1 << 31, gen=lambda rng, env, i: rng.choice((1, 2, 3, 5, 9, 30)))
        lo = self.lo = ctx.scalar('binLow', 64, lambda rng, env, i: rng.randrange(0, 2) if env['nbins'] > 1 else 0)
        hi = self.hi = ctx.scalar('binHigh', 64, lambda rng, env, i: rng.choice((env['nbins'], rng.randrange(env['binLow'], env['nbins'] + 1))))
        ctx.assume(sle(const(0, 64), lo), sle(lo, hi), sle(hi, nb))
        self.vb = vb
        sx = lambda v: tm.sext(v, 64)
        z = const(0, vb)

        def cuts(env, rng):
            if 'cuts' not in env:
                c = sorted(rng.randrange(0, env['n'] + 1) for _ in range(env['nbins'] - 1)) if rng.random() < .7 else [0] * (env['nbins'] - 1)
                env['cuts'] = [0] + c + [env['n']]
            return env['cuts']
        self.g = ctx.arr('group', vb // 8, n, writable=False, elt=lambda i, v: band(sle(z, v), slt(sx(v), m)),
                         gen=lambda rp, r, ln, rng, env, content, i: [rng.randrange(0, max(1, env['m'])) for _ in range(ln)])
        self.c = ctx.arr('count', vb // 8, nb, writable=False, elt=lambda i, v: band(sle(z, v), sle(sx(v), n)),
                         gen=lambda rp, r, ln, rng, env, content, i: [cuts(env, rng)[k + 1] - cuts(env, rng)[k] for k in range(ln)])
        self.f = ctx.arr('first', vb // 8, nb, writable=False, elt=lambda i, v: band(sle(z, v), sle(sx(v), n), sle(z, self.c.rd0(i)), sle(sx(self.c.rd0(i)), sub(n, sx(v)))),
                         gen=lambda rp, r, ln, rng, env, content, i: [cuts(env, rng)[k] for k in range(ln)])
        self.G = lambda j: sx(self.g.rd0(j))
        self.F = lambda i: sx(self.f.rd0(i))
        self.C = lambda i: sx(self.c.rd0(i))
        self.inr = lambda i: band(sle(lo, i), slt(i, hi))


def pick(func, g, nth, neg):
    """(condition, row position) selected for bin i"""
    z = const(0, 64)
    if func == 'FIRST':
        return lambda i: (slt(z, g.C(i)), g.F(i))
    if func == 'LAST':
        return lambda i: (slt(z, g.C(i)), add(g.F(i), sub(g.C(i), const(1, 64))))

    def f(i):
        k = add(g.C(i), nth) if neg else nth
        return band(sle(z, k), slt(k, g.C(i))), add(g.F(i), k)
    return f


def case(func, d, vb, neg=False):
    def s(ctx):
        fn, ov = dispatch(ctx, 'vc_GetGroupByXFunction_%d' % vb, [d, ('out',), FUNCS[func]])
        if fn is None:
            raise Broken('%s(%s): no function' % (func, NAMES[d]))
        e = {LL: I64, ULL: U64}.get(ov[0], ov[0])
        if e != d:
            raise Broken('%s(%s) gives %s' % (func, NAMES[d], NAMES[e]))
        g = G(ctx, vb)
        nth = ctx.scalar('nth', 64, lambda rng, env, i: rng.choice((-1, -2, -5, -1 << 40) if neg else (0, 1, 2, 5, 1 << 40)) & tm.mask(64))
        ctx.assume(sle(const(-1 << 62 if neg else 0, 64), nth), sle(nth, const(-1 if neg else 1 << 62, 64)))
        a = ctx.typed('in', d, g.m, writable=False)
        o = ctx.typed('out', d, g.nb)
        sel = pick(func, g, nth, neg)
        w = BITS[d]

        def spec(i):
            ok, j = sel(i)
            return ite(g.inr(i), ite(ok, cut(a.rd0(g.G(j)), w), invb(d)), cut(tm.uf(o.ufn, (i,), 8 * o.gran), w))
        rel = (lambda v, s_: fsame0(cut(v, w), cut(s_, w))) if d in FLOATS else eq
        ctx.ensure(o, const(0, 64), g.nb, spec, 'out[i] == the %s row of group i' % func.lower(), rel=rel)
        ctx.ensure_frame(a)
        ctx.calls(fn, [a.base, g.g.base, g.f.base, g.c.base, o.base, g.lo, g.hi, g.m, const(SIZE[d], 64), nth])
    return s


def invb(d):
    return const(0, 8) if d == BOOL else invc(d)


def strings(func, isz, d, vb, neg=False):
    def s(ctx):
        fn, ov = dispatch(ctx, 'vc_GetGroupByXFunction_%d' % vb, [d, ('out',), FUNCS[func]])
        if fn is None:
            raise Broken('%s(%s): no function' % (func, NAMES[d]))
        g = G(ctx, vb)
        nth = ctx.scalar('nth', 64, lambda rng, env, i: rng.choice((-1, -2, -5, -1 << 40) if neg else (0, 1, 2, 5, 1 << 40)) & tm.mask(64))
        ctx.assume(sle(const(-1 << 62 if neg else 0, 64), nth), sle(nth, const(-1 if neg else 1 << 62, 64)))
        a = ctx.arr('in', 1, tm.mulc(g.m, isz), writable=False)
        o = ctx.arr('out', 1, tm.mulc(g.nb, isz))
        sel = pick(func, g, nth, neg)
        for b in range(isz):
            def spec(i, b=b):
                ok, j = sel(i)
                return ite(g.inr(i), ite(ok, a.rd0(add(tm.mulc(g.G(j), isz), const(b, 64))), const(0, 8)), o.rd0(add(tm.mulc(i, isz), const(b, 64))))
            ctx.ensure(o, const(0, 64), g.nb, spec, 'byte %d of out item i == the %s row of group i' % (b, func.lower()), at=lambda p, b=b: add(tm.mulc(p, isz), const(b, 64)))
        ctx.calls(fn, [a.base, g.g.base, g.f.base, g.c.base, o.base, g.lo, g.hi, g.m, const(isz, 64), nth])
    return s


def cases(prop, tier):
    out = []
    for func in FUNCS:
        for neg in (False, True) if func == 'NTH' else (False,):
            nm = func + ' from the end' * neg
            for d in TYPES:
                for vb in (32, 64):
                    out.append(Case('%s %s idx%d' % (nm, NAMES[d], vb), 'GroupBy', case(func, d, vb, neg)))
            for isz in (3, 8):
                for vb in (32, 64):
                    out.append(Case('%s bytes%d idx%d' % (nm, isz, vb), 'GroupBy', strings(func, isz, STR, vb, neg), cost=2))
    return out
