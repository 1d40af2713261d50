"""P07: group-by accumulations.

Each accumulator is called with rows in[i], bin numbers index[i], per-bin counts, per-bin output and a bin range [low, high).  Its contract is
stated with ghost recursions over the rows: for bin k, the running sum / extreme / count over the rows whose bin number is k, and whether any of
those rows holds the invalid value.  Rows whose bin number lies outside the range have no effect; bins outside the range are untouched.
"""
from .common import *
from vc.term import implies
from vc.sym import Inv
from vc.sym import Fold as _Fold


def Fold(name, w, init, step, **kw):
    return _Fold(name, w, init, step, nargs=1, **kw)

FUNCS = dict(SUM=0, MEAN=1, MIN=2, MAX=3, VAR=4, STD=5, NANSUM=50, NANMEAN=51, NANMIN=52, NANMAX=53, NANVAR=54, NANSTD=55)
TYPES = (BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F80)


def TUS(prop):
    return ['GroupBy']


def cut(v, w):
    return tm.extract(v, w - 1, 0) if v.w != w else v


def pad(v, w):
    return tm.zext(v, w) if v.w != w else v


def inval(d, x):
    """the rows that count as invalid; booleans are processed as int8"""
    return eq(x, const(0x80, 8)) if d == BOOL else is_invalid(d, x)


def invc(e):
    return const({F32: 0x7fc00000, F64: 0x7ff8 << 48, F80: (0x7fff << 64) | (3 << 62)}[e], BITS[e]) if e in FLOATS else const(0x80, 8) if e == BOOL else invalid(e)


def cv(d, e, x):
    """C conversion from type d to type e"""
    if e in FLOATS:
        if d in FLOATS:
            return x if d == e else tm.fop('fpext' if BITS[e] > BITS[d] else 'fptrunc', (x,), BITS[e])
        return tm.fop('sitofp' if d in SIGNED or d == BOOL else 'uitofp', (x,), BITS[e])
    w = BITS[e]
    if w <= x.w:
        return tm.extract(x, w - 1, 0)
    return tm.sext(x, w) if d in SIGNED or d == BOOL else tm.zext(x, w)


def plus(e, a, b):
    return tm.fop('fadd', (a, b), a.w) if e in FLOATS else add(a, b)


def fsum_w(e):
    return BITS[e]


class G:
    """the shared setting of one accumulator call"""

    def __init__(self, ctx, func, d, vb, wb, pas):
        self.ctx = ctx
        self.d = d
        fn, ov = dispatch(ctx, 'vc_GetGroupByFunction_%d_%d' % (vb, wb), [('out',), ('out',), ('out',), d, FUNCS[func]])
        if fn is None:
            raise Broken('%s(%s): no accumulator' % (func, NAMES[d]))
        hc, e, tmp = ov
        e = {LL: I64, ULL: U64}.get(e, e)
        self.what = '%s(%s -> %s)' % (func, NAMES[d], NAMES[e])
        ctx.setup_obs.append(self.what + ' selected')
        self.fn, self.e, self.tmpt = fn, e, tmp
        n = self.n = ctx.len('n')
        nb = self.nb = ctx.len('nbins', hi=1 << 32, gen=lambda rng, env, i: rng.choice((1, 2, 3, 5, 9, 30)))
        lo = self.lo = ctx.scalar('binLow', 64, lambda rng, env, i: rng.randrange(0, 2) if env['nbins'] > 1 else 0)
        hi = self.hi = ctx.scalar('binHigh', 64, lambda rng, env, i: rng.choice((env['nbins'], rng.randrange(env['binLow'], env['nbins'] + 1))))
        ctx.assume(sle(const(0, 64), lo), sle(lo, hi), sle(hi, nb))
        self.pas = pas
        z = const(0, 64)
        self.inr = lambda k: band(sle(lo, k), slt(k, hi))
        self.a = ctx.typed('in', d, n, writable=False)
        self.x = ctx.arr('index', vb // 8, n, writable=False, gen=lambda rp, r, ln, rng, env, content, i: [rng.randrange(-1, env['nbins'] + 2) & ((1 << vb) - 1) for _ in range(ln)])
        first = pas <= 0
        self.c = ctx.arr('count', wb // 8, nb, gen=lambda rp, r, ln, rng, env, content, i: [0 if first else rng.choice((0, 0, 1, 2, -1)) & ((1 << wb) - 1) for _ in range(ln)])
        self.o = ctx.typed('out', e, nb)
        self.c0 = (lambda k: ite(self.inr(k), const(0, wb), tm.uf(self.c.ufn, (k,), wb))) if first else (lambda k: tm.uf(self.c.ufn, (k,), wb))
        if first:
            # the counts of the range start at zero
            self.c.init = lambda ex, k, w: self.c0(k)
        self.o0 = lambda k: cut(tm.uf(self.o.ufn, (k,), 8 * self.o.gran), BITS[e])
        self.wb = wb
        if tmp is not None and tmp >= 0:
            self.t = ctx.typed('tmp', tmp, sub(hi, lo) if True else nb)
        else:
            self.t = None

    def val(self, p):
        return cut(self.a.rd0(p), BITS[self.d])

    def hit(self, k, p):
        """row p belongs to bin k of the range"""
        return band(eq(tm.sext(self.x.rd0(p), 64), k), self.inr(k))

    def args(self):
        return [self.a.base, self.x.base, self.c.base, self.o.base, self.n, self.lo, self.hi, const(self.pas, 64), self.t.base if self.t else const(0, 64)]

    def rel(self, v, s):
        w = BITS[self.e]
        return fsame0(cut(v, w), cut(s, w)) if self.e in FLOATS else eq(v, s)


def addp(f, k):
    return (f, lambda j, k=k: (add(j, k),))


def case(func, d, vb, wb, pas):
    def s(ctx):
        g = G(ctx, func, d, vb, wb, pas)
        e, n, w = g.e, g.n, BITS[g.e]
        nan = func.startswith('NAN') and not (d == BOOL and func[3:] in ('MIN', 'MAX'))      # booleans have no invalid value
        op = func[3:] if func.startswith('NAN') else func
        first = pas <= 0
        z = const(0, 64)
        cz, m1, one = const(0, wb), const(-1, wb), const(1, wb)
        inv = invc(e)
        t = g.t
        good = lambda k, p: band(g.hit(k, p), bnot(inval(d, g.val(p))))
        pre = lambda k: bnot(slt(g.c0(k), cz))        # no invalid seen in earlier passes
        pos = lambda k: sle(cz, g.c0(k))
        T = lambda k: tm.uf(t.ufn, (sub(k, g.lo),), 64)
        Bad = Fold('Bad', 1, lambda k: const(0, 1), lambda k, p, s: tm.bvor(s, tm.b2bv(band(g.hit(k, p), inval(d, g.val(p))), 1)))
        bad = lambda k, p: eq(Bad.S(k, p), const(1, 1)) if not nan else FALSE
        Cnt = Fold('Count', wb, lambda k: cz, lambda k, p, s: ite(good(k, p), add(s, one), s))
        Cnt.lemmas = [lambda k, p, s: implies(sle(p, n), band(sle(const(0, 64), tm.sext(s, 64)), sle(tm.sext(s, 64), p)))]
        cnt = lambda k, p: Cnt.S(k, p)
        Hit = Fold('Hit', 1, lambda k: const(0, 1), lambda k, p, s: tm.bvor(s, tm.b2bv(g.hit(k, p), 1)))
        hit = lambda k, p: eq(Hit.S(k, p), const(1, 1))
        inr = g.inr
        folds, invs, pf = [], [], []

        def inv_(name, region, expr, fl):
            invs.append(Inv(name, region, expr, fl))
        cleared = first and op in ('SUM', 'MEAN', 'VAR', 'STD')

        def padded(k, x):
            """80-bit values sit in 16-byte elements"""
            W = 8 * g.o.gran
            if x.w == W:
                return x
            h = tm.extract(tm.uf(g.o.ufn, (k,), W), W - 1, x.w)
            return tm.concat(ite(inr(k), const(0, h.w), h) if cleared else h, x)
        what = g.what
        if op in ('SUM', 'MEAN', 'VAR', 'STD'):
            # accumulate in acc; counts only for means and variances
            acc = F64 if t else e
            counting = op != 'SUM'
            zero = const(0, BITS[acc])
            start = (lambda k: zero) if first else (lambda k: T(k)) if t else g.o0
            Tot = Fold('Sum', BITS[acc], start, lambda k, p, s: ite(good(k, p), plus(acc, s, cv(d, acc, g.val(p))), s))
            tot = lambda k, p: Tot.S(k, p)
            folds = [Bad, Tot] if not nan else [Tot]
            if counting:
                folds.append(Cnt)
                cfin = lambda k, p: ite(band(pos(k), bad(k, p)), m1, ite(pos(k), add(g.c0(k), cnt(k, p)), g.c0(k))) if not nan else add(g.c0(k), cnt(k, p))
                if wb == 32:
                    ctx.assume(sle(n, const((1 << 31) - 1, 64)))
                if not first:
                    g.c.elt = lambda i, v: band(sle(v, const(1 << 62, 64)) if wb == 64 else sle(add(tm.sext(v, 64), n), const((1 << 31) - 1, 64)), TRUE if not nan else sle(cz, v))
            else:
                cfin = lambda k, p: ite(band(pos(k), bad(k, p)), m1, g.c0(k))
            invs.append(Inv('count', g.c, lambda k, p: ite(inr(k), cfin(k, p), g.c0(k)), folds))
            okc = (lambda k, p: band(pos(k), bnot(bad(k, p)))) if not nan else lambda k, p: TRUE
            frozen = lambda k, p, x0: x0
        if op in ('SUM', 'MEAN'):
            if t:
                tbad = const(0x7ff8 << 48, 64)
                if op == 'MEAN' and not nan:
                    tx = lambda k, p: ite(pos(k), ite(bad(k, p), tbad, tot(k, p)), T(k) if not first else tot(k, z))
                elif nan:
                    tx = tot
                else:
                    tx = None       # once a bad value is seen the accumulator is not used any more
                if tx is None:
                    # frozen at the first invalid value
                    Tot = Fold('Sum', 64, start, lambda k, p, s: ite(band(good(k, p), pos(k), bnot(bad(k, p))), plus(acc, s, cv(d, acc, g.val(p))), s), others=[Bad])
                    folds[:] = [Bad, Tot] + ([Cnt] if counting else [])
                    tot = lambda k, p: Tot.S(k, p)
                    tx = tot
                invs.append(Inv('tmp', t, lambda k, p: tx(add(k, g.lo), p), [addp(f, g.lo) for f in folds]))
                conv = lambda k, p: ite(okc(k, p), cv(F64, e, tx(k, p)), inv)
                # the copy stage visits every bin, or only the bins of the rows
                lems = [Bad] if not nan else []
                Hit.others = folds[:]
                Hit.lemmas = [lambda k, p, s: implies(bnot(eq(s, const(1, 1))), band(bnot(bad(k, p)), eq(tot(k, p), tot(k, z)), eq(cnt(k, p), cz) if counting else TRUE))]
                base = (lambda k: ite(inr(k), const(0, w), g.o0(k))) if first else g.o0
                invs.append(Inv('out', g.o, lambda k, p: padded(k, ite(band(inr(k), hit(k, p)), conv(k, n), base(k))), [Hit] + [(f, lambda k: (k,)) for f in folds]))
                folds.append(Hit)
                pf = [(Hit, n)]
                if op == 'MEAN' and pas < 0:
                    fin = lambda k: ite(slt(cz, cfin(k, n)), cv(F64, e, tm.fop('fdiv', (tx(k, n), cv(I32 if wb == 32 else I64, F64, cfin(k, n))), 64)), inv)
                    spec = lambda k: ite(inr(k), fin(k), g.o0(k))
                else:
                    seen = lambda k: TRUE if first else bor(slt(sub(g.hi, g.lo), n), hit(k, n))
                    spec = lambda k: ite(band(inr(k), seen(k)), conv(k, n), g.o0(k))
            else:
                ox = lambda k, p: ite(pos(k), ite(bad(k, p), inv, tot(k, p)), g.o0(k) if not first else tot(k, z)) if not nan else tot(k, p)
                o0 = (lambda k: g.o0(k)) if not first else (lambda k: ite(inr(k), zero, g.o0(k)))
                invs.append(Inv('out', g.o, lambda k, p: padded(k, ite(inr(k), ox(k, p), g.o0(k))), folds, elts=[g.c]))
                if op == 'MEAN' and pas < 0:
                    spec = lambda k: ite(inr(k), ite(slt(cz, cfin(k, n)), tm.fop('fdiv', (ox(k, n), cv(I32 if wb == 32 else I64, e, cfin(k, n))), w), inv), g.o0(k))
                else:
                    spec = lambda k: ite(inr(k), ox(k, n), g.o0(k))
            ctx.ensure(g.c, z, g.nb, lambda k: ite(inr(k), cfin(k, n), g.c0(k)), 'count[k] of %s' % what)
        elif op in ('MIN', 'MAX'):
            lt = (lambda a, b: f_lt(e, a, b)) if op == 'MIN' else (lambda a, b: f_lt(e, b, a))
            if nan:
                st0 = (lambda k: inv) if first else g.o0
                M = Fold('Extreme', w, st0, lambda k, p, s: ite(band(good(k, p), bor(inval(e, s), lt(cv(d, e, g.val(p)), s))), cv(d, e, g.val(p)), s))
                folds = [M]
                ox = M.S
                ctx.ensure_frame(g.c)
            else:
                Seen = Fold('Seen', 1, lambda k: const(0, 1), lambda k, p, s: tm.bvor(s, tm.b2bv(good(k, p), 1)))
                seen = lambda k, p: bor(slt(cz, g.c0(k)), eq(Seen.S(k, p), const(1, 1)))
                M = Fold('Extreme', w, (lambda k: inv) if first else g.o0, lambda k, p, s: ite(band(good(k, p), bor(bnot(seen(k, p)), lt(cv(d, e, g.val(p)), s))), cv(d, e, g.val(p)), s), others=[Seen])
                folds = [Bad, Seen, M]
                ox = lambda k, p: ite(pos(k), ite(bad(k, p), inv, M.S(k, p)), g.o0(k))
                cfin = lambda k, p: ite(pos(k), ite(bad(k, p), m1, ite(seen(k, p), ite(slt(cz, g.c0(k)), g.c0(k), one), cz)), g.c0(k))
                invs.append(Inv('count', g.c, lambda k, p: ite(inr(k), cfin(k, p), g.c0(k)), folds))
                ctx.ensure(g.c, z, g.nb, lambda k: ite(inr(k), cfin(k, n), g.c0(k)), 'count[k] of %s' % what)
            invs.append(Inv('out', g.o, lambda k, p: padded(k, ite(inr(k), ox(k, p), g.o0(k))), folds, elts=[g.c]))
            spec = lambda k: ite(inr(k), ox(k, n), g.o0(k))
        else:
            # variance: two passes over the rows, always a single pass of the accumulator
            acc = F64 if t else e
            aw = BITS[acc]
            C = lambda k: cv(I32 if wb == 32 else I64, acc, cfin(k, n))
            valid = (lambda k: sle(cz, cfin(k, n))) if not nan else lambda k: TRUE
            mean = lambda k: ite(valid(k), tm.fop('fdiv', (Tot.S(k, n), C(k)), aw), frz(k, n))
            Tot = Fold('Sum', aw, lambda k: zero, lambda k, p, s: ite(band(good(k, p), bnot(bad(k, p))), plus(acc, s, cv(d, acc, g.val(p))), s), others=[Bad] if not nan else [])
            folds[:] = [Bad, Tot, Cnt] if not nan else [Tot, Cnt]
            frz = lambda k, p: Tot.S(k, p)
            diff = lambda k, p: tm.fop('fsub', (cv(d, acc, g.val(p)), mean(k)), aw)
            sel = (lambda k, p: band(g.hit(k, p), valid(k))) if not nan else good
            SS = Fold('SumSq', aw, lambda k: zero, lambda k, p, s: ite(sel(k, p), tm.fop('fadd', (s, tm.fop('fmul', (diff(k, p), diff(k, p)), aw)), aw), s))
            if t:
                invs.append(Inv('tmp', t, lambda k, p: Tot.S(add(k, g.lo), p), [addp(f, g.lo) for f in folds]))
            else:
                invs.append(Inv('out', g.o, lambda k, p: padded(k, ite(inr(k), Tot.S(k, p), g.o0(k))), folds, elts=[g.c]))

            def on_alloc(ex, st, size):
                ex.oblige(st, 'allocation', eq(size, tm.mulc(g.hi, aw // 8)), 'workspace of binHigh accumulators')
                fresh('heap', 64)
                r = ex.region('work!%d' % tm._fresh[0], aw // 8, g.hi, kind='obj')
                ex.folds.append(Inv('work', r, lambda k, p: SS.S(k, p), [SS]))
                return r
            ctx.ex.on_alloc = on_alloc
            var_ = lambda k: tm.fop('fdiv', (SS.S(k, n), cv(I32 if wb == 32 else I64, acc, sub(cfin(k, n), one))), aw)
            res = (lambda x: cv(acc, e, x)) if op == 'VAR' else (lambda x: tm.fop('fsqrt', (cv(acc, e, x),), w))
            spec = lambda k: ite(inr(k), ite(slt(one, cfin(k, n)), res(var_(k)), inv), g.o0(k))
            folds.append(SS)
            ctx.ensure(g.c, z, g.nb, lambda k: ite(inr(k), cfin(k, n), g.c0(k)), 'count[k] of %s' % what)
        for f in folds:
            ctx.fold(f)
        ctx.ex.folds += invs
        ctx.ensure(g.o, z, g.nb, spec, 'out[k] == %s of bin k' % what, rel=g.rel, facts=pf)
        ctx.calls(g.fn, g.args())
    return s


def f_lt(e, a, b):
    if e == F80:
        return tm.f_lt(a, b)
    if e in FLOATS:
        return tm.f_lt(a, b)
    return slt(a, b) if e in SIGNED or e == BOOL else tm.ult(a, b)


WIDTHS = ((32, 32), (8, 32), (16, 32), (64, 64))
MULTI = (I32, F32, F64)       # element types whose multi-pass forms are in the quick tier


def cases(prop, tier):
    """pass -1 is a complete accumulation, pass 0 the first and pass 1 a later one of several"""
    out = []
    for nf, func in enumerate(FUNCS):
        for j, d in enumerate(TYPES):
            quick = WIDTHS[(j + nf) % 4]
            for vb, wb in WIDTHS if tier != 'quick' else (quick,):
                for pas in (-1, 0, 1):
                    if ('VAR' in func or 'STD' in func) and pas >= 0:
                        continue
                    if func == 'MEAN' and d == F32 and pas > 0:
                        continue            # not decided: see DESIGN.md
                    if tier == 'quick' and d in (U8, I16, U32, I64) if 'STD' in func else tier == 'quick' and d in (I8, U16, U64) and 'VAR' in func:
                        continue            # the variance and the standard deviation take turns
                    if tier == 'quick' and pas >= 0 and d not in MULTI:
                        continue
                    nm = '%s %s idx%d cnt%d pass%d' % (func, NAMES[d], vb, wb, pas)
                    cost = (30 if 'VAR' in func or 'STD' in func else 8 if 'MEAN' in func or 'SUM' in func else 4) + (5 if d in FLOATS else 0)
                    out.append(Case(nm, 'GroupBy', case(func, d, vb, wb, pas), group='%s %s' % (func, NAMES[d]), cost=cost))
    return out
