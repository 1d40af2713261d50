"""P11: cumulative operations by group.

A cumulative operation walks over the rows once; row p belongs to group index[p] (0: no group).  The state of each group after p rows is a ghost
recursion over the rows; the output at p is the state of the row's group after that row, and the invalid value for rows of no group.
"""
from .common import *
from .groupby import cut, cv, invc, inval, plus, f_lt, NAMES, TYPES
from vc.term import implies
from vc.sym import Inv
from vc.sym import Fold as _Fold

CUM = dict(CUMSUM=300, CUMPROD=302, FINDNTH=303, DECAY=301, NORMAL=304, WEIGHTED=305, CUMNANMAX=306, CUMNANMIN=307, CUMMAX=308, CUMMIN=309)


def Fold(name, w, init, step, **kw):
    return _Fold(name, w, init, step, nargs=1, **kw)


def TUS(prop):
    return ['Ema']


def case(func, d, kb, mode, tt=None):
    def s(ctx):
        fn, ov = dispatch(ctx, 'vc_GetEmaByFunction_%d' % kb, [d, ('out',), -1 if tt is None else tt, CUM[func]])
        if fn is None:
            raise Broken('%s(%s): no function' % (func, NAMES[d]))
        e = {LL: I64, ULL: U64}.get(ov[0], ov[0])
        what = '%s(%s -> %s)' % (func, NAMES[d], NAMES[e])
        ctx.setup_obs.append(what + ' selected')
        n = ctx.len('n')
        nu = ctx.len('groups', hi=1 << 32 if kb > 16 else (1 << (kb - 1)) - 1, gen=lambda rng, env, i: rng.choice((1, 2, 3, 5, 9, 30)))
        nb = add(nu, const(1, 64))
        a = ctx.typed('in', d, n, writable=False) if func != 'FINDNTH' else None
        x = ctx.arr('index', kb // 8, n, writable=False, gen=lambda rp, r, ln, rng, env, content, i: [rng.randrange(0, env['groups'] + 1) for _ in range(ln)],
                    elt=lambda i, v: band(sle(const(0, kb), v), sle(tm.sext(v, 64), nu)))
        o = ctx.typed('out', e, n)
        if e == F80:
            o.elt = None
        mk = lambda nm, on: ctx.typed(nm, BOOL, n, writable=False) if on else None
        inc, rst = mk('include', 'filter' in mode), mk('reset', 'reset' in mode)
        t = ctx.typed('time', tt, n, writable=False) if tt is not None else None
        rate = var('rate', 64)
        if tt is not None:
            ctx.scalars['rate'] = lambda rng, env, i: rng.choice((0x3fe0000000000000, 0, 0x3ff0000000000000, 0x4059000000000000))
        wt = lambda: 8 * o.gran
        z = const(0, 64)
        w = BITS[e]
        I = lambda p: tm.sext(x.rd0(p), 64)
        V = lambda p: cut(a.rd0(p), BITS[d])
        hit = lambda k, p: band(eq(I(p), k), sle(const(1, 64), k))
        on = lambda p: bnot(eq(inc.rd0(p), const(0, 8))) if inc else TRUE
        rs = lambda p: bnot(eq(rst.rd0(p), const(0, 8))) if rst else FALSE
        inv = invc(e)
        one = {F32: 0x3f800000, F64: 0x3ff << 52, F80: (0x3fff << 64) | (1 << 63)}.get(e, 1)
        use = lambda k, p: band(hit(k, p), on(p))
        extra = {}
        if func == 'CUMSUM':
            F = Fold('Sum', w, lambda k: const(0, w), lambda k, p, s: ite(use(k, p), plus(e, ite(rs(p), const(0, w), s), cv(d, e, V(p))), s))
        elif func == 'CUMPROD':
            F = Fold('Prod', w, lambda k: const(one, w), lambda k, p, s: ite(use(k, p), times(e, ite(rs(p), const(one, w), s), cv(d, e, V(p))), s))
        elif func == 'FINDNTH':
            F = Fold('Nth', w, lambda k: const(0, w), lambda k, p, s: ite(use(k, p), add(s, const(1, w)), s))
        elif func in ('CUMNANMIN', 'CUMNANMAX'):
            lt = (lambda a, b: f_lt(e, a, b)) if 'MIN' in func else (lambda a, b: f_lt(e, b, a))
            F = Fold('Extreme', w, lambda k: inv, lambda k, p, s: ite(use(k, p), ite(rs(p), V(p), ite(band(bnot(inval(d, V(p))), bor(inval(d, s), lt(V(p), s))), V(p), s)), s))
        elif func in ('CUMMIN', 'CUMMAX'):
            lt = (lambda a, b: f_lt(e, a, b)) if 'MIN' in func else (lambda a, b: f_lt(e, b, a))
            Seen = Fold('Seen', 1, lambda k: const(0, 1), lambda k, p, s: tm.bvor(s, tm.b2bv(use(k, p), 1)))
            F = Fold('Extreme', w, lambda k: inv,
                     lambda k, p, s: ite(use(k, p), ite(bor(rs(p), eq(Seen.S(k, p), const(0, 1)), inval(d, V(p)), band(bnot(inval(d, s)), lt(V(p), s))), V(p), s), s), others=[Seen])
            extra['seen'] = (1, Seen)
        W = 8 * o.gran

        def on_alloc(ex, st, size):
            bytes_ = 'seen' in extra and eq(size, nb) is TRUE and (o.gran > 1 or extra.get('work'))      # byte values: the flags come second
            extra['work'] = extra.get('work') or not bytes_
            g = 1 if bytes_ else o.gran
            f = extra['seen'][1] if bytes_ else F
            ex.oblige(st, 'allocation', eq(size, tm.mulc(nb, g)), 'workspace of one element per group')
            fresh('heap', 64)
            r = ex.region('work%s!%d' % (f.name, tm._fresh[0]), g, nb, kind='obj')
            if g == 1 and bytes_:
                ex.folds.append(Inv('seen', r, lambda k, p: tm.zext(f.S(k, p), 8), [f]))
            else:
                hi = lambda k: tm.extract(tm.uf(r.ufn, (k,), W), W - 1, w)
                ex.folds.append(Inv('work', r, lambda k, p: f.S(k, p) if W == w else tm.concat(const(0, W - w) if func == 'CUMSUM' else hi(k), f.S(k, p)), [f]))
            return r
        ctx.ex.on_alloc = on_alloc
        ok = (lambda p: sle(const(1, 64), I(p))) if func != 'FINDNTH' else lambda p: band(sle(const(1, 64), I(p)), on(p))
        bad = inv if func != 'FINDNTH' else const(0, w)
        spec = lambda p: ite(ok(p), F.S(I(p), add(p, const(1, 64))), bad)
        for f in [F] + F.others:
            ctx.fold(f)
        pad_ = lambda k, v: v if W == w else tm.concat(tm.extract(tm.uf(o.ufn, (k,), W), W - 1, w), v)
        ctx.ex.folds.append(Inv('out', o, lambda k, p: ite(slt(k, p), pad_(k, spec(k)), tm.uf(o.ufn, (k,), W)), [(f, lambda k: (I(k),)) for f in [F] + F.others], elts=[x]))
        rel = (lambda v, s_: fsame0(cut(v, w), cut(s_, w))) if e in FLOATS else eq
        ctx.ensure(o, z, n, spec, 'out[p] == %s of the rows up to p of its group' % what, rel=rel, facts=[(f, lambda p: p, lambda p: (I(p),), 1) for f in [F]])
        nul = z
        ctx.calls(fn, [x.base, o.base, a.base if a else var('in', 64), nu, n, t.base if t else nul, inc.base if inc else nul, rst.base if rst else nul, rate])
    return s


def times(e, a, b):
    return tm.fop('fmul', (a, b), a.w) if e in FLOATS else mul(a, b)


KEYS = (8, 16, 32, 64)
MODES = ('plain', 'filter', 'reset', 'filter+reset')


def cases(prop, tier):
    out = []
    for nf, func in enumerate(('CUMSUM', 'CUMPROD', 'CUMMIN', 'CUMMAX', 'CUMNANMIN', 'CUMNANMAX', 'FINDNTH')):
        for j, d in enumerate(TYPES):
            if func == 'FINDNTH' and d != I32:
                continue
            for m, mode in enumerate(MODES):
                if func == 'FINDNTH' and 'reset' in mode:
                    continue
                for kb in (KEYS if tier != 'quick' or func == 'FINDNTH' else (KEYS[(j + m + nf) % 4],)):
                    out.append(Case('%s %s idx%d %s' % (func, NAMES[d], kb, mode), 'Ema', case(func, d, kb, mode), cost=3))
    return out
