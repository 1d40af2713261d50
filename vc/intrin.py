"""Semantics of the LLVM / x86 intrinsics that occur in the extracted code."""
from . import term as tm
from .term import TRUE, FALSE, const, add, sub, mulc, eq, ult, slt, bor, bnot, ite, extract, concat, zext, sext, isc, band
from .sym import Vec, Agg, Blk, Rng, lanes1, lanes2, Unsupported


def smin(a, b):
    return ite(slt(a, b), a, b)


def smax(a, b):
    return ite(slt(b, a), a, b)


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(b, a), a, b)


def iabs(a):
    return ite(slt(a, const(0, a.w)), mulc(a, -1), a)


def bswap(a):
    n = a.w // 8
    return concat(*[extract(a, 8 * i + 7, 8 * i) for i in range(n)])


def ctpop(a):
    r = const(0, a.w)
    for i in range(a.w):
        r = add(r, zext(extract(a, i, i), a.w))
    return r


def clz(a):
    r = const(a.w, a.w)
    for i in range(a.w):
        r = ite(eq(extract(a, i, i), const(1, 1)), const(a.w - 1 - i, a.w), r)
    return r


def ctz(a):
    r = const(a.w, a.w)
    for i in reversed(range(a.w)):
        r = ite(eq(extract(a, i, i), const(1, 1)), const(i, a.w), r)
    return r


def sat_s(x, w):
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    r = extract(x, w - 1, 0)
    r = ite(slt(const(hi, x.w), x), const(hi, w), r)
    return ite(slt(x, const(lo, x.w)), const(lo, w), r)


def sat_u(x, w):
    r = extract(x, w - 1, 0)
    r = ite(slt(const((1 << w) - 1, x.w), x), const(-1, w), r)
    return ite(slt(x, const(0, x.w)), const(0, w), r)


def fmin_avx(a, b):        # MINPS: second operand unless first < second
    return ite(tm.f_lt(a, b), a, b)


def fmax_avx(a, b):
    return ite(tm.f_lt(b, a), a, b)


def fminnum(a, b):
    return ite(tm.f_isnan(a), b, ite(tm.f_isnan(b), a, ite(tm.f_lt(b, a), b, a)))


def fmaxnum(a, b):
    return ite(tm.f_isnan(a), b, ite(tm.f_isnan(b), a, ite(tm.f_lt(a, b), b, a)))


def fround(kind):
    return lambda a: tm.fop('fround', (a,), a.w, kind)


IGN = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.va_start', 'llvm.va_end',
       'llvm.stackrestore', 'llvm.donothing', 'llvm.prefetch', 'llvm.x86.sse2.pause')


def call(ex, name, I, a, st):
    for p in IGN:
        if name.startswith(p):
            return None
    b = name.split('.')
    if b[1] in ('memcpy', 'memmove'):
        return memcpy(ex, a[0], a[1], a[2], st)
    if b[1] == 'memset':
        return memset(ex, a[0], a[1], a[2], st)
    if b[1] in ('expect', 'ssa', 'launder', 'strip'):
        return a[0]
    f2 = {'smin': smin, 'smax': smax, 'umin': umin, 'umax': umax, 'minnum': fminnum, 'maxnum': fmaxnum}.get(b[1])
    if f2:
        return lanes2(f2, a[0], a[1])
    f1 = {'abs': iabs, 'bswap': bswap, 'ctpop': ctpop, 'ctlz': clz, 'cttz': ctz, 'fabs': tm.f_abs, 'floor': fround('floor'),
          'ceil': fround('ceil'), 'trunc': fround('trunc'), 'round': fround('away'), 'roundeven': fround('even'),
          'rint': fround('even'), 'nearbyint': fround('even'), 'sqrt': lambda x: tm.fop('fsqrt', (x,), x.w)}.get(b[1])
    if f1:
        return lanes1(f1, a[0])
    if b[1] == 'fmuladd':
        return map3(lambda x, y, z: tm.fop('fadd', (tm.fop('fmul', (x, y), x.w), z), x.w), *a[:3])
    if b[1] == 'fma':
        return map3(lambda x, y, z: tm.fop('ffma', (x, y, z), x.w), *a[:3])
    if b[1] == 'copysign':
        return lanes2(lambda x, y: concat(extract(y, y.w - 1, y.w - 1), extract(x, x.w - 2, 0)), a[0], a[1])
    if b[1] == 'is' and b[2] == 'fpclass':
        m = a[1].x

        def cls(x):
            w = x.w
            sg = eq(extract(x, w - 1, w - 1), const(1, 1))
            mag = extract(x, w - 2, 0)
            mb = {32: 23, 64: 52, 80: 64, 16: 10}[w]
            ex_ = extract(x, w - 2, mb)
            nan = tm.f_isnan(x)
            inf = eq(mag, const(tm.f_exp_all(w), w - 1))
            e0 = eq(ex_, const(0, ex_.w))
            z = eq(mag, const(0, w - 1))
            nrm = band(bnot(e0), bnot(eq(ex_, const(-1, ex_.w))))
            sub_ = band(e0, bnot(z))
            r = FALSE
            if m & 3 == 3:
                r = bor(r, nan)
            elif m & 3:
                raise Unsupported(name)
            for c, neg_, pos in ((inf, 4, 512), (nrm, 8, 256), (sub_, 16, 128), (z, 32, 64)):
                if m & neg_ and m & pos:
                    r = bor(r, c)
                elif m & neg_:
                    r = bor(r, band(sg, c))
                elif m & pos:
                    r = bor(r, band(bnot(sg), c))
            return r
        return lanes1(cls, a[0])
    if b[1] in ('uadd', 'sadd', 'usub', 'ssub', 'umul', 'smul') and b[2] == 'with':
        x, y = a
        w = x.w
        ext = zext if b[1][0] == 'u' else sext
        ww = 2 * w
        op = {'add': add, 'sub': sub, 'mul': tm.mul}[b[1][1:]]
        full = op(ext(x, ww), ext(y, ww))
        r = op(x, y)
        return Agg([r, bnot(eq(full, ext(r, ww)))])
    if b[1] in ('uadd', 'sadd', 'usub', 'ssub') and b[2] == 'sat':
        s = b[1][0] == 's'
        ext = sext if s else zext
        op = add if 'add' in b[1] else sub
        return lanes2(lambda x, y: (sat_s if s else sat_u)(op(ext(x, x.w + 2), ext(y, x.w + 2)), x.w), a[0], a[1])
    if b[1] in ('fshl', 'fshr'):
        return lanes3sh(b[1], a)
    if b[1] == 'vector' and b[2] == 'reduce':
        v = a[-1]
        f = {'add': add, 'or': tm.bvor, 'and': tm.bvand, 'xor': tm.bvxor, 'smin': smin, 'smax': smax, 'umin': umin, 'umax': umax}.get(b[3])
        if f:
            r = v.l[0]
            for x in v.l[1:]:
                r = f(r, x)
            return r
    if b[1] == 'x86':
        return x86(ex, name, I, a, st)
    if b[1] in ('stacksave',):
        return const(0, 64)
    if b[1] == 'trap':
        ex.oblige(st, 'trap', FALSE, 'trap executed')
        return None
    if name in ('llvm.readcyclecounter',):
        return tm.fresh('cycles', 64)
    raise Unsupported('intrinsic ' + name)


def lanes3sh(k, a):
    def f(x, y, z):
        w = x.w
        if not isc(z):
            raise Unsupported('variable funnel shift')
        s = z.x % w
        if s == 0:
            return x if k == 'fshl' else y
        full = concat(x, y)
        if k == 'fshl':
            return extract(full, 2 * w - 1 - s, w - s)
        return extract(full, w - 1 + s, s)
    return map3(f, *a)


def map3(f, x, y, z):
    if isinstance(x, Vec):
        return Vec([f(p, q, r) for p, q, r in zip(x.l, y.l, z.l)])
    return f(x, y, z)


def x86(ex, name, I, a, st):
    n = name[len('llvm.x86.'):]
    if n in ('avx.min.ps.256', 'avx.min.pd.256', 'sse.min.ps', 'sse2.min.pd'):
        return lanes2(fmin_avx, a[0], a[1])
    if n in ('avx.max.ps.256', 'avx.max.pd.256', 'sse.max.ps', 'sse2.max.pd'):
        return lanes2(fmax_avx, a[0], a[1])
    if n in ('avx.round.ps.256', 'avx.round.pd.256', 'sse41.round.ps', 'sse41.round.pd'):
        imm = a[1].x
        k = {0: 'even', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'even'}[imm & 7]
        return lanes1(fround(k), a[0])
    if n in ('avx2.permd', 'avx2.permps'):
        x, m = a
        out = []
        for c in m.l:
            if isc(c):
                out.append(x.l[c.x & 7])
            else:
                r = x.l[0]
                for q in range(1, 8):
                    r = ite(eq(extract(c, 2, 0), const(q, 3)), x.l[q], r)
                out.append(r)
        return Vec(out)
    if n == 'avx2.pshuf.b' or n == 'ssse3.pshuf.b.128':
        x, m = a
        out = []
        for h in range(0, len(x.l), 16):
            src = x.l[h:h + 16]
            for j in range(16):
                c = m.l[h + j]
                if isc(c):
                    out.append(const(0, 8) if c.x & 0x80 else src[c.x & 15])
                else:
                    r = src[0]
                    for q in range(1, 16):
                        r = ite(eq(extract(c, 3, 0), const(q, 4)), src[q], r)
                    out.append(ite(eq(extract(c, 7, 7), const(1, 1)), const(0, 8), r))
        return Vec(out)
    if n in ('avx2.packsswb', 'avx2.packssdw', 'avx2.packuswb', 'avx2.packusdw'):
        x, y = a
        w = x.l[0].w // 2
        f = sat_s if 'packss' in n else sat_u
        h = len(x.l) // 2
        out = []
        for half in range(2):
            out += [f(v, w) for v in x.l[half * h:(half + 1) * h]]
            out += [f(v, w) for v in y.l[half * h:(half + 1) * h]]
        return Vec(out)
    if n in ('sse2.packsswb.128', 'sse2.packssdw.128'):
        w = a[0].l[0].w // 2
        return Vec([sat_s(v, w) for v in a[0].l] + [sat_s(v, w) for v in a[1].l])
    if n.startswith('avx2.psrl.') or n.startswith('avx2.psll.') or n.startswith('avx2.psra.'):
        cnt = a[1]
        if isinstance(cnt, Vec):
            low = concat(*reversed(cnt.l[:64 // cnt.l[0].w])) if cnt.l[0].w < 64 else cnt.l[0]
        else:
            low = zext(cnt, 64)
        op = n.split('.')[1]

        def f(x):
            w = x.w
            big = ult(const(w - 1, 64), low)
            s = extract(low, w - 1, 0)
            if op == 'psll':
                return ite(big, const(0, w), tm.shl(x, s))
            if op == 'psrl':
                return ite(big, const(0, w), tm.lshr(x, s))
            return ite(big, tm.ashr(x, const(w - 1, w)), tm.ashr(x, s))
        return lanes1(f, a[0])
    if n in ('avx.movmsk.ps.256', 'avx.movmsk.pd.256', 'avx2.pmovmskb', 'sse.movmsk.ps', 'sse2.movmsk.pd', 'sse2.pmovmskb.128'):
        l = a[0].l
        bits = [extract(v, v.w - 1, v.w - 1) for v in l]
        return zext(concat(*reversed(bits)), 32)
    if n.startswith('avx2.gather'):
        raise Unsupported(name)
    if n in ('rdtsc',):
        return tm.fresh('tsc', 64)
    if n.startswith('sse42.crc32.32'):
        w = a[1].w
        return tm.mk('crc32c', (a[0], a[1]), a[0].w)
    if n in ('avx.blendv.ps.256', 'avx.blendv.pd.256', 'avx2.pblendvb'):
        return map3(lambda x, y, m: ite(eq(extract(m, m.w - 1, m.w - 1), const(1, 1)), y, x), *a)
    if n in ('avx.cmp.ps.256', 'avx.cmp.pd.256'):
        raise Unsupported(name)
    if n == 'avx.vzeroupper' or n == 'avx.vzeroall':
        return None
    if n in ('avx.rcp.ps.256', 'avx.rsqrt.ps.256'):
        return lanes1(lambda x: tm.fop(n, (x,), x.w), a[0])
    if n == 'avx2.phadd.d' or n == 'avx2.phadd.w':
        x, y = a
        h = len(x.l) // 2
        out = []
        for half in range(2):
            for v in (x, y):
                l = v.l[half * h:(half + 1) * h]
                out += [add(l[2 * i], l[2 * i + 1]) for i in range(h // 2)]
        return Vec(out)
    if n in ('avx.hadd.ps.256', 'avx.hadd.pd.256'):
        x, y = a
        h = len(x.l) // 2
        out = []
        for half in range(2):
            for v in (x, y):
                l = v.l[half * h:(half + 1) * h]
                out += [tm.fop('fadd', (l[2 * i], l[2 * i + 1]), l[0].w) for i in range(h // 2)]
        return Vec(out)
    raise Unsupported('intrinsic ' + name)


def memset(ex, p, v, n, st):
    alts = ex.lookup(p)
    if len(alts) != 1:
        if isc(n) and n.x == 0:
            return None
        raise Unsupported('memset target')
    c, r, off = alts[0]
    idx, s = ex.to_elem(r, off, st)
    if s:
        raise Unsupported('memset misaligned')
    g = r.gran
    val = concat(*([v] * g))
    cnt = count(ex, n, g, st)
    if cnt is None:
        raise Unsupported('memset length %r (gran %d)' % (n, g))
    if ex.mode == 'real':
        if r.len is not None:
            ex.oblige(st, 'write-in-bounds', bor(eq(cnt, const(0, 64)), band(tm.sle(const(0, 64), idx), tm.sle(const(0, 64), cnt), tm.sle(add(idx, cnt), r.len))), 'memset ' + r.name)
        if not r.writable:
            ex.oblige(st, 'frame', FALSE, 'write to read-only ' + r.name)
    if isc(cnt) and cnt.x <= 64:
        if cnt.x:
            ex.push_blk(st, r, idx, (val,) * cnt.x)
        return None
    k = tm.fresh('k', 64)
    st.mem[r] = Rng(idx, add(idx, cnt), k, val, st.mem.get(r))
    return None


def count(ex, n, g, st):
    """byte count -> element count"""
    if g == 1:
        return n
    c, ms = tm._lin_parts(n)
    sg = lambda k: k - (1 << 64) if k >> 63 else k
    if sg(c) % g == 0 and all(sg(k) % g == 0 for k in ms.values()):
        return tm._lin_mk(sg(c) // g, {m: sg(k) // g for m, k in ms.items()}, 64)
    lg = g.bit_length() - 1
    if ex.prove(st, eq(extract(n, lg - 1, 0), const(0, lg))) or ex.mode == 'disc':
        return ex.divexact(n, lg)
    return None


def memcpy(ex, d, s, n, st):
    if isc(n):
        if n.x == 0:
            return None
        if n.x <= 64:
            v = ex.load_bytes(st, s, n.x)
            ex.store_bytes(st, d, v)
            return None
    da, sa = ex.lookup(d), ex.lookup(s)
    if len(da) != 1 or len(sa) != 1:
        raise Unsupported('memcpy pointers')
    rd, rs = da[0][1], sa[0][1]
    di, x = ex.to_elem(rd, da[0][2], st)
    si, y = ex.to_elem(rs, sa[0][2], st)
    if x or y or rd.gran != rs.gran:
        raise Unsupported('memcpy granularity %d %d' % (rd.gran, rs.gran))
    cnt = count(ex, n, rd.gran, st)
    if cnt is None:
        raise Unsupported('memcpy length')
    if ex.mode == 'real':
        for r, i, w in ((rd, di, True), (rs, si, False)):
            if r.len is not None:
                ex.oblige(st, 'write-in-bounds' if w else 'read-in-bounds',
                          bor(eq(cnt, const(0, 64)), band(tm.sle(const(0, 64), i), tm.sle(const(0, 64), cnt), tm.sle(add(i, cnt), r.len))), 'memcpy ' + r.name)
        if not rd.writable:
            ex.oblige(st, 'frame', FALSE, 'write to read-only ' + rd.name)
    k = tm.fresh('k', 64)
    inr = st.copy().assume(tm.sle(di, k), slt(k, add(di, cnt)))
    f = ex.read_elem(inr, rs, add(si, sub(k, di)))
    st.mem[rd] = Rng(di, add(di, cnt), k, f, st.mem.get(rd))
    return None
