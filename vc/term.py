"""Hash-consed term DAG (bit-vectors and booleans) with normalising constructors.

Width 0 is Bool.  Every other width is a bit-vector.  Floating-point values are
carried as their bit patterns; fcmp/fneg/fabs are exact bit formulas, the
arithmetic ops are nodes ('fadd', ...) that the solver layer treats either as
uninterpreted or with the SMT floating-point theory.
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'a', 'w', 'id', 'x', '_fv')

    def __init__(self, op, a, w, x, id):
        self.op = op
        self.a = a
        self.w = w
        self.x = x
        self.id = id
        self._fv = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, a, w, x=None):
    k = (op, w, x, tuple([t.id for t in a]))
    r = _tab.get(k)
    if r is None:
        r = T(op, tuple(a), w, x, len(_tab))
        _tab[k] = r
    return r


def mask(w):
    return (1 << w) - 1


TRUE = mk('true', (), 0)
FALSE = mk('false', (), 0)


def const(v, w):
    return mk('c', (), w, v & mask(w))


def boolc(b):
    return TRUE if b else FALSE


_vars = {}


def var(name, w):
    r = mk('v', (), w, name)
    _vars[r.id] = r
    return r


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w)


def uf(name, args, w):
    """application of an uninterpreted function"""
    return mk('uf', args, w, name)


def isc(t):
    return t.op == 'c'


def sval(t):
    v = t.x
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ---------------------------------------------------------------- linear sums
# 'lin': x = (const, ((coef, (atom ids...)), ...)) ; a = atoms (distinct, sorted)

def _lin_parts(t):
    """-> (const, {monomial(tuple of T): coef})"""
    if t.op == 'c':
        return t.x, {}
    if t.op == 'lin':
        atoms = {u.id: u for u in t.a}
        c, ms = t.x
        return c, {tuple(atoms[i] for i in m): k for (k, m) in ms}
    if t.op == 'mulm':
        return 0, {t.a: 1}
    return 0, {(t,): 1}


def _lin_mk(c, ms, w):
    m = mask(w)
    c &= m
    items = []
    for mon, k in ms.items():
        k &= m
        if k:
            items.append((mon, k))
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        mon = items[0][0]
        if len(mon) == 1:
            return mon[0]
        return mk('mulm', mon, w)
    items.sort(key=lambda it: tuple(u.id for u in it[0]))
    atoms = {}
    for mon, k in items:
        for u in mon:
            atoms[u.id] = u
    al = [atoms[i] for i in sorted(atoms)]
    return mk('lin', al, w, (c, tuple((k, tuple(u.id for u in mon)) for mon, k in items)))


def add(*ts):
    w = ts[0].w
    c = 0
    ms = {}
    for t in ts:
        if t.op == 'c':
            c += t.x
            continue
        c2, m2 = _lin_parts(t)
        c += c2
        for mon, k in m2.items():
            ms[mon] = ms.get(mon, 0) + k
    # ite(c,x,0)+ite(c,0,y) stays as is
    return _lin_mk(c, ms, w)


def neg(t):
    return mulc(t, -1)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    return add(a, mulc(b, -1))


def mulc(t, k):
    w = t.w
    k &= mask(w)
    if k == 1:
        return t
    c, ms = _lin_parts(t)
    return _lin_mk(c * k, {m: v * k for m, v in ms.items()}, w)


def mul(a, b):
    if isc(a):
        return mulc(b, a.x)
    if isc(b):
        return mulc(a, b.x)
    w = a.w
    ca, ma = _lin_parts(a)
    cb, mb = _lin_parts(b)
    na = len(ma) + (1 if ca else 0)
    nb = len(mb) + (1 if cb else 0)
    if na * nb <= (24 if w == 64 else 4):
        ms = {}
        for m1, k1 in ma.items():
            for m2, k2 in mb.items():
                mon = tuple(sorted(m1 + m2, key=lambda u: u.id))
                ms[mon] = ms.get(mon, 0) + k1 * k2
            if cb:
                ms[m1] = ms.get(m1, 0) + k1 * cb
        if ca:
            for m2, k2 in mb.items():
                ms[m2] = ms.get(m2, 0) + k2 * ca
        return _lin_mk(ca * cb, ms, w)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), w)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    return mk('not', (a,), 0)


def band(*ts):
    s = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            st.extend(t.a)
            continue
        s[t.id] = t
    for t in s.values():
        n = bnot(t)
        if n.id in s:
            return FALSE
    if not s:
        return TRUE
    l = [s[i] for i in sorted(s)]
    if len(l) == 1:
        return l[0]
    return mk('and', l, 0)


def bor(*ts):
    return bnot(band(*[bnot(t) for t in ts]))


def implies(a, b):
    return bor(bnot(a), b)


def bxor(a, b):
    return bnot(beq(a, b))


def beq(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if bnot(a) is b:
        return FALSE
    if a.op == 'not' and b.op == 'not':
        a, b = a.a[0], b.a[0]
    if a.op == 'not':
        return bnot(beq(a.a[0], b))
    if b.op == 'not':
        return bnot(beq(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('iff', (a, b), 0)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return bite(c.a[0], b, a)
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    return mk('bite', (c, a, b), 0)


def ite(c, a, b):
    if a.w == 0:
        return bite(c, a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if b.op == 'ite' and b.a[1] is a:
        return ite(bor(c, b.a[0]), a, b.a[2])
    if a.op == 'ite' and a.a[2] is b:
        return ite(band(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == 'ite' and b.a[2] is a:
        return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if c.op == 'eq' and ((c.a[0] is a and c.a[1] is b) or (c.a[0] is b and c.a[1] is a)):
        return b
    return mk('ite', (c, a, b), a.w)


def b2bv(c, w):
    return ite(c, const(1, w), const(0, w))


# ---------------------------------------------------------------- extract/concat
def extract(t, hi, lo):
    w = hi - lo + 1
    if lo == 0 and w == t.w:
        return t
    o = t.op
    if o == 'c':
        return const(t.x >> lo, w)
    if o in ('sdiv', 'udiv') and lo == 0:
        # also at a zero divisor and for the smallest value divided by -1 the low words agree
        q = _narrow2(t.a[0], t.a[1], 'sext' if o == 'sdiv' else 'zext')
        if q and q[0].w >= w:
            return extract((sdiv if o == 'sdiv' else udiv)(*q), w - 1, 0)
    if o == 'extract':
        l0 = t.x[1]
        return extract(t.a[0], hi + l0, lo + l0)
    if o == 'concat':   # a[0] is most significant
        pos = 0
        out = []
        for p in reversed(t.a):
            plo, phi = pos, pos + p.w - 1
            l, h = max(lo, plo), min(hi, phi)
            if l <= h:
                out.append(extract(p, h - plo, l - plo))
            pos += p.w
        return concat(*reversed(out))
    if o == 'sext':
        b = t.a[0]
        if hi < b.w:
            return extract(b, hi, lo)
        if lo == 0:
            return sext(b, w)
        if lo < b.w:
            return sext(extract(b, b.w - 1, lo), w)
        return sext(extract(b, b.w - 1, b.w - 1), w)
    if o == 'ite':
        return ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo))
    if o in ('bvand', 'bvor', 'bvxor'):
        f = {'bvand': bvand, 'bvor': bvor, 'bvxor': bvxor}[o]
        return f(*[extract(u, hi, lo) for u in t.a])
    if lo == 0 and o in ('lin', 'mulm', 'mul'):
        if o == 'mul':
            return mul(extract(t.a[0], hi, 0), extract(t.a[1], hi, 0))
        c, ms = _lin_parts(t)
        r = const(c, w)
        for mon, k in ms.items():
            p = const(k, w)
            for u in mon:
                p = mul(p, extract(u, hi, 0))
            r = add(r, p)
        return r
    return mk('extract', (t,), w, (hi, lo))


def concat(*ts):
    """most significant first"""
    l = []
    for t in ts:
        if t.op == 'concat':
            l.extend(t.a)
        else:
            l.append(t)
    if not l:
        raise ValueError
    out = [l[0]]
    for t in l[1:]:
        p = out[-1]
        if p.op == 'c' and t.op == 'c':
            out[-1] = const((p.x << t.w) | t.x, p.w + t.w)
            continue
        if p.op == 'extract' and t.op == 'extract' and p.a[0] is t.a[0] and p.x[1] == t.x[0] + 1:
            out[-1] = extract(p.a[0], p.x[0], t.x[1])
            continue
        if p.op == 'extract' and p.a[0] is t and p.x[1] == t.w and p.x[0] >= t.w:
            out[-1] = extract(t, p.x[0], 0)
            continue
        if p.op == 'ite' and t.op == 'ite' and p.a[0] is t.a[0] and (
                p.w + t.w <= 64) and all(isc(z) for z in p.a[1:] + t.a[1:]):
            out[-1] = ite(p.a[0], concat(p.a[1], t.a[1]), concat(p.a[2], t.a[2]))
            continue
        if p.op == 'c' and p.x == 0 and t.op == 'ite' and isc(t.a[1]) and isc(t.a[2]):
            out[-1] = ite(t.a[0], concat(p, t.a[1]), concat(p, t.a[2]))
            continue
        if p.op == 'ite' and t.op == 'ite' and p.a[0] is t.a[0] and _joinable(p.a[1], t.a[1]) and _joinable(p.a[2], t.a[2]):
            out[-1] = ite(p.a[0], concat(p.a[1], t.a[1]), concat(p.a[2], t.a[2]))
            continue
        if p.op == t.op and p.op in ('bvxor', 'bvand', 'bvor') and len(p.a) == len(t.a):
            # re-join bitwise ops over adjacent slices of the same operands
            z = _rejoin(p, t)
            if z is not None:
                out[-1] = z
                continue
        out.append(t)
    if len(out) == 1:
        return out[0]
    w = sum(t.w for t in out)
    return mk('concat', out, w)


def _joinable(p, t):
    return (isc(p) and isc(t)) or (p.op == 'extract' and t.op == 'extract' and p.a[0] is t.a[0] and p.x[1] == t.x[0] + 1)


def _rejoin(p, t):
    used = set()
    parts = []
    for u in p.a:
        hit = None
        for i, v in enumerate(t.a):
            if i in used:
                continue
            if _joinable(u, v):
                hit = i
                break
        if hit is None:
            return None
        used.add(hit)
        parts.append(concat(u, t.a[hit]))
    f = {'bvand': bvand, 'bvor': bvor, 'bvxor': bvxor}[p.op]
    return f(*parts)


def zext(t, w):
    if t.w == w:
        return t
    if t.w == 0:
        return b2bv(t, w)
    if isc(t):
        return const(t.x, w)
    return concat(const(0, w - t.w), t)


def sext(t, w):
    if t.w == w:
        return t
    if t.w == 0:
        return ite(t, const(-1, w), const(0, w))
    if isc(t):
        return const(sval(t), w)
    if t.op == 'sext':
        return sext(t.a[0], w)
    if t.op == 'ite' and (isc(t.a[1]) or isc(t.a[2])):
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op == 'concat' and isc(t.a[0]) and not (t.a[0].x >> (t.a[0].w - 1)):
        return zext(t, w)
    return mk('sext', (t,), w)


def trunc(t, w):
    if w == 0:
        return eq(extract(t, 0, 0), const(1, 1))
    return extract(t, w - 1, 0)


# ---------------------------------------------------------------- bitwise
def _nary(op, ts, w):
    l = []
    c = None
    for t in ts:
        for u in (t.a if t.op == op else (t,)):
            if u.op == 'c':
                if c is None:
                    c = u.x
                elif op == 'bvand':
                    c &= u.x
                elif op == 'bvor':
                    c |= u.x
                else:
                    c ^= u.x
            else:
                l.append(u)
    return c, l


def _isb(t):
    """ite(c, all-ones, 0) pattern -> c"""
    if t.op == 'ite' and isc(t.a[1]) and isc(t.a[2]):
        if t.a[1].x == mask(t.w) and t.a[2].x == 0:
            return t.a[0]
        if t.a[2].x == mask(t.w) and t.a[1].x == 0:
            return bnot(t.a[0])
    return None


def bvand(*ts):
    w = ts[0].w
    if w == 0:
        return band(*ts)
    c, l = _nary('bvand', ts, w)
    d = {t.id: t for t in l}
    l = [d[i] for i in sorted(d)]
    if c == 0:
        return const(0, w)
    if c is not None and c == mask(w):
        c = None
    for t in l:
        if t.op == 'bvxor' and any(isc(u) and u.x == mask(w) for u in t.a):
            rest = bvxor(*[u for u in t.a if not (isc(u) and u.x == mask(w))])
            if rest.id in d:
                return const(0, w)
    # ite masks
    for i, t in enumerate(l):
        b = _isb(t)
        if b is not None:
            rest = l[:i] + l[i + 1:]
            if c is not None:
                rest = rest + [const(c, w)]
            if not rest:
                return t
            return ite(b, bvand(*rest) if len(rest) > 1 else rest[0], const(0, w))
    if c is not None:
        if not l:
            return const(c, w)
        r = l[0] if len(l) == 1 else mk('bvand', l, w)
        # const mask: decompose in runs
        if len(l) == 1 and r.op == 'ite' and (isc(r.a[1]) or isc(r.a[2])):
            return ite(r.a[0], bvand(r.a[1], const(c, w)), bvand(r.a[2], const(c, w)))
        parts = []
        pos = w
        nruns = 0
        while pos > 0:
            bit = (c >> (pos - 1)) & 1
            q = pos - 1
            while q > 0 and ((c >> (q - 1)) & 1) == bit:
                q -= 1
            nruns += 1
            if bit:
                parts.append(('x', pos - 1, q))
            else:
                parts.append(('0', pos - q))
            pos = q
        if nruns <= 4:
            return concat(*[extract(r, p[1], p[2]) if p[0] == 'x' else const(0, p[1]) for p in parts])
        return mk('bvand', l + [const(c, w)], w)
    if len(l) == 1:
        return l[0]
    return mk('bvand', l, w)


def bvor(*ts):
    w = ts[0].w
    if w == 0:
        return bor(*ts)
    c, l = _nary('bvor', ts, w)
    d = {t.id: t for t in l}
    l = [d[i] for i in sorted(d)]
    if c == mask(w):
        return const(c, w)
    if c == 0:
        c = None
    for i, t in enumerate(l):
        b = _isb(t)
        if b is not None:
            rest = l[:i] + l[i + 1:]
            if c is not None:
                rest = rest + [const(c, w)]
            if not rest:
                return t
            return ite(b, const(-1, w), bvor(*rest) if len(rest) > 1 else rest[0])
    if not l:
        return const(c or 0, w)
    if c is not None:
        if len(l) == 1 and l[0].op == 'ite' and (isc(l[0].a[1]) or isc(l[0].a[2])):
            r = l[0]
            return ite(r.a[0], bvor(r.a[1], const(c, w)), bvor(r.a[2], const(c, w)))
        parts = []
        r = l[0] if len(l) == 1 else mk('bvor', l, w)
        pos = w
        nruns = 0
        while pos > 0:
            bit = (c >> (pos - 1)) & 1
            q = pos - 1
            while q > 0 and ((c >> (q - 1)) & 1) == bit:
                q -= 1
            nruns += 1
            parts.append((bit, pos - 1, q))
            pos = q
        if nruns <= 4:
            return concat(*[const(-1, hi - lo + 1) if b else extract(r, hi, lo) for b, hi, lo in parts])
        return mk('bvor', l + [const(c, w)], w)
    if len(l) == 1:
        return l[0]
    # or of disjoint concats (assembly of bytes)
    if len(l) == 2:
        z = _disjoint_or(l[0], l[1])
        if z is not None:
            return z
    elif all(t.op in ('concat', 'extract', 'lin') for t in l):
        acc = l[0]
        rest = []
        for t in l[1:]:
            z = _disjoint_or(acc, t)
            if z is None:
                rest.append(t)
            else:
                acc = z
        if not rest:
            return acc
        if len(rest) < len(l) - 1:
            return bvor(acc, *rest)
    # (a&b)|(a&~b) not handled
    return mk('bvor', l, w)


def _segs(t):
    if t.op == 'concat':
        pos = 0
        out = []
        for p in reversed(t.a):
            out.append((pos, p))
            pos += p.w
        return out
    if t.op == 'lin':
        c, ms = t.x
        if c == 0 and len(ms) == 1 and len(ms[0][1]) == 1:
            k = ms[0][0]
            if k & (k - 1) == 0:
                s = k.bit_length() - 1
                atom = t.a[0]
                return [(0, const(0, s)), (s, extract(atom, t.w - s - 1, 0))]
    return [(0, t)]


def _disjoint_or(a, b):
    sa, sb = _segs(a), _segs(b)
    cuts = sorted(set([p for p, _ in sa] + [p + s.w for p, s in sa] + [p for p, _ in sb] + [p + s.w for p, s in sb]))
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        def piece(ss):
            for p, s in ss:
                if p <= lo and hi <= p + s.w:
                    return extract(s, hi - 1 - p, lo - p)
        x, y = piece(sa), piece(sb)
        if isc(x) and x.x == 0:
            out.append(y)
        elif isc(y) and y.x == 0:
            out.append(x)
        else:
            return None
    return concat(*reversed(out))


def bvxor(*ts):
    w = ts[0].w
    if w == 0:
        r = ts[0]
        for t in ts[1:]:
            r = bxor(r, t)
        return r
    c, l = _nary('bvxor', ts, w)
    d = {}
    for t in l:
        if t.id in d:
            del d[t.id]
        else:
            d[t.id] = t
    l = [d[i] for i in sorted(d)]
    if not l:
        return const(c or 0, w)
    if c:
        if len(l) == 1 and l[0].op == 'ite' and (isc(l[0].a[1]) or isc(l[0].a[2])):
            r = l[0]
            return ite(r.a[0], bvxor(r.a[1], const(c, w)), bvxor(r.a[2], const(c, w)))
        if len(l) == 1 and l[0].op == 'ite' and c == mask(w):
            r = l[0]
            return ite(r.a[0], bvnot(r.a[1]), bvnot(r.a[2]))
        if len(l) == 1 and l[0].op == 'concat' and c == mask(w):
            return concat(*[bvnot(p) for p in l[0].a])
        return mk('bvxor', l + [const(c, w)], w)
    if len(l) == 1:
        return l[0]
    return mk('bvxor', l, w)


def bvnot(t):
    if t.w == 0:
        return bnot(t)
    return bvxor(t, const(-1, t.w))


# ---------------------------------------------------------------- shifts / div
def shl(a, b):
    if isc(b):
        if b.x >= a.w:
            return const(0, a.w)
        return mulc(a, 1 << b.x)
    if isc(a) and a.x == 0:
        return a
    return mk('shl', (a, b), a.w)


def lshr(a, b):
    if isc(b):
        if b.x >= a.w:
            return const(0, a.w)
        if b.x == 0:
            return a
        return zext(extract(a, a.w - 1, b.x), a.w)
    if isc(a) and a.x == 0:
        return a
    return mk('lshr', (a, b), a.w)


def ashr(a, b):
    if isc(b):
        s = min(b.x, a.w - 1)
        if s == 0:
            return a
        return sext(extract(a, a.w - 1, s), a.w)
    return mk('ashr', (a, b), a.w)


def _narrow2(a, b, op):
    """operands that are both extensions (op: sext or zext) of narrower words -> the narrower operands"""
    def src(t):
        if op == 'sext':
            return t.a[0] if t.op == 'sext' else None
        return concat(*t.a[1:]) if t.op == 'concat' and isc(t.a[0]) and t.a[0].x == 0 and len(t.a) >= 2 else None
    x, y = src(a), src(b)
    if x is None or y is None:
        if x is None and y is None:
            return None
        k, o = (b, x) if y is None else (a, y)
        if not isc(k):
            return None
        v = o.w
        q = const(k.x, v)
        if (sval(q) != sval(k)) if op == 'sext' else (q.x != k.x):
            return None
        return (x, q) if y is None else (q, y)
    v = max(x.w, y.w)
    ext = sext if op == 'sext' else zext
    return ext(x, v), ext(y, v)


def udiv(a, b):
    if isc(b):
        if b.x and b.x & (b.x - 1) == 0:
            return lshr(a, const(b.x.bit_length() - 1, a.w))
        if isc(a) and b.x:
            return const(a.x // b.x, a.w)
    return mk('udiv', (a, b), a.w)


def urem(a, b):
    if isc(b):
        if b.x and b.x & (b.x - 1) == 0:
            return bvand(a, const(b.x - 1, a.w))
        if isc(a) and b.x:
            return const(a.x % b.x, a.w)
    q = _narrow2(a, b, 'zext')
    if q:
        return zext(urem(*q), a.w)
    return mk('urem', (a, b), a.w)


def sdiv(a, b):
    if isc(b) and isc(a) and b.x:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    if isc(b) and b.x == 1:
        return a
    return mk('sdiv', (a, b), a.w)


def srem(a, b):
    if isc(b) and isc(a) and b.x:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, a.w)
    q = _narrow2(a, b, 'sext')
    if q:
        return sext(srem(*q), a.w)
    return mk('srem', (a, b), a.w)


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        return beq(a, b)
    if isc(a) and isc(b):
        return FALSE
    if isc(a):
        a, b = b, a
    w = a.w
    if isc(b):
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op == 'concat':
            r = []
            pos = w
            for p in a.a:
                if isc(p):
                    if p.x != (b.x >> (pos - p.w)) & mask(p.w):
                        return FALSE
                else:
                    r.append(eq(p, const(b.x >> (pos - p.w), p.w)))
                pos -= p.w
            if len(r) <= 2 or b.x == 0:
                return band(*r)
        if a.op == 'sext':
            u = a.a[0]
            if sval(b) == sval(const(b.x, u.w)):
                return eq(u, const(b.x, u.w))
            return FALSE
        if a.op == 'bvxor' and isc(a.a[-1]):
            rest = a.a[:-1]
            return eq(bvxor(*rest), const(b.x ^ a.a[-1].x, w))
    # move to one side for sums
    if a.op in ('lin', 'mulm') or b.op in ('lin', 'mulm'):
        ca, ma = _lin_parts(a)
        cb, mb = _lin_parts(b)
        m = mask(w)
        # cancel common monomials
        for mon in list(ma):
            if mon in mb and (ma[mon] - mb[mon]) & m == 0:
                del ma[mon]
                del mb[mon]
        if not ma and not mb:
            return boolc((ca - cb) & m == 0)
        c = (cb - ca) & m
        if not mb and len(ma) == 1:
            mon, k = next(iter(ma.items()))
            if len(mon) == 1 and k == 1:
                return eq2(mon[0], const(c, w))
            if len(mon) == 1 and k == m:
                return eq2(mon[0], const(-c, w))
        d = {}
        for mon, k in ma.items():
            d[mon] = k
        for mon, k in mb.items():
            d[mon] = d.get(mon, 0) - k
        # normal form: sum - positive leading
        items = sorted(d.items(), key=lambda it: tuple(u.id for u in it[0]))
        items = [(mn, k & m) for mn, k in items if k & m]
        if not items:
            return boolc(c == 0)
        if items[0][1] > m >> 1:
            items = [(mn, (-k) & m) for mn, k in items]
            c = (-c) & m
        pos = {mn: k for mn, k in items if k <= m >> 1}
        ngt = {mn: (-k) & m for mn, k in items if k > m >> 1}
        l = _lin_mk(0, pos, w)
        r = _lin_mk(c, ngt, w)
        if isc(l):
            l, r = r, l
        if l.id > r.id and not isc(r):
            l, r = r, l
        return mk('eq', (l, r), 0)
    return eq2(a, b)


def eq2(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return FALSE
    if isc(a):
        a, b = b, a
    if isc(b) and a.op not in ('lin', 'mulm', 'v', 'uf'):
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op in ('concat', 'sext', 'bvxor') and not getattr(eq2, 'rec', False):
            eq2.rec = True
            try:
                return eq(a, b)
            finally:
                eq2.rec = False
    if not isc(b) and a.id > b.id:
        a, b = b, a
    if a.op == 'concat' and b.op == 'concat':
        if [p.w for p in a.a] == [p.w for p in b.a]:
            r = [eq(p, q) for p, q in zip(a.a, b.a)]
            if FALSE in r:
                return FALSE
            if sum(1 for z in r if z is not TRUE) <= 1:
                return band(*r)
    return mk('eq', (a, b), 0)


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return boolc(a.x < b.x)
    if isc(b):
        if b.x == 0:
            return FALSE
        if b.x == 1:
            return eq(a, const(0, a.w))
        if a.op == 'concat' and isc(a.a[0]) and a.a[0].x == 0 and b.x > mask(a.w - a.a[0].w):
            return TRUE
    if isc(a):
        if a.x == 0:
            return bnot(eq(b, a))
        if a.x == mask(a.w):
            return FALSE
    if a.op == 'ite' and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
        return bite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if a.op == 'concat' and b.op == 'concat' and isc(a.a[0]) and isc(b.a[0]) and a.a[0].x == 0 and b.a[0].x == 0:
        z = min(a.a[0].w, b.a[0].w)
        return ult(extract(a, a.w - 1 - z, 0), extract(b, b.w - 1 - z, 0))
    if a.op == 'concat' and isc(b) and isc(a.a[0]) and a.a[0].x == 0:
        n = a.w - a.a[0].w
        if b.x <= mask(n):
            return ult(extract(a, n - 1, 0), const(b.x, n))
    if b.op == 'concat' and isc(a) and isc(b.a[0]) and b.a[0].x == 0:
        n = b.w - b.a[0].w
        if a.x <= mask(n):
            return ult(const(a.x, n), extract(b, n - 1, 0))
        return FALSE
    return mk('ult', (a, b), 0)


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return boolc(sval(a) < sval(b))
    w = a.w
    for p, q, sw in ((a, b, False), (b, a, True)):
        if p.op == 'ite' and isc(q) and (isc(p.a[1]) or isc(p.a[2])):
            if sw:
                return bite(p.a[0], slt(q, p.a[1]), slt(q, p.a[2]))
            return bite(p.a[0], slt(p.a[1], q), slt(p.a[2], q))
    za = a.op == 'concat' and isc(a.a[0]) and a.a[0].x == 0
    zb = b.op == 'concat' and isc(b.a[0]) and b.a[0].x == 0
    if (za or isc(a) and sval(a) >= 0) and (zb or isc(b) and sval(b) >= 0):
        return ult(a, b)
    if za and isc(b) and sval(b) <= 0:
        return FALSE
    if zb and isc(a) and sval(a) < 0:
        return TRUE
    if za and isc(b):
        return ult(a, b)
    # sign extension from the same width
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    if a.op == 'sext' and isc(b):
        u = a.a[0]
        lo, hi = -(1 << (u.w - 1)), (1 << (u.w - 1)) - 1
        v = sval(b)
        if v > hi:
            return TRUE
        if v <= lo:
            return FALSE
        return slt(u, const(v, u.w))
    if b.op == 'sext' and isc(a):
        u = b.a[0]
        lo, hi = -(1 << (u.w - 1)), (1 << (u.w - 1)) - 1
        v = sval(a)
        if v >= hi:
            return FALSE
        if v < lo:
            return TRUE
        return slt(const(v, u.w), u)
    if isc(b) and b.x == 1 << (w - 1):
        return FALSE
    if isc(a) and a.x == mask(w) >> 1:
        return FALSE
    if isc(a) and sval(a) == -1:
        return bnot(slt(b, const(0, w)))
    if isc(a):   # c < b   <=>  not (b < c+1)
        return bnot(slt(b, const(a.x + 1, w)))
    return mk('slt', (a, b), 0)


def sle(a, b):
    return bnot(slt(b, a))


# ---------------------------------------------------------------- floats
FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53), 80: (15, 64)}


def f_exp_all(w):
    """bit pattern of +inf"""
    if w == 32:
        return 0x7f800000
    if w == 64:
        return 0x7ff0000000000000
    if w == 16:
        return 0x7c00
    if w == 80:       # canonical x87 encodings only: the explicit integer bit is set
        return (0x7fff << 64) | (1 << 63)
    raise ValueError(w)


def f_isnan(a):
    w = a.w
    return ult(const(f_exp_all(w), w - 1), extract(a, w - 2, 0))


def f_lt(a, b):
    """ordered less-than"""
    if a is b:
        return FALSE
    if isc(a) and isc(b) and a.w in (32, 64):
        import struct
        f = {32: '<f', 64: '<d'}[a.w]
        g = lambda t: struct.unpack(f, t.x.to_bytes(t.w // 8, 'little'))[0]
        return boolc(g(a) < g(b))
    return mk('flt', (a, b), 0)


def f_eq(a, b):
    if a is b:
        return bnot(f_isnan(a))
    if isc(a) and isc(b) and a.w in (32, 64):
        import struct
        f = {32: '<f', 64: '<d'}[a.w]
        g = lambda t: struct.unpack(f, t.x.to_bytes(t.w // 8, 'little'))[0]
        return boolc(g(a) == g(b))
    if isc(a):
        a, b = b, a
    if isc(b) and b.x & (mask(b.w) >> 1) == 0:
        return eq(extract(a, a.w - 2, 0), const(0, a.w - 1))
    if isc(b) and (b.x & (mask(b.w) >> 1)) <= f_exp_all(b.w):
        return eq(a, b)
    if a.id > b.id:
        a, b = b, a
    return mk('feq', (a, b), 0)


def f_le(a, b):
    if a is b:
        return bnot(f_isnan(a))
    return bor(f_lt(a, b), f_eq(a, b))


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    uno = bor(f_isnan(a), f_isnan(b))
    if pred == 'uno':
        return uno
    if pred == 'ord':
        return bnot(uno)
    if pred == 'oeq':
        return f_eq(a, b)
    if pred == 'une':
        return bnot(f_eq(a, b))
    if pred == 'ueq':
        return bor(uno, f_eq(a, b))
    if pred == 'one':
        return bor(f_lt(a, b), f_lt(b, a))
    if pred == 'olt':
        return f_lt(a, b)
    if pred == 'ogt':
        return f_lt(b, a)
    if pred == 'ole':
        return f_le(a, b)
    if pred == 'oge':
        return f_le(b, a)
    inv = {'ult': 'oge', 'ugt': 'ole', 'ule': 'ogt', 'uge': 'olt'}
    return bnot(fcmp(inv[pred], a, b))


def f_neg(a):
    w = a.w
    return concat(bvnot(extract(a, w - 1, w - 1)), extract(a, w - 2, 0))


def f_abs(a):
    w = a.w
    return concat(const(0, 1), extract(a, w - 2, 0))


COMM = {'fadd', 'fmul'}


def _ck(t):
    return (t.op, t.x if t.op == 'uf' else '', t.id)


def fop(op, args, w, x=None):
    """float arithmetic node; x = rounding info etc."""
    if op in COMM and _ck(args[0]) > _ck(args[1]):
        args = (args[1], args[0])
    if op in ('sitofp', 'uitofp') and args[0].w <= 64:
        # int -> float depends only on the mathematical integer: normalise the operand to 64 bits
        x = args[0]
        if op == 'sitofp':
            x = sext(x, 64)
            if x.op == 'concat' and isc(x.a[0]) and (x.a[0].x >> (x.a[0].w - 1)) == 0:
                op = 'uitofp'
        else:
            x = zext(x, 64)
        return mk(op, (x,), w, None)
    return mk(op, args, w, x)


# ---------------------------------------------------------------- traversal
def subst(t, m, cache=None):
    """m: {T: T}; rebuilds with the smart constructors"""
    if cache is None:
        cache = {}
    keyids = {k.id for k in m}
    fvk = set()
    for k in m:
        if k.op != 'v':
            fvk = None
            break
        fvk.add(k.id)

    def go(u):
        r = cache.get(u.id)
        if r is not None:
            return r
        if u.id in keyids:
            r = m[u]
        elif not u.a:
            r = u
        elif fvk is not None and not (fvk & fv(u)):
            r = u
        else:
            r = rebuild(u, [go(z) for z in u.a])
        cache[u.id] = r
        return r
    return go(t)


def fv(u):
    """ids of free variables"""
    s = u._fv
    if s is None:
        if u.op == 'v':
            s = frozenset((u.id,))
        elif not u.a:
            s = frozenset()
        else:
            s = fv(u.a[0])
            for z in u.a[1:]:
                f2 = fv(z)
                if not f2 <= s:
                    s = s | f2
        u._fv = s
    return s


def rebuild(u, a):
    o = u.op
    if all(x is y for x, y in zip(a, u.a)):
        return u
    if o == 'lin':
        m = {old.id: new for old, new in zip(u.a, a)}
        c, ms = u.x
        r = const(c, u.w)
        for k, mon in ms:
            p = const(k, u.w)
            for i in mon:
                p = mul(p, m[i])
            r = add(r, p)
        return r
    if o == 'mulm':
        p = a[0]
        for z in a[1:]:
            p = mul(p, z)
        return p
    f = _RB.get(o)
    if f:
        return f(*a)
    if o == 'extract':
        return extract(a[0], u.x[0], u.x[1])
    if o == 'sext':
        return sext(a[0], u.w)
    if o == 'lut':
        return lut(u.x, a[0], u.w)
    if o == 'fisnan':
        return f_isnan(a[0])
    if o in COMM:
        return fop(o, tuple(a), u.w, u.x)
    return mk(o, tuple(a), u.w, u.x)


_RB = dict(ite=ite, bite=bite, concat=concat, bvand=bvand, bvor=bvor, bvxor=bvxor, mul=mul, shl=shl,
           lshr=lshr, ashr=ashr, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, eq=eq, ult=ult, slt=slt,
           iff=beq, flt=f_lt, feq=f_eq)
_RB['not'] = bnot
_RB['and'] = band


# ---------------------------------------------------------------- lookup tables
_luts = {}


def lut_register(name, vals, w):
    _luts[name] = (vals, w)


def lut(name, idx, w):
    """table lookup with symbolic index as a mux tree over index bits (ROBDD-like)."""
    vals, vw = _luts[name]
    n = len(vals)
    if isc(idx):
        return const(vals[idx.x], w) if idx.x < n else fresh('lutoob', w)
    nb = max(1, (n - 1).bit_length())
    bits = [eq(extract(idx, i, i), const(1, 1)) for i in range(nb)]
    bw = 8 if vw > 8 else vw

    def tree(vs, k):
        if len(vs) == 1 or all(v == vs[0] for v in vs):
            return const(vs[0], bw)
        h = 1 << (k - 1)
        if len(vs) <= h:
            return tree(vs, k - 1)
        return ite(bits[k - 1], tree(vs[h:], k - 1), tree(vs[:h], k - 1))
    parts = []
    for j in range(vw // bw):
        col = [(v >> (bw * j)) & mask(bw) for v in vals]
        parts.append(bdd_tree(col, bits, bw))
    return concat(*reversed(parts))


def bdd_tree(col, bits, bw):
    memo = {}

    def go(vs, k):
        key = vs
        if all(v == vs[0] for v in vs):
            return const(vs[0], bw)
        r = memo.get(key)
        if r is None:
            h = 1 << (k - 1)
            if len(vs) <= h:
                r = go(vs, k - 1)
            else:
                r = ite(bits[k - 1], go(vs[h:], k - 1), go(vs[:h], k - 1))
            memo[key] = r
        return r
    return go(tuple(col), len(bits))


def show(t, d=0):
    if d > 12:
        return '..'
    o = t.op
    if o == 'c':
        return ('%d' % sval(t)) if t.w > 1 else str(t.x)
    if o == 'v':
        return str(t.x)
    if o == 'true' or o == 'false':
        return o
    if o == 'lin':
        at = {u.id: u for u in t.a}
        c, ms = t.x
        p = []
        for k, m in ms:
            k = k - (1 << t.w) if k >> (t.w - 1) else k
            p.append(('' if k == 1 else '%d*' % k) + '*'.join(show(at[i], d + 1) for i in m))
        if c:
            p.append('%d' % (c - (1 << t.w) if c >> (t.w - 1) else c))
        return '(' + ' + '.join(p) + ')'
    if o == 'extract':
        return '%s[%d:%d]' % (show(t.a[0], d + 1), t.x[0], t.x[1])
    if o == 'uf':
        return '%s(%s)' % (t.x, ','.join(show(z, d + 1) for z in t.a))
    x = '' if t.x is None else '<%s>' % (t.x,)
    return '(%s%s %s)' % (o, x, ' '.join(show(z, d + 1) for z in t.a))
