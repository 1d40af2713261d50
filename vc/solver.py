"""Discharges obligations: term DAG -> z3 (API) with cvc5 (process) as second back end."""
import subprocess
import time
import z3
from . import term as tm
from . import lia
from .term import T, mask

_z = {}
_zfp = {}
_zabs = {}
_fn = {}
STATS = {'z3': 0, 'cvc5': 0, 'syntactic': 0, 'portfolio': 0, 'time': 0.0, 'queries': 0, 'unknown': 0, 'cvc5_time': 0.0, 'lia': 0, 'lia_time': 0.0, 'lia_miss': 0, 'lia_miss_time': 0.0}


def func(name, ws, w):
    k = (name, ws, w)
    f = _fn.get(k)
    if f is None:
        sorts = [z3.BoolSort() if x == 0 else z3.BitVecSort(x) for x in ws]
        rs = z3.BoolSort() if w == 0 else z3.BitVecSort(w)
        f = z3.Function(name, *(sorts + [rs])) if ws else z3.Const(name, rs)
        _fn[k] = f
    return f


def fsort(w):
    return {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}[w]


def nan_z(x, w):
    return z3.UGT(z3.Extract(w - 2, 0, x), z3.BitVecVal(tm.f_exp_all(w), w - 1))


FARITH = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fsqrt', 'fround', 'ffma'}


NL = {'mulm', 'mul', 'udiv', 'sdiv', 'urem', 'srem'}


def has_nl(t, memo={}):
    """products of variables and divisions"""
    r = memo.get(t.id)
    if r is None:
        r = (t.op in NL and not (t.a[-1].op == 'c' and t.op in ('mul', 'mulm'))) or (t.op == 'lin' and any(len(mon) > 1 for k, mon in t.x[1])) or any(has_nl(z) for z in t.a)
        memo[t.id] = r
    return r


def tr(t, fp=False):
    cache = _zabs if fp == 'abs' else _zfp if fp else _z
    r = cache.get(t.id)
    if r is not None:
        return r
    # iterative to keep recursion shallow
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in cache:
            stack.pop()
            continue
        todo = [z for z in u.a if z.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        cache[u.id] = tr1(u, [cache[z.id] for z in u.a], fp)
        stack.pop()
    return cache[t.id]


def tr1(u, a, fp):
    o = u.op
    w = u.w
    if o == 'c':
        return z3.BitVecVal(u.x, w)
    if o == 'v':
        return z3.Bool(u.x) if w == 0 else z3.BitVec(u.x, w)
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if o == 'uf':
        f = func(u.x, tuple(z.w for z in u.a), w)
        return f(*a) if a else f
    if o == 'lin':
        m = {z.id: b for z, b in zip(u.a, a)}
        ck = {z.id: tm._ck(z) for z in u.a}
        c, ms = u.x
        r = None
        half = 1 << (w - 1)
        for k, mon in ms:
            p = m[mon[0]]
            if fp == 'abs' and len(mon) > 1:
                q = [m[i] for i in sorted(mon, key=ck.get)]
                p = func('mulabs%d' % len(mon), (w,) * len(mon), w)(*q)
            else:
                for i in mon[1:]:
                    p = p * m[i]
            if k & (k - 1) == 0 and k != 1 and k != half:
                p = p << z3.BitVecVal(k.bit_length() - 1, w)
            elif k == mask(w):
                p = -p
            elif k > half and ((-k) & mask(w)) & (((-k) & mask(w)) - 1) == 0:
                p = -(p << z3.BitVecVal(((-k) & mask(w)).bit_length() - 1, w))
            elif k != 1:
                p = p * z3.BitVecVal(k, w)
            r = p if r is None else r + p
        if c:
            r = r + z3.BitVecVal(c, w)
        return r
    if fp == 'abs' and o in NL:
        if o in ('mulm', 'mul'):
            a = [y for _, y in sorted(zip([tm._ck(z) for z in u.a], a), key=lambda q: q[0])]
            return func('mulabs%d' % len(a), (w,) * len(a), w)(*a)
        return func(o + 'abs', (w, w), w)(*a)
    if o == 'mulm':
        r = a[0]
        for z in a[1:]:
            r = r * z
        return r
    if o == 'mul':
        return a[0] * a[1]
    if o == 'not':
        return z3.Not(a[0])
    if o == 'and':
        return z3.And(*a)
    if o == 'iff':
        return a[0] == a[1]
    if o in ('ite', 'bite'):
        return z3.If(a[0], a[1], a[2])
    if o == 'extract':
        return z3.Extract(u.x[0], u.x[1], a[0])
    if o == 'concat':
        return z3.Concat(*a)
    if o == 'sext':
        return z3.SignExt(w - u.a[0].w, a[0])
    if o in ('bvand', 'bvor', 'bvxor'):
        r = a[0]
        for z in a[1:]:
            r = r & z if o == 'bvand' else r | z if o == 'bvor' else r ^ z
        return r
    if o == 'shl':
        return a[0] << a[1]
    if o == 'lshr':
        return z3.LShR(a[0], a[1])
    if o == 'ashr':
        return a[0] >> a[1]
    if o == 'udiv':
        return z3.UDiv(a[0], a[1])
    if o == 'urem':
        return z3.URem(a[0], a[1])
    if o == 'sdiv':
        return a[0] / a[1]
    if o == 'srem':
        return z3.SRem(a[0], a[1])
    if o == 'eq':
        return a[0] == a[1]
    if o == 'ult':
        return z3.ULT(a[0], a[1])
    if o == 'slt':
        return a[0] < a[1]
    if o in ('flt', 'feq'):
        w0 = u.a[0].w
        x, y = a
        nn = z3.And(z3.Not(nan_z(x, w0)), z3.Not(nan_z(y, w0)))
        sx, sy = z3.Extract(w0 - 1, w0 - 1, x) == 1, z3.Extract(w0 - 1, w0 - 1, y) == 1
        mx, my = z3.Extract(w0 - 2, 0, x), z3.Extract(w0 - 2, 0, y)
        bz = z3.And(mx == 0, my == 0)
        if o == 'feq':
            return z3.And(nn, z3.Or(x == y, bz))
        return z3.And(nn, z3.Or(z3.And(sx, z3.Not(sy), z3.Not(bz)), z3.And(z3.Not(sx), z3.Not(sy), z3.ULT(mx, my)),
                                z3.And(sx, sy, z3.ULT(my, mx))))
    if o == 'fisnan':
        return func('fisnan80', (80,), 0)(*a)
    if fp is True and o in FARITH and w != 80 and all(z.w != 80 for z in u.a):
        r = fparith(o, u, a)
        if r is not None:
            return r
    if fp == 'abs' and o in ('fadd', 'fmul') and len(a) == 2:
        # commutative: NaN payloads are not distinguished
        c = z3.ULE(a[0], a[1])
        a = [z3.If(c, a[0], a[1]), z3.If(c, a[1], a[0])]
    return func('%s_%s' % (o, u.x) if u.x is not None else o, tuple(z.w for z in u.a), w)(*a)


def fparith(o, u, a):
    RNE = z3.RNE()
    w = u.w

    def F(z, wz):
        return z3.fpBVToFP(z, fsort(wz))

    def B(z):
        return z3.fpToIEEEBV(z)
    wa = u.a[0].w
    if o == 'fadd':
        return B(z3.fpAdd(RNE, F(a[0], w), F(a[1], w)))
    if o == 'fsub':
        return B(z3.fpSub(RNE, F(a[0], w), F(a[1], w)))
    if o == 'fmul':
        return B(z3.fpMul(RNE, F(a[0], w), F(a[1], w)))
    if o == 'fdiv':
        return B(z3.fpDiv(RNE, F(a[0], w), F(a[1], w)))
    if o == 'fsqrt':
        return B(z3.fpSqrt(RNE, F(a[0], w)))
    if o == 'sitofp':
        return B(z3.fpSignedToFP(RNE, a[0], fsort(w)))
    if o == 'uitofp':
        return B(z3.fpUnsignedToFP(RNE, a[0], fsort(w)))
    if o in ('fpext', 'fptrunc'):
        return B(z3.fpFPToFP(RNE, F(a[0], wa), fsort(w)))
    if o == 'fround':
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'even': z3.RNE(), 'away': z3.RNA()}.get(u.x)
        if rm is None:
            return None
        return B(z3.fpRoundToIntegral(rm, F(a[0], w)))
    return None


def has_fp(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = t.op in FARITH or any(has_fp(z) for z in t.a)
        memo[t.id] = r
    return r


def has_comm(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = t.op in ('fadd', 'fmul') or any(has_comm(z) for z in t.a)
        memo[t.id] = r
    return r


class Result:
    __slots__ = ('status', 'model', 'by', 'secs')

    def __init__(self, status, model=None, by=None, secs=0.0):
        self.status = status
        self.model = model
        self.by = by
        self.secs = secs


_qcache = {}


def prove(pc, goal, timeout=10000, use_cvc5=True, want_model=False, fp=True, nl=True):
    timeout *= TSCALE
    """valid(pc -> goal)?  status: proved | failed (satisfiable negation) | unknown"""
    STATS['queries'] += 1
    if goal is tm.TRUE:
        STATS['syntactic'] += 1
        return Result('proved', by='syntactic')
    # flatten
    hyp = {}
    for p in pc:
        for q in (p.a if p.op == 'and' else (p,)):
            hyp[q.id] = q
    if goal.id in hyp or tm.FALSE.id in hyp:
        STATS['syntactic'] += 1
        return Result('proved', by='syntactic')
    if goal.op == 'and':
        rest = [g for g in goal.a if g.id not in hyp]
        if not rest:
            STATS['syntactic'] += 1
            return Result('proved', by='syntactic')
        goal = tm.band(*rest)
    key = (frozenset(hyp), goal.id, fp, nl)
    r = _qcache.get(key)
    if r is not None and not (want_model and r.status == 'failed' and r.model is None):
        return r
    t0 = time.time()
    hs = relevant(list(hyp.values()), goal)
    if lia.prove(hs, goal):
        STATS['lia'] += 1
        r = Result('proved', by='z3 (linear integers)', secs=time.time() - t0)
        STATS['time'] += r.secs
        STATS['lia_time'] += r.secs
        _qcache[key] = r
        return r
    STATS['lia_miss'] += 1
    STATS['lia_miss_time'] += time.time() - t0
    if has_nl(goal) or any(has_nl(h) for h in hs):
        r = _prove(list(hyp.values()), goal, min(timeout, 6000), False, 'abs')
        if r.status == 'proved':
            r.secs = time.time() - t0
            r.by = 'z3 (products and quotients uninterpreted)'
            STATS['time'] += r.secs
            _qcache[key] = r
            return r
        if not nl:
            r = Result('unknown', by='z3', secs=time.time() - t0)
            STATS['time'] += r.secs
            _qcache[key] = r
            return r
    r = _prove(hs, goal, timeout, use_cvc5, False)
    if r.status != 'proved' and len(hs) != len(hyp):
        r = _prove(list(hyp.values()), goal, timeout, use_cvc5, False)
    if r.status != 'proved' and has_comm(goal):
        # operands of additions and products may come in either order
        r2 = _prove(list(hyp.values()), goal, min(timeout, 4000), False, 'abs')
        if r2.status == 'proved':
            r = r2
    if r.status != 'proved' and fp and (has_fp(goal) or any(has_fp(h) for h in hyp.values())):
        r2 = _prove(list(hyp.values()), goal, timeout, False, True)
        if r2.status != 'unknown':
            r = r2
        else:
            r = Result('unknown', by='z3-fp')
    r.secs = time.time() - t0
    STATS['time'] += r.secs
    if r.status == 'unknown':
        STATS['unknown'] += 1
    _qcache[key] = r
    return r


TSCALE = 3          # head room for slower machines


def prove_final(pc, goal, timeout=10000):
    """an obligation that counts: plain query, then case splitting on the memory layers, then a portfolio"""
    r = prove(pc, goal, min(timeout, 600 if many_ites(goal) else 4000), use_cvc5=False, fp=False, nl=False)
    if r.status == 'proved' or goal.op == 'false':
        return r
    fpq = has_fp(goal) or any(has_fp(h) for h in pc)
    if r.status == 'failed' and not fpq:
        return r
    t0 = time.time()
    budget = [200]
    r2 = _split(list(pc), goal, timeout, budget, fpq)
    r2.secs = time.time() - t0 + r.secs
    return r2


def many_ites(t, n=6):
    """a chain of memory layers: better split than sent to the solver whole"""
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ('ite', 'bite'):
            n -= 1
            if n < 0:
                return True
        if len(seen) > 400:
            break
        st.extend(u.a)
    return False


def first_ite(t):
    st = [t]
    seen = set()
    best = None
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ('ite', 'bite') and not has_fp(u.a[0]) and (has_fp(u) or best is None):
            c = u.a[0]
            if c.op == 'and':
                c = c.a[0]
            while c.op == 'not':
                c = c.a[0]
            if best is None or has_fp(u):
                best = c
                if has_fp(u):
                    return c
        st.extend(u.a)
    return best


def _split(pc, goal, timeout, budget, fpq):
    if budget[0] <= 0:
        return Result('unknown', by='split budget')
    budget[0] -= 1
    r = prove(pc, goal, 300 if many_ites(goal) else 3000 if budget[0] < 199 else 1000, use_cvc5=False, fp=False, nl=False)
    if r.status == 'proved':
        return r
    c = first_ite(goal)
    if c is None:
        if has_nl(goal):
            g2 = polynorm(goal)
            if g2 is not goal:
                r2 = prove(pc, g2, 3000, use_cvc5=False, fp=False, nl=False)
                if r2.status == 'proved':
                    r2.by = 'z3 (polynomial normalisation)'
                    return r2
            r = prove(pc, goal, 3000, use_cvc5=False, fp=False)
            if r.status == 'proved':
                return r
        if r.status == 'failed' and not fpq:
            return r
        r = prove(pc, goal, timeout)
        if r.status == 'unknown':
            r = portfolio(pc, goal, 4 * timeout)
        return r
    out = None
    for pol in (True, False):
        f = c if pol else tm.bnot(c)
        pc2 = pc + [f]
        if prove(pc2, tm.FALSE, 3000, use_cvc5=False, fp=False).status == 'proved':
            continue
        m = {c: tm.TRUE if pol else tm.FALSE}
        g2 = tm.subst(goal, m)
        if pol and c.op == 'eq':
            for x, y in (c.a, c.a[::-1]):
                if x.op == 'v' and x.id not in tm.fv(y):
                    mm = {x: y}
                    g2 = tm.subst(g2, mm)
                    pc2 = [tm.subst(q, mm) for q in pc]
                    break
        r = _split(pc2, g2, timeout, budget, fpq)
        if r.status != 'proved':
            if r.status == 'failed':
                return r
            out = r
    if out is not None:
        return out
    return Result('proved', by='z3 (case split)')


def polynorm(t):
    """write the low half of a word as the word minus its shifted high half, so that products of halves become polynomials in the words"""
    memo = {}

    def go(u):
        if u.id in memo:
            return memo[u.id]
        a = tuple(go(z) for z in u.a)
        v = tm.rebuild(u, a) if any(x is not y for x, y in zip(a, u.a)) else u
        if v.op == 'concat' and len(v.a) == 2 and tm.isc(v.a[0]) and v.a[0].x == 0 and v.a[1].op == 'extract':
            x, (hi, lo) = v.a[1].a[0], v.a[1].x
            if lo == 0 and x.w == v.w:
                h = tm.zext(tm.extract(x, x.w - 1, hi + 1), v.w)
                v = tm.sub(x, tm.mulc(h, 1 << (hi + 1)))
        memo[u.id] = v
        return v
    return go(t)


def portfolio(pc, goal, timeout):
    """several back ends on one hard query, in parallel"""
    STATS['portfolio'] = STATS.get('portfolio', 0) + 1
    s = z3.Solver()
    fp = has_fp(goal) or any(has_fp(h) for h in pc)
    for h in pc:
        s.add(tr(h, fp))
    s.add(z3.Not(tr(goal, fp)))
    txt = s.to_smt2()
    import os
    import tempfile
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, ('(set-logic %s)\n' % ('QF_UFBVFP' if fp else 'QF_UFBV') + txt).encode())
    os.close(fd)
    sec = max(1, timeout // 1000)
    cmds = [('z3', ['z3', '-T:%d' % sec, 'smt.random_seed=7', 'sat.random_seed=7', fn]), ('z3', ['z3', '-T:%d' % sec, 'smt.random_seed=23', fn]),
            ('z3', ['z3-new', '-T:%d' % sec, fn]), ('cvc5', ['cvc5', '--tlimit=%d' % timeout, fn])]
    if not fp:
        cmds.append(('cvc5', ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % timeout, fn]))
    ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)) for n, c in cmds]
    t0 = time.time()
    res = Result('unknown', by='portfolio')
    try:
        while ps and time.time() - t0 < sec + 5:
            for n, p in list(ps):
                if p.poll() is None:
                    continue
                ps.remove((n, p))
                o = p.stdout.read().decode().strip().split('\n')[0]
                if o == 'unsat':
                    res = Result('proved', by=n)
                    return res
                if o == 'sat':
                    res = Result('failed', None, n)
                    return res
            time.sleep(0.02)
    finally:
        for n, p in ps:
            p.kill()
            p.wait()
        os.unlink(fn)
        STATS['time'] += time.time() - t0
    return res


def relevant(hs, goal):
    """hypotheses sharing variables (transitively) with the goal"""
    if len(hs) < 8:
        return hs
    s = set(tm.fv(goal))
    left = list(hs)
    out = []
    ch = True
    while ch:
        ch = False
        nl = []
        for h in left:
            f = tm.fv(h)
            if not f or f & s:
                out.append(h)
                if not f <= s:
                    s |= f
                    ch = True
            else:
                nl.append(h)
        left = nl
    return out


def _prove(hs, goal, timeout, use_cvc5, fp):
    s = z3.Solver() if fp is True else z3.SolverFor('QF_UFBV')
    s.set('timeout', timeout if not use_cvc5 else min(timeout, 15000))
    for h in hs:
        s.add(tr(h, fp))
    s.add(z3.Not(tr(goal, fp)))
    c = s.check()
    STATS['z3'] += 1
    by = 'z3-fp' if fp is True else 'z3'
    if c == z3.unsat:
        return Result('proved', by=by)
    if c == z3.sat:
        return Result('failed', s.model(), by)
    if use_cvc5 and not fp:
        t1 = time.time()
        txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
        STATS['cvc5'] += 1
        for extra in (['--solve-bv-as-int=sum'], []):
            try:
                p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout] + extra, input=txt.encode(), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 20)
                o = p.stdout.decode().strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                o = 'unknown'
            STATS['cvc5_time'] += time.time() - t1
            if o == 'unsat':
                return Result('proved', by='cvc5')
            if o == 'sat':
                return Result('failed', None, 'cvc5')
    return Result('unknown', by=by)


def feasible(pc, timeout=3000):
    """False only when pc is definitely unsatisfiable"""
    if tm.FALSE in pc:
        return False
    r = prove(pc, tm.FALSE, timeout, use_cvc5=False, fp=False)
    return r.status != 'proved'


def model_val(m, t):
    """value of an arbitrary term under a z3 model (with completion)"""
    v = m.eval(tr(t), model_completion=True)
    if t.w == 0:
        return bool(z3.is_true(v))
    return v.as_long()
