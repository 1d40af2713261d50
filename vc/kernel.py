"""Contract runner: one Case = one function (for one instantiation) under its contract."""
import os
import time
import traceback
from . import term as tm
from . import ir
from . import solver
from .term import TRUE, FALSE, const, var, fresh, uf, add, sub, mul, eq, ult, slt, sle, band, bor, bnot, ite, isc, extract
from .sym import Ex, St, Region, Ob, Unsupported, Recurrence, Vec
from .solver import prove

NMAX = 1 << 40
SMAX = 1 << 16

# numpy type numbers
BOOL, I8, U8, I16, U16, I32, U32, I64, U64, LL, ULL, F32, F64, F80 = range(14)
STR, UNI = 18, 19
NAMES = {BOOL: 'bool', I8: 'int8', U8: 'uint8', I16: 'int16', U16: 'uint16', I32: 'int32', U32: 'uint32', I64: 'int64', U64: 'uint64',
         LL: 'longlong', ULL: 'ulonglong', F32: 'float32', F64: 'float64', F80: 'longdouble', STR: 'bytes', UNI: 'unicode'}
SIZE = {BOOL: 1, I8: 1, U8: 1, I16: 2, U16: 2, I32: 4, U32: 4, I64: 8, U64: 8, LL: 8, ULL: 8, F32: 4, F64: 8, F80: 16}
BITS = {d: 8 * s for d, s in SIZE.items()}
BITS[F80] = 80
SIGNED = {I8, I16, I32, I64, LL}
UNSIGNED = {U8, U16, U32, U64, ULL}
FLOATS = {F32, F64, F80}
INTS = SIGNED | UNSIGNED


def isint(d):
    return d in INTS


def invalid(d):
    """riptable sentinel as a bit pattern (None for bool; NaN for floats is a class)"""
    w = BITS[d]
    if d in SIGNED:
        return const(1 << (w - 1), w)
    if d in UNSIGNED:
        return const(-1, w)
    return None


def is_invalid(d, x):
    if d in FLOATS:
        return tm.f_isnan(x)
    if d == BOOL:
        return FALSE
    return eq(x, invalid(d))


def fsame(x, y):
    """same float: both NaN, or the same bits"""
    return bor(eq(x, y), band(tm.f_isnan(x), tm.f_isnan(y)))


def fsame0(x, y):
    """same float up to the sign of zero"""
    return bor(fsame(x, y), tm.f_eq(x, y))


class Case:
    """a named proof task: setup(ctx) states the contract of one function instantiation"""

    def __init__(self, name, tu, setup, group=None, cost=1.0, bounded_ok=False):
        self.name = name
        self.tu = tu
        self.setup = setup
        self.group = group or name
        self.cost = cost
        self.bounded_ok = bounded_ok


class Broken(Exception):
    """the contract is violated before any kernel runs (e.g. a dispatcher selects no function)"""


def gen_len(rng, env, i):
    if i < 40:
        return i
    q = rng.random()
    if q < 0.55:
        return rng.randrange(0, 140)
    if q < 0.95:
        return rng.choice((31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 255, 256, 257, 320, 500))
    return rng.choice((1000, 4096, 16383, 16384, 16385, 32768, 40000))


class Ctx:
    """one verification context: executor + contract + helpers"""

    def __init__(self, M, name, timeout=10000):
        self.M = M
        self.name = name
        self.ex = Ex(M, name, timeout=timeout)
        self.st = St()
        self.ex.gcontent['_ZN7riptide8internal12interrupted_E'] = 0
        self.pre = []
        self.regs = []
        self.scalars = {}
        self.ufregion = {}
        self.foldby = {}
        self.consts = {}
        self.ens = []
        self.args = None
        self.native = None
        self.fname = None
        self.ret_float = 0
        self.rets = None
        self.bounded_only = None
        self.setup_obs = []

    # ---- regions
    def arr(self, name, gran, length, writable=True, stride=None, fl=None, gen=None, elt=None, fix=None, kind='arr', init=None):
        r = self.ex.region(name, gran, length, writable=writable, stride=stride, kind=kind)
        if stride is not None:
            self.ex.strides[stride.id] = stride
        r.fl = fl
        r.gen = gen
        r.elt = elt
        r.fix = fix
        r.hints = []
        r.init = init
        for q in self.regs:
            self.assume(bnot(eq(q.base, r.base)))
        self.regs.append(r)
        if stride is None and kind == 'arr' and gran in (2, 4, 8, 16):
            self.assume(eq(tm.bvand(r.base, const(gran - 1, 64)), const(0, 64)))
        self.ufregion[r.ufn] = r
        return r

    def obj(self, name, size, writable=True):
        """a C++ object of the given size, addressed by byte"""
        r = self.ex.region(name, 1, const(size, 64), writable=writable, kind='obj')
        for q in self.regs:
            self.assume(bnot(eq(q.base, r.base)))
        self.assume(bnot(eq(r.base, const(0, 64))))
        self.regs.append(r)
        r.fl = r.gen = r.elt = r.fix = r.init = None
        r.hints = []
        self.ufregion[r.ufn] = r
        return r

    def typed(self, name, dtype, length, **kw):
        if dtype == BOOL:
            kw.setdefault('elt', lambda i, v: ule8(v))
            kw.setdefault('fix', lambda x: x & 1)
        if dtype == F80:
            # canonical x87 encodings: the explicit integer bit is set exactly for non-zero exponents
            kw.setdefault('elt', lambda i, v: tm.beq(eq(extract(v, 63, 63), const(1, 1)), bnot(eq(extract(v, 78, 64), const(0, 15)))))
            kw.setdefault('fix', lambda x: (x | (1 << 63) if (x >> 64) & 0x7fff else x & ~(1 << 63)))
        return self.arr(name, SIZE[dtype], length, fl=BITS[dtype] if dtype in FLOATS else None, **kw)

    def scalar(self, name, w, gen, *cs):
        v = var(name, w)
        self.scalars[name] = gen
        self.assume(*cs)
        return v

    def len(self, name, lo=0, hi=NMAX, gen=None):
        n = var(name, 64)
        self.scalars[name] = gen or gen_len
        self.assume(sle(const(lo, 64), n), sle(n, const(hi, 64)))
        return n

    def stride(self, name, nonzero=False, exclude=None, size=8):
        s = var(name, 64)
        self.scalars[name] = lambda rng, env, i: rng.choice((2 * size, 3 * size, -size, -2 * size, size + 1 if size > 1 else 3, 5 * size) + (() if nonzero else (0,))) & tm.mask(64)
        self.assume(sle(const(-SMAX, 64), s), sle(s, const(SMAX, 64)))
        if nonzero:
            self.assume(bnot(eq(s, const(0, 64))))
        if exclude is not None:
            self.assume(bnot(eq(s, const(exclude, 64))))
        return s

    def assume(self, *cs):
        self.st.assume(*cs)
        self.pre += list(cs)

    # ---- contract
    def calls(self, fname, args, ret_float=0):
        self.fname = fname
        self.args = args
        self.ret_float = ret_float

    def fold(self, f):
        self.ex.folds.append(f)
        self.foldby['S_' + f.name] = f

    def ensure(self, region, lo, hi, spec, what, rel=None, when=None, facts=(), at=None):
        """for lo<=k<hi: rel(final region[at(k)], spec(k)); at is the identity unless given"""
        rel = rel or eq
        k = fresh('k', 64)
        v = fresh('v', 8 * region.gran)
        s = spec(k)
        self.ens.append(dict(kind='region', region=region, lo=lo, hi=hi, k=k, v=v, spec=s, goal=rel(v, s), when=when(k) if when else (), facts=facts, what=what, at=at(k) if at else k))

    def ensure_ret(self, w, goal, what):
        v = fresh('ret', w)
        self.ens.append(dict(kind='ret', v=v, goal=goal(v), what=what))

    def ensure_frame(self, region):
        self.ens.append(dict(kind='frame', region=region, what='%s unchanged' % region.name))

    def ensure_custom(self, prove_, replay, what):
        self.ens.append(dict(kind='custom', prove=prove_, f=replay, what=what))

    # ---- proving
    def verify(self):
        fn = self.M.funcs.get(self.fname)
        if fn is None:
            raise Unsupported('function %s not found' % self.fname)
        self.rets = self.ex.call_function(fn, self.args, self.st.copy())
        if not self.rets:
            raise Unsupported('no return path')
        self.lemmas()
        for rv, st in self.rets:
            for e in self.ens:
                self.prove_one(e, rv, st.copy())
        for e in self.ens:
            if e.get('after'):
                e['after']()
        self.vacuity()

    def lemmas(self):
        """ghost lemmas, by induction over the rows (all lemmas of a fold and of the folds it refers to, jointly)"""
        ob = []
        for f in self.foldby.values():
            if not f.lemmas:
                continue
            args = tuple(fresh('la', 64) for _ in range(f.nargs))
            p = fresh('lp', 64)
            z, p1 = const(0, 64), add(p, const(1, 64))
            grp = [f] + f.others
            base = [g.ax0(args[:g.nargs]) for g in grp]
            hyp = [f.ok(p), f.ok(p1)]
            for g in grp:
                hyp += [g.ax(args[:g.nargs], p)] + g.lem(args[:g.nargs], p)
            for j, l in enumerate(f.lemmas):
                for what, pc, goal in (('base', base, l(*args, z, f.S(*args, z))), ('step', hyp, l(*args, p1, f.S(*args, p1)))):
                    st = self.st.copy()
                    st.assume(*pc)
                    for h in f.hyps:
                        st.assume(*h(*args, p))
                    self.assume_elts(st, band(goal, *st.pc[-len(pc):]) if pc else goal)
                    ob.append((st, goal, '%s lemma %d of %s' % (what, j, f.name)))
        for st, goal, what in ob:
            r = self.ex.final(st.pc, goal)
            self.ex.obs.append(Ob('lemma', what, r, st.pc, goal, self.name))

    def prove_one(self, e, rv, st):
        kind = e['kind']
        if kind == 'region':
            k, r = e['k'], e['region']
            st.assume(sle(e['lo'], k), slt(k, e['hi']), *e['when'])
            for f in e['facts']:                         # instances of ghost definitions and of proved lemmas
                if len(f) == 2:
                    st.assume(*f[0].facts((k,), f[1], 0))
                else:
                    st.assume(*f[0].facts(f[2](k), f[1](k), f[3]))
            if r.elt is not None:
                pass
            v = self.ex.read_elem(st, r, e['at'])
            goal = tm.subst(e['goal'], {e['v']: v})
            self.post(st, goal, e['what'])
        elif kind == 'ret':
            if rv is None:
                raise Unsupported('no return value')
            self.post(st, tm.subst(e['goal'], {e['v']: rv}), e['what'])
        elif kind == 'frame':
            r = e['region']
            if st.mem.get(r) is None:
                self.ex.obs.append(Ob('frame', e['what'], solver.Result('proved', by='syntactic'), (), TRUE, self.name))
                return
            k = fresh('kf', 64)
            v = self.ex.read_elem(st, r, k)
            self.post(st, eq(v, uf(r.ufn, (k,), 8 * r.gran)), e['what'])
        elif kind == 'custom':
            e['prove'](self, rv, st)

    def post(self, st, goal, what):
        ex = self.ex
        self.assume_elts(st, goal)
        r = ex.final(st.pc, goal)
        o = Ob('postcondition', what, r, st.pc, goal, self.fname or self.name)
        ex.obs.append(o)
        return o

    def assume_elts(self, st, goal):
        """element facts of the precondition for every initial element the goal mentions"""
        if not any(r.elt is not None for r in self.regs):
            return
        seen = set()
        stack = [goal]
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'uf':
                r = self.ufregion.get(t.x)
                if r is not None and r.elt is not None:
                    c = r.elt(t.a[0], t)
                    if c is not None:
                        st.assume(c)
            stack.extend(t.a)

    def vacuity(self):
        """some return state with a non-empty range must be satisfiable together with the precondition"""
        for rv, st in self.rets:
            pc = list(st.pc)
            for e in self.ens:
                if e['kind'] == 'region':
                    pc += [sle(e['lo'], e['k']), slt(e['k'], e['hi'])]
                    pc += list(e['when'])
                    break
            r = solver.prove(pc, FALSE, 10000, use_cvc5=False, fp=False)
            if r.status != 'proved':
                return
        raise Unsupported('vacuous contract: no satisfiable return state')


def ule8(v):
    return tm.ule(v, const(1, v.w))


def run_case(case, tier='quick', seed=1, timeout=None, replay=True, replay_budget=20.0, thorough_extra=False):
    """-> plain-data result"""
    from . import build, replay as rp
    t0 = time.time()
    M = build.module(case.tu)
    ctx = Ctx(M, case.name, timeout=timeout or (10000 if tier == 'quick' else 60000))
    res = dict(name=case.name, obs=[], err=None, fail=[], violation=None, fns=[], assume=[], bounded=None, loops=0)
    s0 = dict(solver.STATS)
    try:
        case.setup(ctx)
    except Broken as e:
        res['obs'].append(('dispatch', str(e), 'refuted', 'execution', 0.0))
        res['fail'].append(dict(kind='dispatch', where=str(e), status='refuted', by='execution', goal='', fn=''))
        res['violation'] = dict(failure=str(e))
        res['secs'] = time.time() - t0
        return res
    except Unsupported as e:
        res['err'] = 'setup: %s' % e
        res['secs'] = time.time() - t0
        return res
    for w in ctx.setup_obs:
        res['obs'].append(('dispatch', w, 'proved', 'execution', 0.0))
    if ctx.fname is None:
        res['secs'] = time.time() - t0
        res['fns'] = sorted(ctx.ex.used_fns)
        return res
    bad = []
    try:
        ctx.verify()
    except (Unsupported, Recurrence, RecursionError, tm_errors) as e:
        res['err'] = '%s: %s' % (type(e).__name__, e if not isinstance(e, Recurrence) else 'recurrence in ' + e.region.name)
    except Exception as e:      # an engine defect must not look like a verdict
        res['err'] = 'internal %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    for o in ctx.ex.obs:
        res['obs'].append((o.kind, o.where, o.status, o.by, round(o.secs, 4)))
        if o.status != 'proved':
            bad.append(o)
    res['fns'] = sorted(ctx.ex.used_fns)
    res['assume'] = sorted(ctx.ex.used_assumptions)
    res['loops'] = ctx.ex.loops_done
    for o in bad[:12]:
        res['fail'].append(dict(kind=o.kind, where=o.where, status=o.status, by=o.by, goal=repr(o.goal)[:3000], fn=o.fn))
    if (bad or res['err']) and replay and ctx.native is not None:
        from .conc import OFFS, ints
        try:
            v = ctx.native.run(case.tu, dict(zip(OFFS, ints(ctx.ex, 'vc_off'))), max(replay_budget, 20.0) if replay_budget else 0, seed)
        except Exception as e:
            v = None
            res['replay_error'] = '%s: %s' % (type(e).__name__, e)
        if v:
            res['violation'] = v
        else:
            res['replay_tried'] = ctx.native.tried
            if ctx.native.err:
                res['replay_error'] = ctx.native.err
    elif (bad or res['err']) and replay and ctx.args is not None:
        consts = {}
        seen = set()
        tm_list = [e['goal'] for e in ctx.ens if 'goal' in e]
        rp.harvest(tm_list, consts, seen)
        for o in bad[:6]:
            rp.harvest([o.goal] + list(o.pc), consts, seen)
        ctx.consts = consts
        # code constants of the function under contract
        rp.code_consts(ctx, consts)
        for o in bad[:6]:
            if o.model is not None:
                rp.model_hints(ctx, o)
        R = rp.Replayer(ctx, ctx.fname, ctx.args, ctx.ens, budget=replay_budget, seed=seed)
        R.ret_float = ctx.ret_float
        try:
            v = R.run()
        except Exception as e:
            v = None
            res['replay_error'] = '%s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()[-1500:]
        if v:
            res['violation'] = v
        else:
            res['replay_tried'] = getattr(R, 'tried', 0)
            if getattr(R, 'err', None):
                res['replay_error'] = R.err
    res['secs'] = time.time() - t0
    res['stats'] = {k: solver.STATS[k] - s0[k] for k in s0}
    return res


class tm_errors(Exception):
    pass
