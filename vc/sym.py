"""Verification-condition generator: symbolic execution of LLVM IR functions with loop cut-points.

Every loop is replaced by an inductive summary whose base and step are proof obligations; every memory
access yields an in-bounds obligation; postconditions are checked by the contract on the states returned.
"""
import re
from . import term as tm
from . import ir
from .term import (T, TRUE, FALSE, const, var, fresh, uf, add, sub, mul, mulc, eq, ult, ule, slt, sle, band, bor, bnot,
                   ite, extract, concat, zext, sext, trunc, isc, sval, mask, implies)
from .solver import prove_final, prove, feasible

TBITS = 46          # loop counters are bounded by 2^46 (checked inductively)


# contracts of global tables filled at module initialisation: name -> f(byte index term) -> byte term
GLOBAL_SPEC = {}


def lut_spec(lg, inverse):
    def f(idx):
        j = extract(idx, lg - 1, 0)
        word = extract(idx, lg + (8 if lg == 3 else 4) - 1, lg)
        bit = None
        if isc(j):
            bit = extract(word, j.x, j.x)
        else:
            bit = extract(tm.lshr(tm.zext(word, 64), tm.zext(j, 64)), 0, 0)
        if inverse:
            bit = tm.bvnot(bit)
        return tm.zext(bit, 8)
    return f


for _i in (False, True):
    GLOBAL_SPEC['gBooleanLUT64' + ('Inverse' if _i else '')] = lut_spec(3, _i)
    GLOBAL_SPEC['gBooleanLUT32' + ('Inverse' if _i else '')] = lut_spec(2, _i)


class Unsupported(Exception):
    """outside the verifier's reach: reported as an error of the check, never as a violation"""


class Recurrence(Exception):
    def __init__(self, region):
        self.region = region


class Vec:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = list(l)

    def __repr__(self):
        return 'Vec%r' % (self.l,)


class Agg:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = list(l)


class Region:
    def __init__(self, name, gran, length=None, writable=True, kind='arr', stride=None, base=None, data=None, readable=True):
        self.name = name
        self.gran = gran
        self.len = length
        self.writable = writable
        self.readable = readable
        self.kind = kind            # arr | obj | const
        self.stride = stride
        self.base = base if base is not None else var('base_' + name, 64)
        self.ufn = 'mem_' + name
        self.data = data            # bytes for const globals
        self.init = None            # optional callable(ex, idx, w) for base reads
        self.hook = None            # optional callable(ex, st, kind, off, n, value): memory other threads change
        self.elt = None
        self.fl = None
        self.gen = None
        self.fix = None
        self.hints = []

    def __repr__(self):
        return '<%s>' % self.name

    def rd0(self, idx):
        """initial content"""
        return uf(self.ufn, (idx,), 8 * self.gran)


DIVS = ('udiv', 'sdiv', 'urem', 'srem')


# chain layers -----------------------------------------------------------------
class Blk:
    __slots__ = ('idx', 'vals', 'nx')

    def __init__(self, idx, vals, nx):
        self.idx = idx
        self.vals = vals
        self.nx = nx


class Rng:
    """content of [lo,hi) is f(k)"""
    __slots__ = ('lo', 'hi', 'k', 'f', 'nx')

    def __init__(self, lo, hi, k, f, nx):
        self.lo = lo
        self.hi = hi
        self.k = k
        self.f = f
        self.nx = nx


class Per:
    """for 0<=u<n: element A+s*u+j is vals[j](u)   (vals[j] may be None: unwritten)"""
    __slots__ = ('A', 's', 'n', 'u', 'vals', 'nx')

    def __init__(self, A, s, n, u, vals, nx):
        self.A = A
        self.s = s
        self.n = n
        self.u = u
        self.vals = vals
        self.nx = nx


class Fun:
    """the whole content is f(k)"""
    __slots__ = ('k', 'f', 'nx', 'lems')

    def __init__(self, k, f, lems=()):
        self.k = k
        self.f = f
        self.nx = None
        self.lems = lems        # proved lemmas about the folds f mentions, as formulas over k


class Hav:
    """arbitrary content named by a fresh function"""
    __slots__ = ('ufn', 'nx', 'scatter')

    def __init__(self, ufn, nx=None):
        self.ufn = ufn
        self.nx = nx
        self.scatter = False


class PH:
    """placeholder for a map loop's range while it is being synthesised"""
    __slots__ = ('region', 'A', 's', 't', 'nx')

    def __init__(self, region, A, s, t, nx):
        self.region = region
        self.A = A
        self.s = s
        self.t = t
        self.nx = nx


class St:
    __slots__ = ('mem', 'pc', 'trace', 'gh')

    def __init__(self, mem=None, pc=(), trace=(), gh=None):
        self.mem = mem or {}
        self.pc = pc
        self.trace = trace
        self.gh = gh or {}

    def copy(self):
        return St(dict(self.mem), self.pc, self.trace, dict(self.gh))

    def assume(self, *cs):
        pc = self.pc
        for c in cs:
            if c is TRUE:
                continue
            for d in (c.a if c.op == 'and' else (c,)):
                if d not in pc:
                    pc = pc + (d,)
        self.pc = pc
        return self


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []


class Ob:
    __slots__ = ('kind', 'where', 'status', 'by', 'secs', 'model', 'pc', 'goal', 'fn')

    def __init__(self, kind, where, r, pc, goal, fn):
        self.kind = kind
        self.where = where
        self.status = r.status
        self.by = r.by
        self.secs = r.secs
        self.model = r.model
        self.pc = pc
        self.goal = goal
        self.fn = fn


class Fold:
    """ghost recursion over rows:  S(args,0) = init(args) ;  S(args,p+1) = step(args,p,S(args,p))

    region: the array whose element k holds S(k,p) after p rows (args == (k,)); None for a running value in a register.
    lemmas: consequences (args,p,s) -> formula, proved by induction over p before they are used."""

    def __init__(self, name, w, init, step, region=None, nargs=None, lemmas=(), others=(), rows=(0,), axk=None, hyps=()):
        self.name = name
        self.w = w
        self.init = init
        self.step = step
        self.region = region
        self.nargs = nargs if nargs is not None else (1 if region is not None else 0)
        self.lemmas = list(lemmas)
        self.hyps = list(hyps)         # instances of preconditions for the lemma proofs: (args,p) -> [formula]
        self.others = list(others)     # folds the step or a lemma refers to at the same arguments
        self.argsets = [()]
        self.extra = None              # further instances of proved lemmas at (args,p)
        self.starts = ()               # rows a loop may begin with, besides those found from the entry values
        self.images = ()               # (region, m): pointers into the region that stand at element m * S
        self.rows = rows
        self._t = None
        self._memo = {}

    def S(self, *ap):
        return uf('S_' + self.name, tuple(ap), self.w)

    def ok(self, p):
        return band(sle(const(0, 64), p), sle(p, const(1 << 60, 64)))

    def ax0(self, args):
        z = const(0, 64)
        return eq(self.S(*args, z), self.init(*args))

    def ax(self, args, p):
        return implies(self.ok(p), eq(self.S(*args, add(p, const(1, 64))), self.step(*args, p, self.S(*args, p))))

    def lems(self, args, p):
        return [l for f in [self] + self.others if len(args) >= f.nargs for l in f.lem(args[:f.nargs], p)]

    def lem(self, args, p):
        return [implies(self.ok(p), l(*args, p, self.S(*args, p))) for l in self.lemmas]

    def facts(self, args, p, n=1):
        """axiom instances for n steps from p"""
        out = []
        for f in [self] + self.others:
            a = args[:f.nargs]
            if len(a) < f.nargs:
                continue
            out.append(f.ax0(a))
            for j in range(n):
                out.append(f.ax(a, add(p, const(j, 64))))
            for j in range(n + 1):
                out += f.lem(a, add(p, const(j, 64)))
                if f.extra is not None:
                    out += f.extra(*a, add(p, const(j, 64)))
        return out

    def concrete(self, rep, ev, ap):
        args, p = tuple(ap[:-1]), ap[-1]
        m = self._memo
        if m.get('ev') is not rep.runid:
            m.clear()
            m['ev'] = rep.runid
        if p < 0 or p > 200000:
            from .evalterm import Undefined
            raise Undefined('fold')
        if self._t is None:
            av = [var('fa_%s_%d' % (self.name, i), 64) for i in range(self.nargs)]
            pv, sv = var('fp_' + self.name, 64), var('fs_' + self.name, self.w)
            self._t = (av, pv, sv, self.step(*av, pv, sv), self.init(*av))
        av, pv, sv, st, it = self._t
        l = m.get(args)
        if l is None:
            e2 = rep.subev(ev, {v.x: a & tm.mask(64) for v, a in zip(av, args)})
            l = m[args] = [e2(it)]
        while len(l) <= p:
            e2 = rep.subev(ev, dict([(v.x, a & tm.mask(64)) for v, a in zip(av, args)] + [(pv.x, len(l) - 1), (sv.x, l[-1])]))
            l.append(e2(st))
        return l[p]


class Inv:
    """what a region holds after p rows: element k is expr(k,p), an expression over ghost folds"""

    def __init__(self, name, region, expr, folds, w=None, nargs=1, elts=()):
        self.name = name
        self.elts = [region] + list(elts)      # regions whose element preconditions at the same index are used
        self.region = region
        self.expr = expr
        self.folds = folds       # [(fold, args -> fold args)] or folds taking the same argument
        self.nargs = nargs
        self.w = w
        self.argsets = [()]

    def S(self, *ap):
        return self.expr(*ap)

    def lems(self, args, p):
        out = []
        for f in self.folds:
            f, m = f if isinstance(f, tuple) else (f, lambda *a: a)
            a = tuple(m(*args))[:f.nargs]
            if len(a) == f.nargs:
                out += f.lem(a, p)
        return out

    def facts(self, args, p, n=1):
        out = []
        for r in self.elts:
            if r is not None and r.elt is not None and self.nargs == 1:
                c = r.elt(args[0], uf(r.ufn, (args[0],), 8 * r.gran))
                if c is not None:
                    out.append(c)
        for f in self.folds:
            f, m = f if isinstance(f, tuple) else (f, lambda *a: a)
            out += f.facts(tuple(m(*args))[:f.nargs], p, n)
        return out


def succs(I):
    if I.op == 'br':
        return list(I.a[1:]) if len(I.a) == 3 else [I.a[0]]
    if I.op == 'switch':
        return [I.a[1]] + [l for _, l in I.a[2]]
    if I.op == 'invoke':
        return [I.x[1]]          # exceptional edges are not followed
    return []


def analyse(fn):
    """dominators and natural loops (normal control flow only)"""
    if getattr(fn, 'loops', None) is not None:
        return
    entry = fn.order[0]
    sc = {}
    for b in fn.order:
        sc[b] = succs(fn.blocks[b][-1])
    # reachable, postorder
    seen = set()
    post = []
    st = [(entry, iter(sc[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(sc[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in sc[b]:
            if num[s] <= num[b]:
                if not dom(s, b):
                    fn.loops = None
                    raise Unsupported('irreducible control flow in ' + fn.name)
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        wl.extend(preds[x])
    fn.loops = loops
    fn.preds = preds


class Ex:
    def __init__(self, M, name='', handlers=None, timeout=10000):
        self.M = M
        self.name = name
        self.regions = {}           # base var id -> Region
        self.byname = {}
        self.obs = []
        self.mode = 'real'          # disc (no solver, no obligations) | plan (solver, no obligations) | real
        self.handlers = handlers or {}
        self.folds = []
        self.on_alloc = None
        self.nolog = 0
        self.invs = []              # contract supplied invariant generators
        self.timeout = timeout
        self.globs = {}
        self.gcontent = {}          # overrides for global contents: name -> int value of the whole scalar
        self.strides = {}           # stride var id -> True
        self.check_bounds = True
        self.depth = 0
        self.havnames = set()
        self.fnstack = []
        self.loops_done = 0
        self.paths = 0
        self.maxpaths = 20000
        self.used_assumptions = set()
        self.used_fns = set()
        self.loopctx = []
        self.const_globals = True
        self.loop_hook = None
        self.store_guard = None

    # ------------------------------------------------------------ regions
    def region(self, name, gran, length=None, **kw):
        r = Region(name, gran, length, **kw)
        self.regions[r.base.id] = r
        self.byname[name] = r
        return r

    def lookup(self, p):
        """pointer term -> [(cond, region, byte offset)]"""
        if p.op == 'ite':
            out = []
            for c, q in ((p.a[0], p.a[1]), (bnot(p.a[0]), p.a[2])):
                for c2, r, o in self.lookup(q):
                    out.append((band(c, c2), r, o))
            return out
        if p.id in self.regions:
            return [(TRUE, self.regions[p.id], const(0, 64))]
        if p.op == 'lin':
            c, ms = p.x
            for k, mon in ms:
                if k == 1 and len(mon) == 1 and mon[0] in self.regions:
                    r = self.regions[mon[0]]
                    return [(TRUE, r, sub(p, r.base))]
            at = {u.id: u for u in p.a}
            for k, mon in ms:
                if k == 1 and len(mon) == 1 and at[mon[0]].op == 'ite':
                    it = at[mon[0]]
                    rest = sub(p, it)
                    return self.lookup(ite(it.a[0], add(it.a[1], rest), add(it.a[2], rest)))
        if isc(p):
            return []
        raise Unsupported('cannot resolve pointer %r' % p)

    def to_elem(self, r, off, st):
        """byte offset -> (element index, sub-byte)"""
        if r.stride is not None:
            s = r.stride
            c, ms = tm._lin_parts(off)
            out = {}
            subb = c if c < (1 << 63) else c - (1 << 64)
            for mon, k in ms.items():
                if s in mon:
                    m = list(mon)
                    m.remove(s)
                    out[tuple(m)] = k
                else:
                    raise Unsupported('strided access %r in %s' % (off, r.name))
            one = out.pop((), 0)
            return tm._lin_mk(one, out, 64), subb
        g = r.gran
        if g == 1:
            return off, 0
        c, ms = tm._lin_parts(off)
        out = {}
        ok = True
        for mon, k in ms.items():
            ks = k - (1 << 64) if k >> 63 else k
            if ks % g:
                ok = False
                break
            out[mon] = ks // g
        cs = c - (1 << 64) if c >> 63 else c
        if ok:
            return tm._lin_mk(cs // g, out, 64), cs % g
        if g & (g - 1) == 0 and self.mode != 'disc':
            lg = g.bit_length() - 1
            if self.prove(st, eq(extract(off, lg - 1, 0), const(0, lg))):
                return self.divexact(off, lg), 0
        if self.mode == 'disc':
            lg = g.bit_length() - 1
            return self.divexact(off, lg), 0
        raise Unsupported('misaligned element access %r in %s (gran %d)' % (off, r.name, g))

    def divexact(self, off, lg):
        c, ms = tm._lin_parts(off)
        g = 1 << lg
        good, bad = {}, {}
        for mon, k in ms.items():
            ks = k - (1 << 64) if k >> 63 else k
            (good if ks % g == 0 else bad)[mon] = ks
        cs = c - (1 << 64) if c >> 63 else c
        q = tm._lin_mk(cs // g, {m: k // g for m, k in good.items()}, 64)
        rest = tm._lin_mk(cs % g, bad, 64)
        return add(q, tm.ashr(rest, const(lg, 64)))

    # ------------------------------------------------------------ proving
    def prove(self, st, goal, timeout=None):
        if goal is TRUE:
            return True
        if goal is FALSE:
            return not feasible(st.pc)
        if self.mode == 'disc':
            return goal in st.pc
        return prove(st.pc, goal, timeout or self.timeout, use_cvc5=False, fp=False).status == 'proved'

    def final(self, pc, goal):
        """full effort for an obligation; once two of the case are lost the others get a plain query only"""
        if self.lost >= 2:
            r = prove(pc, goal, 3000, use_cvc5=False, nl=False)
        else:
            r = prove_final(pc, goal, self.timeout)
        if r.status != 'proved':
            self.lost += 1
        return r

    lost = 0

    def oblige(self, st, kind, goal, where=''):
        if self.mode != 'real':
            return
        r = self.final(st.pc, goal)
        self.obs.append(Ob(kind, where, r, st.pc, goal, self.fnstack[-1] if self.fnstack else self.name))
        if r.status != 'proved':
            # continue under the goal, so one failure is reported once
            st.assume(goal)
        return r

    # ------------------------------------------------------------ memory
    def read_elem(self, st, r, idx, node='top', depth=0):
        if node == 'top':
            node = st.mem.get(r)
        w = 8 * r.gran
        while True:
            if node is None:
                return self.base_read(r, idx, st)
            if isinstance(node, Blk):
                d = sub(idx, node.idx)
                n = len(node.vals)
                if isc(d):
                    if d.x < n:
                        return node.vals[d.x]
                    node = node.nx
                    continue
                if self.mode != 'disc':
                    if self.prove(st, ule(const(n, 64), d), 2000):
                        node = node.nx
                        continue
                    if n == 1 and self.prove(st, eq(d, const(0, 64)), 2000):
                        return node.vals[0]
                rest = self.read_elem(st, r, idx, node.nx, depth + 1)
                for j in range(n):
                    rest = ite(eq(d, const(j, 64)), node.vals[j], rest)
                return rest
            if isinstance(node, Rng):
                z = const(0, 64)
                if self.mode == 'disc':
                    inn = band(sle(node.lo, idx), slt(idx, node.hi))
                    return ite(inn, tm.subst(node.f, {node.k: idx}), self.read_elem(st, r, idx, node.nx, depth + 1))
                inn = band(sle(node.lo, idx), slt(idx, node.hi))
                dh = sub(idx, node.hi)
                dl = sub(idx, node.lo)
                if (isc(dh) and sval(dh) >= 0) or (isc(dl) and sval(dl) < 0) or self.prove(st, bnot(inn), 3000):
                    node = node.nx
                    continue
                if self.prove(st, inn, 3000):
                    return tm.subst(node.f, {node.k: idx})
                return ite(inn, tm.subst(node.f, {node.k: idx}), self.read_elem(st, r, idx, node.nx, depth + 1))
            if isinstance(node, PH):
                if node.A is None:
                    # optimistic: an element the earlier iterations have not written (checked once the written range is known)
                    self.nolog or self.mode == 'disc' or node.s.append((tuple(st.pc), idx))
                    node = node.nx
                    continue
                end = add(node.A, mulc(node.t, node.s))
                d = sub(idx, end)
                if node.s > 0:
                    out = bor(sle(end, idx), slt(idx, node.A))
                    quick = isc(d) and sval(d) >= 0
                else:
                    lo = add(end, const(-node.s, 64))
                    out = bor(slt(idx, lo), sle(add(node.A, const(-node.s, 64)), idx))
                    quick = isc(d) and sval(d) < -node.s
                if quick or self.mode == 'disc' or self.prove(st, out, 3000):
                    node = node.nx
                    continue
                raise Recurrence(r)
            if isinstance(node, Per):
                d = sub(idx, node.A)
                s = node.s
                inn = band(sle(const(0, 64), d), slt(d, mulc(node.n, s)))
                # split d = s*u + j; the quotient is u when nothing wraps
                c, ms = tm._lin_parts(d)
                sg = {m: k - (1 << 64) if k >> 63 else k for m, k in ms.items()}
                cs = c - (1 << 64) if c >> 63 else c
                exact = all(k % s == 0 for k in sg.values())
                if exact:
                    big = const(1 << 54, 64)
                    u = tm._lin_mk(cs // s, {m: k // s for m, k in sg.items()}, 64)
                    exact = self.prove(st, band(sle(tm.neg(big), u), sle(u, big), sle(node.n, big), sle(const(0, 64), node.n)), 3000)
                if exact:
                    inn = band(sle(const(0, 64), u), slt(u, node.n))
                if self.prove(st, bnot(inn), 3000):
                    node = node.nx
                    continue
                if exact:
                    v = node.vals[cs % s]
                    if v is None:
                        node = node.nx
                        continue
                    v = tm.subst(v, {node.u: u})
                    if self.prove(st, inn, 3000):
                        return v
                    return ite(inn, v, self.read_elem(st, r, idx, node.nx, depth + 1))
                rest = self.read_elem(st, r, idx, node.nx, depth + 1)
                u = tm.udiv(d, const(s, 64))
                jj = tm.urem(d, const(s, 64))
                for j in range(s):
                    if node.vals[j] is not None:
                        rest = ite(band(inn, eq(jj, const(j, 64))), tm.subst(node.vals[j], {node.u: u}), rest)
                return rest
            if isinstance(node, Hav):
                return uf(node.ufn, (idx,), w)
            if isinstance(node, Fun):
                if node.lems and self.mode != 'disc' and not self.nolog:
                    st.assume(*[tm.subst(l, {node.k: idx}) for l in node.lems])
                return tm.subst(node.f, {node.k: idx})
            raise Unsupported('layer %r' % node)

    def base_read(self, r, idx, st):
        w = 8 * r.gran
        if r.data is not None:
            if isc(idx):
                o = idx.x * r.gran
                if o + r.gran > len(r.data):
                    return fresh('oob', w)
                return const(int.from_bytes(r.data[o:o + r.gran], 'little'), w)
            nm = r.name
            if nm not in tm._luts:
                n = len(r.data) // r.gran
                tm.lut_register(nm, [int.from_bytes(r.data[i * r.gran:(i + 1) * r.gran], 'little') for i in range(n)], w)
            n = len(tm._luts[nm][0])
            nb = max(1, (n - 1).bit_length())
            # index must fit (obligation already made by the access)
            return tm.lut(nm, extract(idx, nb - 1, 0), w)
        if r.init is not None:
            v = r.init(self, idx, w)
            if v is not None:
                return v
        v = uf(r.ufn, (idx,), w)
        if r.elt is not None:
            c = r.elt(idx, v)
            if c is not None:
                st.assume(c)
        return v

    def access(self, st, r, idx, subb, nbytes, write):
        if not self.check_bounds or self.mode != 'real':
            return
        nel = (subb + nbytes + r.gran - 1) // r.gran
        if r.len is not None:
            g = band(sle(const(0, 64), idx), sle(add(idx, const(nel, 64)), r.len))
            self.oblige(st, 'write-in-bounds' if write else 'read-in-bounds', g, r.name)
        if write and not r.writable:
            self.oblige(st, 'frame', FALSE, 'write to read-only ' + r.name)

    def load_bytes(self, st, p, n):
        """n-byte load -> T of width 8n"""
        alts = self.lookup(p)
        if not alts:
            self.oblige(st, 'null-dereference', FALSE, 'load')
            return fresh('nullload', 8 * n)
        res = None
        for c, r, off in reversed(alts):
            if c is not TRUE:
                st2 = st.copy().assume(c)
                if c is FALSE:
                    continue
            else:
                st2 = st
            v = r.hook(self, st2, 'load', off, n, None) if r.hook else None
            if v is None:
                idx, s = self.to_elem(r, off, st2)
                self.access(st2, r, idx, s, n, False)
                v = self.read_bytes(st2, r, idx, s, n)
            res = v if res is None else ite(c, v, res)
        return res

    def read_bytes(self, st, r, idx, s, n):
        g = r.gran
        if s == 0 and n == g:
            return self.read_elem(st, r, idx)
        if s + n <= g:
            v = self.read_elem(st, r, idx)
            return extract(v, 8 * (s + n) - 1, 8 * s)
        if r.stride is not None:
            raise Unsupported('wide access to strided region ' + r.name)
        parts = []
        cnt = (s + n + g - 1) // g
        for i in range(cnt):
            parts.append(self.read_elem(st, r, add(idx, const(i, 64))))
        v = concat(*reversed(parts))
        return extract(v, 8 * (s + n) - 1, 8 * s)

    def store_bytes(self, st, p, v):
        """v: T whose width is a multiple of 8, or list of element terms"""
        alts = self.lookup(p)
        if not alts:
            self.oblige(st, 'null-dereference', FALSE, 'store')
            return
        n = v.w // 8
        for c, r, off in alts:
            if c is not TRUE:
                st2 = st.copy().assume(c)
            else:
                st2 = st
            if self.store_guard is not None:
                self.store_guard(self, st2, r, off, n)
            if r.hook and r.hook(self, st2, 'store', off, n, v):
                continue
            idx, s = self.to_elem(r, off, st2)
            self.access(st2, r, idx, s, n, True)
            g = r.gran
            cnt = (s + n + g - 1) // g
            if s == 0 and n % g == 0:
                vals = [extract(v, 8 * g * (i + 1) - 1, 8 * g * i) for i in range(cnt)]
            else:
                olds = [self.read_elem(st2, r, add(idx, const(i, 64))) for i in range(cnt)]
                old = concat(*reversed(olds))
                parts = []
                if 8 * (s + n) < old.w:
                    parts.append(extract(old, old.w - 1, 8 * (s + n)))
                parts.append(v)
                if s:
                    parts.append(extract(old, 8 * s - 1, 0))
                nv = concat(*parts)
                vals = [extract(nv, 8 * g * (i + 1) - 1, 8 * g * i) for i in range(cnt)]
            if c is not TRUE:
                vals = [ite(c, vals[i], self.read_elem(st2, r, add(idx, const(i, 64)))) for i in range(cnt)]
            self.push_blk(st, r, idx, vals)

    def push_blk(self, st, r, idx, vals):
        top = st.mem.get(r)
        if isinstance(top, Blk) and isc(sub(idx, top.idx)) and r.kind == 'obj':
            d = sval(sub(idx, top.idx))
            if 0 <= d and d + len(vals) <= len(top.vals):
                nv = list(top.vals)
                nv[d:d + len(vals)] = vals
                st.mem[r] = Blk(top.idx, tuple(nv), top.nx)
                return
        st.mem[r] = Blk(idx, tuple(vals), top)

    # ------------------------------------------------------------ operands
    def glob(self, name):
        g = self.globs.get(name)
        if g is not None:
            return g
        name = self.M.aliases.get(name, name)
        if name in self.M.funcs or name in self.M.decls:
            b = var('fn_' + name, 64)
            self.globs[name] = b
            return b
        info = self.M.glob(name)
        if info is None:
            raise Unsupported('global ' + name)
        ty, init, isconst, ext, al = info
        if not isconst and name not in self.gcontent and name not in GLOBAL_SPEC:
            fz = self.M.frozen(name)
            if fz:
                isconst = True
                if fz[1]:
                    init = fz[1][1]
        try:
            size, _ = ir.size_align(ty, self.M)
        except (ValueError, KeyError):
            size = 0
        data = None
        gran = 1
        if init is not None and size and (isconst or init is not None):
            data = self.flatten(ty, init, size)
        t = ty
        while t.k in ('a', 's'):
            if t.k == 'a':
                t = t.el
            elif t.k == 's' and len(t.el) == 1:
                t = t.el[0]
            else:
                break
        if t.k in ('i', 'f', 'p') and ty.k != 's' or (ty.k == 's' and len(ty.el) == 1):
            try:
                gran = max(1, ir.size_align(t, self.M)[0])
            except ValueError:
                gran = 1
        if isconst and data is not None and not any(isinstance(x, tuple) for x in data):
            r = Region('@' + name, gran, const(size // gran, 64), writable=False, kind='const', data=bytes(data))
        else:
            r = Region('@' + name, 1, const(size, 64) if size else None, kind='obj')
            gv = self.gcontent.get(name)
            if name in GLOBAL_SPEC:
                r.init = lambda ex, idx, w, f=GLOBAL_SPEC[name]: f(idx)
                r.writable = False
                self.used_assumptions.add('content of global %s as established at module initialisation' % name)
            elif isconst and data is not None:
                r.cdata = data
                r.init = self._mixed_init(data)
            elif gv is not None:
                def init_(ex, idx, w, gv=gv):
                    if isc(idx):
                        return const(gv >> (8 * idx.x), 8)
                    return None
                r.init = init_
                self.used_assumptions.add('content of global %s is %d' % (name, gv))
        self.regions[r.base.id] = r
        self.byname[r.name] = r
        self.globs[name] = r.base
        return r.base

    def _mixed_init(self, data):
        def init(ex, idx, w):
            if isc(idx) and idx.x < len(data):
                b = data[idx.x]
                if isinstance(b, tuple):
                    p = ex.glob(b[0])
                    p = add(p, const(b[2], 64))
                    return extract(p, 8 * b[1] + 7, 8 * b[1])
                return const(b, 8)
            return None
        return init

    def flatten(self, ty, c, size):
        """constant initialiser -> list of bytes (or (global, byteno, addend) tuples for pointers)"""
        M = self.M
        ty = ir.resolve(ty, M)
        k = c[0]
        if k in ('zero', 'undef'):
            return [0] * size
        if k == 'str':
            return list(c[1]) + [0] * (size - len(c[1]))
        if k == 'int':
            return list((c[1] & mask(8 * size)).to_bytes(size, 'little'))
        if k == 'flt':
            return list(c[1].to_bytes(16, 'little')[:size])
        if k == 'agg':
            out = [0] * size
            for i, (t, e) in enumerate(c[1]):
                t = ir.resolve(t, M)
                s, a = ir.size_align(t, M)
                if ty.k == 's':
                    off = ir.field_off(ty, i, M)
                else:
                    off = i * s
                out[off:off + s] = self.flatten(t, e, s)
            return out
        if k == 'glob':
            return [(c[1], i, 0) for i in range(8)]
        if k == 'cexpr' and c[1] == 'gep':
            base = c[3][0][1]
            if base[0] == 'glob':
                off = self.gep_off(c[2], [(t, const(e[1], 64)) for t, e in c[3][1:]])
                if isc(off):
                    return [(base[1], i, sval(off)) for i in range(8)]
        return [('?', i, 0) for i in range(size)]

    def val(self, o, ty, env):
        k = o[0]
        if k == 'loc':
            return env[o[1]]
        if k == 'glob':
            return self.glob(o[1])
        ty = ir.resolve(ty, self.M)
        if ty.k == 'v':
            if k == 'zero':
                w = ir.bits(ty.el)
                return Vec([const(0, w) if not (ty.el.k == 'i' and ty.el.n == 1) else FALSE] * ty.n)
            if k == 'undef':
                return Vec([self.undef(ty.el) for _ in range(ty.n)])
            if k == 'agg':
                return Vec([self.val(e, t, env) for t, e in c_list(o)])
        if ty.k == 'i':
            if k == 'int':
                if ty.n == 1:
                    return TRUE if o[1] else FALSE
                return const(o[1], ty.n)
            if k == 'undef':
                return self.undef(ty)
            if k == 'zero':
                return FALSE if ty.n == 1 else const(0, ty.n)
        if ty.k == 'f':
            if k == 'flt':
                return const(o[1], ty.n)
            if k == 'undef':
                return self.undef(ty)
            if k == 'zero':
                return const(0, ty.n)
        if ty.k == 'p':
            if k == 'int' or k == 'zero':
                return const(o[1] if k == 'int' else 0, 64)
            if k == 'undef':
                return const(0, 64)
        if ty.k in ('s', 'a'):
            if k in ('undef', 'zero'):
                els = ty.el if ty.k == 's' else [ty.el] * ty.n
                return Agg([self.val(o, t, env) for t in els])
            if k == 'agg':
                return Agg([self.val(e, t, env) for t, e in o[1]])
        if k == 'cexpr':
            if o[1] == 'gep':
                base = self.val(o[3][0][1], o[3][0][0], env)
                return add(base, self.gep_off(o[2], [(t, self.val(e, t, env)) for t, e in o[3][1:]]))
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                v = self.val(o[3][0][1], o[3][0][0], env)
                if isinstance(v, T) and o[2].k == 'i' and o[2].n != 64:
                    return trunc(v, o[2].n)
                return v
            if o[1] in ('sub', 'add'):
                a = self.val(o[3][0][1], o[3][0][0], env)
                b = self.val(o[3][1][1], o[3][1][0], env)
                return sub(a, b) if o[1] == 'sub' else add(a, b)
        if k == 'asm':
            return ('asm', o[1])
        raise Unsupported('operand %r : %r' % (o, ty))

    def undef(self, ty):
        if ty.k == 'i' and ty.n == 1:
            return FALSE
        return const(0, ir.bits(ty))

    def gep_off(self, ty, idxs):
        M = self.M
        t, v = idxs[0]
        ty = ir.resolve(ty, M)
        off = mulc(sext(v, 64) if v.w < 64 else v, ir.size_align(ty, M)[0])
        for t, v in idxs[1:]:
            ty = ir.resolve(ty, M)
            if ty.k == 's':
                i = v.x
                off = add(off, const(ir.field_off(ty, i, M), 64))
                ty = ty.el[i]
            else:
                ty = ty.el
                v64 = sext(v, 64) if v.w < 64 else v
                off = add(off, mulc(v64, ir.size_align(ir.resolve(ty, M), M)[0]))
        return off

    # ------------------------------------------------------------ execution
    def call_function(self, fn, args, st):
        fn.parse(self.M)
        analyse(fn)
        if len(self.fnstack) > 40:
            raise Unsupported('call depth')
        env = {}
        for (n, t), a in zip(fn.params, args):
            env[n] = a
        self.fnstack.append(fn.name)
        self.used_fns.add(fn.name)
        try:
            backs, exits, rets = self.run_region(fn, None, [(fn.order[0], 0, None, env, st)])
        finally:
            self.fnstack.pop()
        return rets

    def run_region(self, fn, loop, items):
        backs, exits, rets = [], [], []
        stack = list(items)
        first = True
        while stack:
            b, i, prev, env, st = stack.pop()
            if i == 0 and prev is not None:
                if loop is not None:
                    if b == loop.header:
                        backs.append((prev, env, st))
                        continue
                    if b not in loop.blocks:
                        exits.append((b, prev, env, st))
                        continue
                if b in fn.loops and not (loop is not None and b == loop.header):
                    ex, rt = self.summarise(fn, fn.loops[b], prev, env, st)
                    rets.extend(rt)
                    for e in ex:
                        stack.append((e[0], 0, e[1], e[2], e[3]))
                    continue
            elif i == 0 and b in fn.loops and loop is None:
                # entry block is a loop header
                ex, rt = self.summarise(fn, fn.loops[b], None, env, st)
                rets.extend(rt)
                for e in ex:
                    stack.append((e[0], 0, e[1], e[2], e[3]))
                continue
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            self.run_block(fn, b, i, prev, env, st, stack, rets)
        return backs, exits, rets

    def run_block(self, fn, b, i, prev, env, st, stack, rets):
        ins = fn.blocks[b]
        n = len(ins)
        if i == 0:
            # phis in parallel
            vals = {}
            while ins[i].op == 'phi':
                I = ins[i]
                for v, p in I.a:
                    if p == prev:
                        vals[I.res] = self.val(v, I.ty, env)
                        break
                else:
                    raise Unsupported('phi without predecessor')
                i += 1
            if vals:
                env = dict(env)
                env.update(vals)
            elif prev is None:
                env = dict(env)
            else:
                env = dict(env)
        while i < n:
            I = ins[i]
            op = I.op
            if op == 'br':
                if len(I.a) == 1:
                    stack.append((I.a[0], 0, b, env, st))
                    return
                c = self.val(I.a[0], ir.Ty('i', 1), env)
                self.branch(st, [(c, I.a[1]), (bnot(c), I.a[2])], b, env, stack)
                return
            if op == 'switch':
                v = self.val(I.a[0], I.ty, env)
                alts = []
                dflt = TRUE
                bylab = {}
                for cv, lab in I.a[2]:
                    c = eq(v, self.val(cv, I.ty, env))
                    bylab[lab] = bor(bylab.get(lab, FALSE), c)
                    dflt = band(dflt, bnot(c))
                if I.a[1] in bylab:
                    bylab[I.a[1]] = bor(bylab[I.a[1]], dflt)
                else:
                    bylab[I.a[1]] = dflt
                self.branch(st, [(c, l) for l, c in bylab.items()], b, env, stack)
                return
            if op == 'ret':
                rets.append((self.val(I.a[0], I.ty, env) if I.a else None, st))
                return
            if op == 'unreachable':
                # only legal after a call that does not return
                if not st.gh.get('dead'):
                    self.oblige(st, 'unreachable', FALSE, 'unreachable executed')
                return
            if op in ('call', 'invoke'):
                outs = self.do_call(I, env, st)
                if op == 'invoke':
                    lab = I.x[1]
                    for v, s2 in outs:
                        if s2.gh.get('dead'):
                            continue
                        e2 = dict(env) if len(outs) > 1 else env
                        if I.res is not None:
                            e2[I.res] = v
                        stack.append((lab, 0, b, e2, s2))
                    return
                if len(outs) == 1 and not outs[0][1].gh.get('dead'):
                    v, st = outs[0]
                    if I.res is not None:
                        env[I.res] = v
                    i += 1
                    continue
                for v, s2 in outs:
                    if s2.gh.get('dead'):
                        continue
                    e2 = dict(env)
                    if I.res is not None:
                        e2[I.res] = v
                    stack.append((b, i + 1, prev, e2, s2))
                return
            self.step(I, env, st)
            i += 1
        raise Unsupported('block without terminator')

    def branch(self, st, alts, b, env, stack):
        live = [(c, l) for c, l in alts if c is not FALSE]
        if len(live) == 1:
            c, l = live[0]
            st.assume(c)
            stack.append((l, 0, b, env, st))
            return
        for c, l in live:
            if c in st.pc:
                stack.append((l, 0, b, env, st))
                return
        live = [(c, l) for c, l in live if bnot(c) not in st.pc]
        out = []
        for c, l in live:
            if self.mode != 'disc' and len(live) > 1:
                if not feasible(st.pc + (c,)):
                    continue
            out.append((c, l))
        for j, (c, l) in enumerate(out):
            s2 = st.copy()
            s2.assume(c)
            stack.append((l, 0, b, dict(env), s2))

    # ------------------------------------------------------------ instructions
    def step(self, I, env, st):
        op = I.op
        f = getattr(self, 'x_' + op, None)
        if f is not None:
            r = f(I, env, st)
        elif op in ir.BIN:
            a = self.val(I.a[0], I.ty, env)
            b = self.val(I.a[1], I.ty, env)
            if op in DIVS and self.mode == 'real':
                self.div_ok(op, a, b, st)
            r = lanes2(lambda x, y: self.binop(op, x, y), a, b)
        elif op in ir.CAST:
            r = self.x_cast(I, env, st)
        else:
            raise Unsupported('instruction ' + (I.text or op))
        if I.res is not None:
            env[I.res] = r

    def div_ok(self, op, a, b, st):
        for x, y in zip(a.l, b.l) if isinstance(b, Vec) else [(a, b)]:
            if isc(y) and y.x not in (0, tm.mask(y.w)):
                continue
            g = bnot(eq(y, const(0, y.w)))
            if op[0] == 's':
                g = band(g, bnot(band(eq(y, const(-1, y.w)), eq(x, const(1 << (x.w - 1), x.w)))))
            self.oblige(st, 'division', g, op)

    def binop(self, op, x, y):
        if op == 'add':
            return tm.bxor(x, y) if x.w == 0 else add(x, y)
        if op == 'sub':
            return tm.bxor(x, y) if x.w == 0 else sub(x, y)
        if op == 'mul':
            return band(x, y) if x.w == 0 else mul(x, y)
        if op == 'and':
            return tm.bvand(x, y)
        if op == 'or':
            return tm.bvor(x, y)
        if op == 'xor':
            return tm.bvxor(x, y)
        if op == 'shl':
            return tm.shl(x, y)
        if op == 'lshr':
            return tm.lshr(x, y)
        if op == 'ashr':
            return tm.ashr(x, y)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return getattr(tm, op)(x, y)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.farith(op, x, y)
        raise Unsupported(op)

    def farith(self, op, x, y):
        return tm.fop(op, (x, y), x.w)

    def x_fneg(self, I, env, st):
        return lanes1(tm.f_neg, self.val(I.a[0], I.ty, env))

    def x_icmp(self, I, env, st):
        a = self.val(I.a[0], I.ty, env)
        b = self.val(I.a[1], I.ty, env)
        p = I.x
        if I.ty.k == 'p':
            return self.ptrcmp(p, a, b, st)
        r = lanes2(lambda x, y: icmp(p, x, y), a, b)
        if isinstance(r, T) and r.op in ('eq', 'not') and self.strides:
            r = self.destride(r, st)
        return r

    def ptrcmp(self, p, a, b, st):
        if p in ('eq', 'ne'):
            r = eq(a, b)
            if isc(a) or isc(b):
                # null comparisons: region bases are never null
                x = b if isc(a) else a
                c = a if isc(a) else b
                if c.x == 0:
                    if x.op == 'v' and x.x.startswith('fn_'):
                        return FALSE if p == 'eq' else TRUE
                    try:
                        al = self.lookup(x)
                        r = band(*[bnot(cc) for cc, _, _ in al])
                    except Unsupported:
                        pass
            if self.strides:
                r = self.destride(r, st)
            return r if p == 'eq' else bnot(r)
        d = None
        try:
            la, lb = self.lookup(a), self.lookup(b)
            if len(la) == 1 and len(lb) == 1 and la[0][1] is lb[0][1]:
                x, y = la[0][2], lb[0][2]
                d = sub(x, y)
                if isc(d) and abs(tm.sval(d)) < 1 << 32:
                    x, y = d, const(0, 64)          # offsets do not wrap
                r = icmp({'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p), x, y)
                return r
        except Unsupported:
            pass
        return icmp(p, a, b)

    def destride(self, r, st):
        """eq(s*a, s*b) -> eq(a,b) for a non-zero stride s, when the products cannot wrap"""
        neg = r.op == 'not'
        e = r.a[0] if neg else r
        if e.op != 'eq' or e.a[0].w != 64:
            return r
        d = sub(e.a[0], e.a[1])
        c, ms = tm._lin_parts(d)
        if c or not ms:
            return r
        for sid in self.strides:
            s = self.strides[sid]
            if all(s in mon for mon in ms):
                out = {}
                for mon, k in ms.items():
                    m = list(mon)
                    m.remove(s)
                    out[tuple(m)] = k
                one = out.pop((), 0)
                q = tm._lin_mk(one, out, 64)
                if self.mode == 'disc' or self.prove(st, band(slt(const(-(1 << (TBITS + 1)), 64), q), slt(q, const(1 << (TBITS + 1), 64)))):
                    x = eq(q, const(0, 64))
                    return bnot(x) if neg else x
        return r

    def x_fcmp(self, I, env, st):
        a = self.val(I.a[0], I.ty, env)
        b = self.val(I.a[1], I.ty, env)
        return lanes2(lambda x, y: tm.fcmp(I.x, x, y), a, b)

    def x_select(self, I, env, st):
        c = self.val(I.a[0], I.x, env)
        a = self.val(I.a[1], I.ty, env)
        b = self.val(I.a[2], I.ty, env)
        return self.select(c, a, b)

    def select(self, c, a, b):
        if isinstance(c, Vec):
            return Vec([ite(k, x, y) for k, x, y in zip(c.l, a.l, b.l)])
        if isinstance(a, Vec):
            return Vec([ite(c, x, y) for x, y in zip(a.l, b.l)])
        if isinstance(a, Agg):
            return Agg([self.select(c, x, y) for x, y in zip(a.l, b.l)])
        return ite(c, a, b)

    def x_freeze(self, I, env, st):
        return self.val(I.a[0], I.ty, env)

    def x_fence(self, I, env, st):
        return None

    def x_landingpad(self, I, env, st):
        raise Unsupported('landingpad')

    def x_alloca(self, I, env, st):
        ty = ir.resolve(I.ty, self.M)
        size, al = ir.size_align(ty, self.M)
        gran = 1
        if ty.k == 'a' and ty.el.k in ('i', 'f'):
            gran = ir.size_align(ty.el, self.M)[0]
        if I.x is not None:
            n = self.val(I.x[1], I.x[0], env)
            ln = zext(n, 64)
            if gran == 1 and ty.k in ('i', 'f'):
                gran = size
            ln = mulc(ln, size // gran)
        else:
            ln = const(size // gran, 64)
        fresh('al', 64)
        r = Region('alloca!%d' % tm._fresh[0], gran, ln, kind='obj')
        self.regions[r.base.id] = r
        return r.base

    def x_load(self, I, env, st):
        p = self.val(I.a[0], ir.PTR, env)
        return self.load(I.ty, p, st)

    def aligned(self, st, p, al):
        # only stores: the compilers fold most aligned vector loads into operands that need no alignment
        if self.mode == 'real':
            for c, r, off in self.lookup(p) or ():
                if r.kind == 'arr':
                    self.oblige(st, 'alignment', bor(bnot(c), eq(tm.bvand(add(r.base, off), const(al - 1, 64)), const(0, 64))), r.name)

    def load(self, ty, p, st):
        ty = ir.resolve(ty, self.M)
        if ty.k == 'v':
            if ty.el.k == 'i' and ty.el.n == 1:
                raise Unsupported('load of i1 vector')
            ew = ir.bits(ty.el)
            v = self.load_bytes(st, p, ty.n * ew // 8)
            return Vec([extract(v, ew * (i + 1) - 1, ew * i) for i in range(ty.n)])
        if ty.k in ('s', 'a'):
            els = ty.el if ty.k == 's' else [ty.el] * ty.n
            out = []
            for i, e in enumerate(els):
                off = ir.field_off(ty, i, self.M) if ty.k == 's' else i * ir.size_align(e, self.M)[0]
                out.append(self.load(e, add(p, const(off, 64)), st))
            return Agg(out)
        n = ir.bits(ty)
        nb = (n + 7) // 8
        v = self.load_bytes(st, p, nb)
        if n == 1:
            return eq(extract(v, 0, 0), const(1, 1))
        if n != 8 * nb:
            v = extract(v, n - 1, 0)
        return v

    def x_store(self, I, env, st):
        v = self.val(I.a[0], I.ty, env)
        p = self.val(I.a[1], ir.PTR, env)
        if I.x:
            self.aligned(st, p, I.x)
        self.store(I.ty, v, p, st)

    def store(self, ty, v, p, st):
        ty = ir.resolve(ty, self.M)
        if isinstance(v, Vec):
            v = concat(*reversed(v.l))
        elif isinstance(v, Agg):
            els = ty.el if ty.k == 's' else [ty.el] * ty.n
            for i, e in enumerate(els):
                off = ir.field_off(ty, i, self.M) if ty.k == 's' else i * ir.size_align(e, self.M)[0]
                self.store(e, v.l[i], add(p, const(off, 64)), st)
            return
        if v.w == 0:
            v = tm.b2bv(v, 8)
        if v.w % 8:
            v = zext(v, (v.w + 7) // 8 * 8)
        self.store_bytes(st, p, v)

    def x_getelementptr(self, I, env, st):
        t0, b = I.a[0]
        base = self.val(b, t0, env)
        idx = []
        for t, v in I.a[1:]:
            x = self.val(v, t, env)
            if isinstance(x, Vec):
                raise Unsupported('vector gep')
            if x.w < 64:
                x = self.widen(x, st)
            idx.append((t, x))
        return add(base, self.gep_off(I.ty, idx))

    def widen(self, x, st):
        """sign-extend a narrow index; in linear form when that is provably exact"""
        if isc(x) or x.op not in ('lin', 'extract', 'mulm'):
            return sext(x, 64)
        s = sext(x, 64)
        if self.mode == 'disc':
            return self._widen_guess(x) or s
        g = self._widen_guess(x)
        if g is not None and g is not s and self.prove(st, eq(s, g), 3000):
            return g
        return s

    def _widen_guess(self, x):
        c, ms = tm._lin_parts(x)
        out = const(c - (1 << x.w) if c >> (x.w - 1) else c, 64)
        for mon, k in ms.items():
            ks = k - (1 << x.w) if k >> (x.w - 1) else k
            p = const(ks, 64)
            for u in mon:
                if u.op == 'extract' and u.x[1] == 0 and u.a[0].w == 64:
                    p = mul(p, u.a[0])
                else:
                    p = mul(p, sext(u, 64))
            out = add(out, p)
        return out

    def x_cast(self, I, env, st):
        v = self.val(I.a[0], I.x, env)
        to = I.ty
        op = I.op
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            w = ir.bits(to)
            return v if w == v.w else (trunc(v, w) if w < v.w else zext(v, w))
        if op == 'bitcast':
            return bitcast(v, I.x, to)
        tw = ir.bits(to.el if to.k == 'v' else to)
        if op == 'sext' and isinstance(v, T) and tw == 64 and v.w == 32 and v.op in ('lin', 'extract', 'mulm'):
            return self.widen(v, st)
        if op == 'zext' and isinstance(v, T) and tw == 64 and v.w == 32 and v.op in ('lin', 'extract', 'mulm'):
            g = self._widen_guess(v)
            s = zext(v, 64)
            if g is not None and (self.mode == 'disc' or self.prove(st, eq(s, g), 3000)):
                return g
            return s

        def f(x):
            return self.cast1(op, x, tw)
        return lanes1(f, v)

    def cast1(self, op, x, tw):
        if op == 'trunc':
            if tw == 1:
                return eq(extract(x, 0, 0), const(1, 1))
            return trunc(x, tw)
        if op == 'zext':
            return zext(x, tw)
        if op == 'sext':
            return sext(x, tw)
        if op in ('sitofp', 'uitofp') and x.w == 0:
            x = sext(x, 8) if op == 'sitofp' else zext(x, 8)
        if op in ('fptosi', 'fptoui'):
            if tw == 1:
                return eq(extract(tm.fop(op, (x,), 8), 0, 0), const(1, 1))
            return tm.fop(op, (x,), tw)
        if op == 'sitofp' and x.op == 'sext':
            # exact: the integer value is unchanged by sign extension
            return self.itof(x, True, tw)
        return self.itof(x, op == 'sitofp', tw) if op in ('sitofp', 'uitofp') else tm.fop(op, (x,), tw)

    def itof(self, x, signed, tw):
        return tm.fop('sitofp' if signed else 'uitofp', (x,), tw)

    def x_extractvalue(self, I, env, st):
        v = self.val(I.a[0], I.ty, env)
        for i in I.x:
            v = v.l[i]
        return v

    def x_insertvalue(self, I, env, st):
        v = self.val(I.a[0], I.ty, env)
        t = ir.resolve(I.ty, self.M)
        for i in I.x:
            t = ir.resolve(t.el[i] if t.k == 's' else t.el, self.M)
        e = self.val(I.a[1], t, env)

        def go(a, idx):
            l = list(a.l)
            l[idx[0]] = e if len(idx) == 1 else go(l[idx[0]], idx[1:])
            return Agg(l)
        return go(v, I.x)

    def x_extractelement(self, I, env, st):
        v = self.val(I.a[0], I.ty, env)
        i = self.val(I.a[1], ir.Ty('i', 64), env)
        if isc(i):
            return v.l[i.x]
        r = v.l[0]
        for j in range(1, len(v.l)):
            r = ite(eq(i, const(j, i.w)), v.l[j], r)
        return r

    def x_insertelement(self, I, env, st):
        v = self.val(I.a[0], I.ty, env)
        e = self.val(I.a[1], I.ty.el, env)
        i = self.val(I.a[2], ir.Ty('i', 64), env)
        if isc(i):
            l = list(v.l)
            l[i.x] = e
            return Vec(l)
        return Vec([ite(eq(i, const(j, i.w)), e, v.l[j]) for j in range(len(v.l))])

    def x_shufflevector(self, I, env, st):
        a = self.val(I.a[0], I.ty, env)
        b = self.val(I.a[1], I.ty, env)
        m = I.a[2]
        n = I.x.n
        if m[0] == 'zero':
            idx = [0] * n
        elif m[0] == 'undef':
            idx = [None] * n
        else:
            idx = [e[1] if e[0] == 'int' else None for _, e in m[1]]
        al = a.l + b.l
        z = self.undef(I.ty.el)
        return Vec([al[i] if i is not None else z for i in idx])

    def x_atomicrmw(self, I, env, st):
        p = self.val(I.a[0], ir.PTR, env)
        v = self.val(I.a[1], I.ty, env)
        for c, r, off in self.lookup(p) or ():
            if c is TRUE and r.hook:
                old = r.hook(self, st, 'rmw', off, v.w // 8, (I.x, v))
                if old is not None:
                    return old
        old = self.load(I.ty, p, st)
        f = {'add': add, 'sub': sub, 'and': tm.bvand, 'or': tm.bvor, 'xor': tm.bvxor, 'xchg': lambda a, b: b}[I.x]
        self.store(I.ty, f(old, v), p, st)
        return old

    def x_cmpxchg(self, I, env, st):
        p = self.val(I.a[0], ir.PTR, env)
        e = self.val(I.a[1], I.ty, env)
        n = self.val(I.a[2], I.ty, env)
        old = self.load(I.ty, p, st)
        c = eq(old, e)
        self.store(I.ty, ite(c, n, old), p, st)
        return Agg([old, c])

    # ------------------------------------------------------------ calls
    def do_call(self, I, env, st):
        callee = I.x[0] if I.op == 'invoke' else I.x
        args = []
        for t, a in I.a:
            if t.k == 'metadata':
                args.append(None)
            else:
                args.append(self.val(a, t, env))
        if callee[0] == 'glob':
            name = self.M.aliases.get(callee[1], callee[1])
        elif callee[0] == 'asm':
            name = 'asm:' + callee[1]
        else:
            p = self.val(callee, ir.PTR, env)
            return self.call_ptr(p, I, args, st)
        return self.call_name(name, I, args, st)

    def call_ptr(self, p, I, args, st):
        if p.op == 'ite':
            out = []
            for c, q in ((p.a[0], p.a[1]), (bnot(p.a[0]), p.a[2])):
                s2 = st.copy().assume(c)
                if self.mode != 'disc' and not feasible(s2.pc):
                    continue
                out += self.call_ptr(q, I, args, s2)
            return out
        if p.op == 'v' and p.x.startswith('fn_'):
            return self.call_name(p.x[3:], I, args, st)
        h = self.handlers.get('*indirect')
        if h:
            r = h(self, I, args, st, p)
            if r is not None:
                return r
        raise Unsupported('indirect call through %r' % p)

    def call_name(self, name, I, args, st):
        h = self.handlers.get(name)
        if h is None:
            for k, hh in self.handlers.items():
                if k.endswith('*') and k != '*indirect' and name.startswith(k[:-1]):
                    h = hh
                    break
        if h is None and name.startswith('llvm.'):
            from . import intrin
            return [(intrin.call(self, name, I, args, st), st)]
        if h is None and name in self.M.funcs and not name.startswith('_ZN7riptide7logging6logger'):
            return self.call_function(self.M.funcs[name], args, st)
        if h is None:
            from . import extern
            h = extern.find(name)
        if h is not None:
            r = h(self, I, args, st)
            if isinstance(r, list):
                return r
            return [(r, st)]
        raise Unsupported('call to ' + name)

    # ------------------------------------------------------------ loops
    def summarise(self, fn, L, prev, env, st):
        from . import loops
        return loops.summarise(self, fn, L, prev, env, st)


def c_list(o):
    return o[1]


def lanes1(f, a):
    if isinstance(a, Vec):
        return Vec([f(x) for x in a.l])
    return f(a)


def lanes2(f, a, b):
    if isinstance(a, Vec):
        return Vec([f(x, y) for x, y in zip(a.l, b.l)])
    return f(a, b)


def icmp(p, x, y):
    if x.w == 0:
        x, y = tm.b2bv(x, 1), tm.b2bv(y, 1)
        if p == 'eq':
            return tm.beq(eq(x, const(1, 1)), eq(y, const(1, 1)))
        if p == 'ne':
            return bnot(tm.beq(eq(x, const(1, 1)), eq(y, const(1, 1))))
    if p == 'eq':
        return eq(x, y)
    if p == 'ne':
        return bnot(eq(x, y))
    if p == 'ult':
        return ult(x, y)
    if p == 'ugt':
        return ult(y, x)
    if p == 'ule':
        return ule(x, y)
    if p == 'uge':
        return ule(y, x)
    if p == 'slt':
        return slt(x, y)
    if p == 'sgt':
        return slt(y, x)
    if p == 'sle':
        return sle(x, y)
    if p == 'sge':
        return sle(y, x)
    raise Unsupported('icmp ' + p)


def bitcast(v, fr, to):
    if isinstance(v, Vec):
        if fr.el.k == 'i' and fr.el.n == 1:
            v = concat(*[tm.b2bv(x, 1) for x in reversed(v.l)])
        else:
            v = concat(*reversed(v.l))
    if to.k == 'v':
        if to.el.k == 'i' and to.el.n == 1:
            return Vec([eq(extract(v, i, i), const(1, 1)) for i in range(to.n)])
        ew = ir.bits(to.el)
        return Vec([extract(v, ew * (i + 1) - 1, ew * i) for i in range(to.n)])
    return v
