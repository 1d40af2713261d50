"""Loop summaries: invariant synthesis (heuristic, untrusted) and invariant checking (obligations).

A loop is cut at its header.  Candidate invariants come from the shape of the code (linear induction
variables, guards, write patterns) and from the contract (ghost folds, user invariants).  Synthesis is not
trusted: the final run re-checks base and step of everything it assumes.
"""
import re
from . import term as tm
from . import ir
from .term import (TRUE, FALSE, const, var, fresh, uf, add, sub, mul, mulc, eq, ult, ule, slt, sle, band, bor, bnot,
                   ite, extract, concat, zext, sext, trunc, isc, sval, mask, implies)
from .sym import (Vec, Agg, Blk, Rng, Per, Hav, PH, Fun, St, Recurrence, Unsupported, Region, TBITS, Ob)
from .solver import prove_final, prove, feasible

_mf = {}
_NUM = re.compile(r'!(\d+)$')


def maxfresh(t):
    """largest fresh-name number occurring in t"""
    r = _mf.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u.id in _mf:
            st.pop()
            continue
        todo = [z for z in u.a if z.id not in _mf]
        if todo:
            st.extend(todo)
            continue
        m = 0
        if u.op in ('v', 'uf'):
            k = _NUM.search(u.x)
            if k:
                m = int(k.group(1))
        for z in u.a:
            m = max(m, _mf[z.id])
        _mf[u.id] = m
        st.pop()
    return _mf[t.id]


import os
DBG = bool(os.environ.get('VC_DBG'))


def dbg(*a):
    if DBG:
        print('   loop:', *[str(x)[:1500] for x in a])


class NotDivisible(Exception):
    pass


def tsub(term, t, s, expr, cache):
    """replace t by expr/s ; every occurrence of t must carry a coefficient divisible by s"""
    tid = t.id

    def repl(w):
        return expr if w == 64 else extract(expr, w - 1, 0)

    def is_t(u):
        return u.id == tid or (u.op == 'extract' and u.a[0].id == tid and u.x[1] == 0)

    def go(u):
        r = cache.get(u.id)
        if r is not None:
            return r
        if tid not in tm.fv(u):
            r = u
        elif u.op == 'lin' and u.w > 0:
            at = {z.id: z for z in u.a}
            c, ms = u.x
            r = const(c, u.w)
            for k, mon in ms:
                ks = k - (1 << u.w) if k >> (u.w - 1) else k
                hit = [i for i in mon if is_t(at[i])]
                if hit:
                    if ks % s:
                        raise NotDivisible
                    p = mulc(repl(u.w), ks // s)
                    rest = list(mon)
                    rest.remove(hit[0])
                else:
                    p = const(k, u.w)
                    rest = list(mon)
                for i in rest:
                    p = mul(p, go(at[i]))
                r = add(r, p)
        elif is_t(u):
            if s == 1:
                r = repl(u.w)
            elif s == -1:
                r = mulc(repl(u.w), -1)
            else:
                raise NotDivisible
        else:
            r = tm.rebuild(u, [go(z) for z in u.a])
        cache[u.id] = r
        return r
    return go(term)


def lin_t(x, t):
    """x = A + c*t with A free of t -> (A, c) or None"""
    if t.id not in tm.fv(x):
        return x, 0
    c, ms = tm._lin_parts(x)
    rest = {}
    k = 0
    for mon, co in ms.items():
        if t in mon:
            if len(mon) != 1:
                return None
            k = co
        else:
            for u in mon:
                if t.id in tm.fv(u):
                    return None
            rest[mon] = co
    k = k - (1 << x.w) if k >> (x.w - 1) else k
    return tm._lin_mk(c, rest, x.w), k


def lanes(v):
    return v.l if isinstance(v, Vec) else [v]


class View:
    """loop state at which an invariant is evaluated"""
    __slots__ = ('ls', 'ex', 't', 'vals', 'st')

    def __init__(self, ls, t, vals, st):
        self.ls = ls
        self.ex = ls.ex
        self.t = t
        self.vals = vals      # key -> T
        self.st = st

    def read(self, r, idx):
        return self.ex.read_elem(self.st, r, idx)


class LS:
    def __init__(self, ex, fn, L, prev, env, st):
        self.ex = ex
        self.fn = fn
        self.L = L
        self.prev = prev
        self.env = env
        self.st = st
        self.mark = tm._fresh[0]
        self.phis = []
        for I in fn.blocks[L.header]:
            if I.op != 'phi':
                break
            for v, p in I.a:
                if p == prev:
                    self.phis.append((I, ex.val(v, I.ty, env)))
                    break
            else:
                raise Unsupported('phi without predecessor')
        self.cells = {}            # key -> (region, idx)
        self.lin = {}              # key -> delta T   (linear keys)
        self.W = {}                # region -> 'hav' | 'cell' | ('map', A, s, pieces...) | ('rng', ...)
        self.nested = 0
        self._prog = None
        self.fopts = {}
        self.wasrng = set()

    # ---------------------------------------------------------------- keys
    def keys(self):
        for I, e in self.phis:
            for j, x in enumerate(lanes(e)):
                yield (I.res, j), x
        for k, (r, idx, e) in self.cells.items():
            yield k, e

    def entry_vals(self):
        return dict(self.keys())

    def hav_value(self, key, e):
        """arbitrary value of the kind of e"""
        nm = re.sub(r'[^A-Za-z0-9_.]', '', str(key[0]))
        if e.w == 64 and e.op in ('v', 'lin', 'ite'):
            try:
                al = self.ex.lookup(e)
            except Unsupported:
                al = None
            if al and len(al) == 1:
                r = al[0][1]
                q = fresh('o_' + nm, 64)
                return add(r.base, mul(r.stride, q) if r.stride is not None else q)
            if al and len(al) > 1:
                # the same symbolic choice of region
                q = fresh('o_' + nm, 64)
                return self.itebase(e, q)
        return fresh('x_' + nm, e.w)

    def itebase(self, e, q):
        ex = self.ex
        al = ex.lookup(e)
        res = None
        for c, r, o in reversed(al):
            p = add(r.base, mul(r.stride, q) if r.stride is not None else q)
            res = p if res is None else ite(c, p, res)
        return res

    def head_vals(self, t):
        vals = {}
        for k, e in self.keys():
            d = self.lin.get(k)
            if d is not None:
                if isc(d) and d.x == 0:
                    vals[k] = e
                else:
                    vals[k] = add(e, mul(d, t if e.w == 64 else extract(t, e.w - 1, 0)))
            else:
                vals[k] = self.hav_value(k, e)
        return vals

    def head_state(self, vals, t, plan, st=None):
        """environment and state at the loop head; plan: region -> layer constructor"""
        env = dict(self.env)
        for I, e in self.phis:
            if isinstance(e, Vec):
                env[I.res] = Vec([vals[(I.res, j)] for j in range(len(e.l))])
            else:
                env[I.res] = vals[(I.res, 0)]
        st = (st or self.st).copy()
        for r, p in self.W.items():
            if p == 'cell':
                continue
            st.mem[r] = plan(r, p, self.st.mem.get(r), t, vals)
        byreg = {}
        for k, (r, idx, e) in self.cells.items():
            byreg.setdefault(r, []).append((k, idx))
        for r, l in byreg.items():
            for k, idx in l:
                self.ex.push_blk(st, r, idx, (vals[k],))
        return env, st

    def body(self, env, st):
        fn, L = self.fn, self.L
        n = len(self.phis)
        return self.ex.run_region(fn, L, [(L.header, n, self.prev, env, st)])

    def back_vals(self, prevb, env, st):
        ex = self.ex
        vals = {}
        for I, e in self.phis:
            for v, p in I.a:
                if p == prevb:
                    x = ex.val(v, I.ty, env)
                    break
            else:
                raise Unsupported('phi back edge')
            for j, y in enumerate(lanes(x)):
                vals[(I.res, j)] = y
        for k, (r, idx, e) in self.cells.items():
            vals[k] = ex.read_elem(st, r, idx)
        return vals

    # ---------------------------------------------------------------- discovery
    def layers(self, st, r, stop):
        out = []
        n = st.mem.get(r)
        while n is not stop:
            if n is None:
                return None
            out.append(n)
            n = n.nx
        return out

    def discover(self):
        ex = self.ex
        save = ex.mode
        ex.mode = 'disc'
        try:
            for k, e in self.keys():
                self.lin[k] = None
            forbidden = set()
            for rnd in range(12):
                # all keys arbitrary
                self.lin = {}
                t = fresh('t', 64)
                mark = tm._fresh[0]
                vals = self.head_vals(t)
                stops = {}

                def plan(r, p, nx, t, vals):
                    h = Hav('hv_%s!%d' % (r.name, fresh('h', 64).id))
                    h = Hav(fresh('hv_' + r.name, 64).x, nx)
                    stops[r] = h
                    return h
                env, st = self.head_state(vals, t, plan)
                base = dict(st.mem)
                backs, exits, rets = self.body(env, st)
                again = False
                wr = {}
                for p_, e_, s_ in backs:
                    for r in s_.mem:
                        if s_.mem[r] is not base.get(r):
                            wr.setdefault(r, []).append((s_, e_))
                for r, l in wr.items():
                    if r.base.id not in ex.regions:
                        continue
                    if r in self.W and self.W[r] != 'cell':
                        continue
                    if maxfresh(r.base) > self.mark and r.name.startswith('alloca!'):
                        continue        # created inside the body
                    # all constant-index writes?
                    cells = []
                    ok = r not in forbidden
                    for s_, e_ in l:
                        ly = self.layers(s_, r, base.get(r)) if ok else None
                        if ly is None:
                            # obj regions merge blocks in place
                            if ok and isinstance(s_.mem[r], Blk) and isinstance(base.get(r), Blk) and s_.mem[r].nx is base[r].nx:
                                ly = [s_.mem[r]]
                            else:
                                ok = False
                                break
                        for n in ly:
                            if not isinstance(n, Blk) or maxfresh(n.idx) > self.mark:
                                ok = False
                                break
                            for j in range(len(n.vals)):
                                cells.append(add(n.idx, const(j, 64)))
                        if not ok:
                            break
                    if ok and len(cells) < 200:
                        for idx in cells:
                            k = ('#' + r.name, idx.id)
                            if k not in self.cells:
                                self.cells[k] = (r, idx, None)
                                again = True
                        if r not in self.W:
                            self.W[r] = 'cell'
                            again = True
                    else:
                        forbidden.add(r)
                        for k in [k for k in self.cells if self.cells[k][0] is r]:
                            del self.cells[k]
                        self.W[r] = 'hav'
                        again = True
                for k in list(self.cells):
                    r, idx, e = self.cells[k]
                    if e is None:
                        self.cells[k] = (r, idx, ex.read_elem(self.st, r, idx))
                if again:
                    continue
                # linear keys: same loop-invariant delta on all back edges; validated by re-running
                lin = {}
                for k, e in self.keys():
                    lin[k] = 'u'
                for p_, e_, s_ in backs:
                    bv = self.back_vals(p_, e_, s_)
                    for k in lin:
                        if lin[k] is None:
                            continue
                        if bv[k].w == 0:
                            lin[k] = const(0, 1) if bv[k] is vals[k] and lin[k] in ('u', const(0, 1)) else None
                            continue
                        d = sub(bv[k], vals[k])
                        if maxfresh(d) > self.mark:
                            lin[k] = None
                        elif lin[k] == 'u':
                            lin[k] = d
                        elif lin[k] is not d:
                            lin[k] = None
                self.lin = {k: d for k, d in lin.items() if d is not None and d != 'u'}
                self.nbacks = len(backs)
                return
            raise Unsupported('loop discovery did not converge')
        finally:
            ex.mode = save

    # ---------------------------------------------------------------- ghost folds
    def progress(self, X):
        """row-progress expressions P(view) with P(entry) == X, from the induction variables: [(name, P, rows per iteration or None)]"""
        if self._prog is None:
            ex = self.ex
            L = []
            for k, e in self.keys():
                if e.w not in (32, 64) or k[0] in self.cells:
                    continue
                d = self.lin.get(k)
                if d is not None and isc(d) and d.x == 0:
                    continue
                g = 1
                if self.isptr(k):
                    try:
                        al = ex.lookup(e)
                    except Unsupported:
                        continue
                    if not al or len({a[1].gran for a in al}) != 1 or al[0][1].stride is not None:
                        continue
                    g = al[0][1].gran
                for sgn in (1, -1):
                    if d is not None:
                        if not isc(d) or sval(d) * sgn <= 0 or sval(d) % g:
                            continue
                        L.append((str(k), None, sval(d) * sgn // g, k, sgn, g))
                    elif sgn == 1:
                        L.append((str(k), None, None, k, sgn, g))
            seen = set()
            out = []
            for x in L:
                q = ('t', x[2]) if x[2] is not None else x[3:]
                if q in seen:
                    continue
                seen.add(q)
                out.append(x)
            out.sort(key=lambda x: (x[2] is None, x[2] or 0))
            if not any(x[2] == 1 for x in out):
                out.append(('t', None, 1, None, 1, 1))
            self._prog = out
        res = []
        ents = self.entry_vals()
        for name, _, c, k, sgn, g in self._prog:
            if c is not None and c > 1 and k is not None and sgn == 1 and g == 1:
                for b in self.gbounds.get(k, {}).values():
                    def P(v, k=k, e=ents[k], b=b):
                        x, y, z = v.vals[k], b, e
                        if x.w == 32:
                            x, y, z = sext(x, 64), sext(y, 64), sext(z, 64)
                        return ite(eq(v.t, const(0, 64)), X, add(X, sub(ite(slt(x, y), x, y), z)))
                    res.append((name + '<=', P, None))
            if c is not None:
                P = lambda v, c=c: add(X, mulc(v.t, c))
            else:
                def P(v, k=k, g=g, e=ents[k]):
                    x = v.vals[k]
                    if x.w == 32:
                        x, e = sext(x, 64), sext(e, 64)
                    return add(X, exdiv(sub(x, e), g))
            res.append((name, P, c))
        return res

    def fold_entries(self, F, v, args):
        """candidate numbers of rows already folded into the entry value v"""
        z = const(0, 64)
        names = ['S_' + F.name] if not hasattr(F, 'folds') else ['S_' + (f[0] if isinstance(f, tuple) else f).name for f in F.folds]
        found = {}
        stack, seen = [v], set()
        while stack:
            u = stack.pop()
            if u.id in seen or len(seen) > 300:
                continue
            seen.add(u.id)
            if u.op == 'uf' and u.x in names:
                found.setdefault(names.index(u.x), u.a[-1])
            stack.extend(u.a)
        out = []
        for j in sorted(found):
            X = found[j]
            if X.op not in ('v', 'c'):
                for y in [z] + [e for k, e in self.keys() if e.w == 64 and not self.isptr(k)]:
                    if y is not X and prove(self.st.pc, eq(X, y), 1000, use_cvc5=False, fp=False).status == 'proved':
                        X = y
                        break
            if X not in out:
                out.append(X)
        if z not in out:
            out.append(z)
        return out

    def fold_entry(self, F, v, args):
        return self.fold_entries(F, v, args)[0]

    def within(self, r, k):
        """a region invariant speaks about the elements of the region; no access outside it is ever proved in bounds"""
        return (sle(const(0, 64), k), slt(k, r.len)) if r.len is not None else ()

    def fold_options(self, r):
        ex = self.ex
        out = []
        k = fresh('kf', 64)
        ex.nolog += 1
        try:
            v = ex.read_elem(self.st, r, k)
        except (Unsupported, Recurrence):
            return out
        finally:
            ex.nolog -= 1
        for F in ex.folds:
            if F.region is not r:
                continue
            for X in self.fold_entries(F, v, (k,))[:3]:
                st = self.st.copy()
                st.assume(*F.facts((k,), X, 0))
                st.assume(*self.within(r, k))
                if prove(st.pc, eq(v, F.S(k, X)), 5000, use_cvc5=True).status == 'proved':
                    break
                dbg('fold', F.name, 'does not describe', r.name, 'before', self.L.header, eq(v, F.S(k, X)))
            else:
                continue
            out.append([('fold', F, P, c) if c is None or c <= 64 else None for name, P, c in self.progress(X)])
        return out

    def fold_plan(self, opts):
        """joint choices for all fold regions: the same row progress everywhere"""
        import itertools
        combos = []
        rs = list(opts)
        if not rs:
            return combos
        for j in range(max(len(l) for r in rs for l in opts[r])):
            for ch in itertools.product(*[opts[r] for r in rs]):
                c = {}
                for r, l in zip(rs, ch):
                    if j < len(l) and l[j] is not None:
                        c[r] = l[j]
                if len(c) == len(rs):
                    combos.append(c)
        if len(rs) > 1:
            for r in rs:
                for l in opts[r]:
                    for o in l:
                        if o is not None:
                            combos.append({r: o})
        return combos[:40]

    def fold_scalar_cands(self, cand):
        ex = self.ex
        for F in ex.folds:
            if F.region is not None:
                continue
            asets = F.argsets(self) if callable(F.argsets) else F.argsets
            for k, e in self.keys():
                if e.w != F.w or (k in self.lin and isc(self.lin[k]) and self.lin[k].x == 0) or (e.w == 64 and self.isptr(k)):
                    continue
                for args in asets:
                    X = self.fold_entry(F, e, args)
                    for name, P, c in self.progress(X):
                        if c is not None and c > 64:
                            continue

                        def f(view, k=k, P=P, F=F, args=args):
                            return eq(view.vals[k], F.S(*args, P(view)))
                        f.fold = (F, args, P, c)
                        cand(('fold', F.name, k, name) + tuple(a.id for a in args), f)

    # ---------------------------------------------------------------- candidates
    def conj_new(self, pc):
        base = set(self.headpc)
        return [c for c in pc if c not in base]

    def gen_candidates(self, t, vals, backs, exits):
        """from guards of the disc run in t-form"""
        out = {}

        def cand(name, f):
            out.setdefault(name, f)
        hv = list(vals.items())
        inv = lambda x: maxfresh(x) <= self.mark
        m = {}

        def abstract(term):
            """term over head values -> function of a view (t and havocked values substituted)"""
            nl = [(k, v) for k, v in hv if k not in self.lin]

            def f(view):
                mp = {t: view.t}
                for k, v in nl:
                    if v.op == 'v':
                        mp[v] = view.vals[k]
                    elif v.w == 64:
                        # base + off
                        o = [u for u in tm._lin_parts(v)[1] if len(u) == 1 and maxfresh(u[0]) > self.mark]
                        if len(o) == 1 and o[0][0].op == 'v':
                            mp[o[0][0]] = add(o[0][0], sub(view.vals[k], v))
                return tm.subst(term, mp)
            return f

        def closed(term):
            """only t, nonlinear heads, and invariants"""
            if maxfresh(term) <= self.mark:
                return True
            ok = set([t.id])
            for k, v in hv:
                ok |= set(i for i in tm.fv(v))
            for i in tm.fv(term):
                if i in ok:
                    continue
                u = _byid(i)
                if u is None or maxfresh(u) > self.mark:
                    return False
            return not _badufs(term, self.mark)

        # narrow induction variables do not wrap
        for k, d in self.lin.items():
            e = dict(self.keys())[k]
            if 1 < e.w < 64 and not (isc(d) and d.x == 0):
                v = vals[k]

                def nw(view, e=e, d=d):
                    tt = view.t
                    return eq(sext(add(e, mul(d, extract(tt, e.w - 1, 0))), 64), add(sext(e, 64), mul(sext(d, 64), tt)))
                cand('nowrap-%s' % (k,), nw)
        # history: continuation condition of the previous iteration
        hist = []
        pcs = []
        for p_, e_, s_ in backs:
            cs = [c for c in self.conj_new(s_.pc)]
            good = [c for c in cs if maxfresh(c) <= self.mark or
                    (t.id in tm.fv(c) and all((i == t.id or _byid(i) is None or maxfresh(_byid(i)) <= self.mark) for i in tm.fv(c))
                     and not _badufs(c, self.mark))]
            pcs.append(good)
            for c in cs:
                if not closed(c):
                    continue
                for a, b, kind in guard_atoms(c):
                    if kind == 'ne':
                        for x, y in ((a, b), (b, a)):
                            cand(('le', x.id, y.id), abstract(sle(x, y)))
                            if x.w < 64:
                                cand(('ule', x.id, y.id), abstract(ule(x, y)))
                    elif kind in ('slt', 'ult'):
                        nlf = any(t.id != i for i in tm.fv(a) if _byid(i) is not None and maxfresh(_byid(i)) > self.mark)
                        f = sle if kind == 'slt' else ule
                        cand((kind, a.id, b.id), abstract(f(a, b)))
        if pcs:
            common = set(pcs[0])
            for p in pcs[1:]:
                common &= set(p)
            common = [c for c in common if t.id in tm.fv(c)]
            for c in common:
                def h(view, c=c):
                    return bor(eq(view.t, const(0, 64)), tm.subst(c, {t: sub(view.t, const(1, 64))}))
                cand(('hist', c.id), h)
            if 1 < len(pcs) <= 6:
                dis = []
                for p in pcs:
                    dis.append(band(*[c for c in p if c not in common]))
                c = bor(*dis)
                if c is not TRUE and t.id in tm.fv(c):
                    def h2(view, c=c):
                        return bor(eq(view.t, const(0, 64)), tm.subst(c, {t: sub(view.t, const(1, 64))}))
                    cand(('histor', c.id), h2)
        # nonlinear integers stay above their entry value / non-negative
        for k, v in hv:
            if k in self.lin or v.w not in (32, 64):
                continue
            e = dict(self.keys())[k]
            if self.isptr(k):
                def ge(view, k=k, e=e):
                    return sle(const(0, 64), sub(view.vals[k], e))
                cand(('ptrge', k), ge)
                continue
            cand(('nonneg', k), lambda view, k=k: sle(const(0, view.vals[k].w), view.vals[k]))
            cand(('geentry', k), lambda view, k=k, e=e: sle(e, view.vals[k]))
        self.fold_scalar_cands(cand)
        # contract supplied
        for g in self.ex.invs:
            for name, f in g(self):
                cand(('contract', name), f)
        return out

    def isptr(self, k):
        for I, e in self.phis:
            if I.res == k[0]:
                return I.ty.k == 'p'
        return False

    # ---------------------------------------------------------------- main
    def tform(self):
        """disc run with linear variables in closed form -> write pattern guesses + guards"""
        ex = self.ex
        save = ex.mode
        ex.mode = 'disc'
        try:
            t = fresh('t', 64)
            vals = self.head_vals(t)
            stops = {}

            def plan(r, p, nx, t, vals):
                h = Hav(fresh('hv_' + r.name, 64).x, nx)
                stops[r] = h
                return h
            env, st = self.head_state(vals, t, plan)
            self.headpc = list(st.pc)
            backs, exits, rets = self.body(env, st)
            self.gbounds = {}
            ks = {v.id: k for k, v in vals.items()}
            for p_, e_, s_ in backs:
                for c in self.conj_new(s_.pc):
                    for a, b, kind in guard_atoms(c):
                        for x, y in ((a, b), (b, a)) if kind == 'ne' else ((a, b),):
                            if x.id in ks and maxfresh(y) <= self.mark and kind in ('slt', 'ult', 'ne'):
                                self.gbounds.setdefault(ks[x.id], {})[y.id] = y
            self.cands = self.gen_candidates(t, vals, backs, exits)
            # write patterns
            self.pat = {}
            fopts = {}
            for r, p in self.W.items():
                if p != 'hav':
                    continue
                self.pat[r] = self.pattern(r, [b[2] for b in backs], stops[r], t, vals)
                if self.pat[r] == ('hav',) and any(F.region is r for F in ex.folds):
                    l = self.fold_options(r)
                    if l:
                        fopts[r] = l
            self.fopts = fopts
            self.combos = self.fold_plan(fopts)
            self.next_combo()
        finally:
            ex.mode = save

    def next_combo(self):
        dbg('combos left', len(self.combos), 'at', self.L.header, [r.name for r in self.fopts], [(r.name, c[1].name) for q in self.combos[:1] for r, c in q.items()])
        c = self.combos.pop(0) if self.combos else {}
        for r in self.fopts:
            self.pat[r] = c.get(r, ('hav',))
            if r in self.wasrng and not c:
                self.wasrng.discard(r)
                self.pat[r] = ('rng',)

    def late_fold(self, r):
        """a range pattern did not work out: try a fold description"""
        if r in self.fopts or not any(F.region is r for F in self.ex.folds):
            return False
        l = self.fold_options(r)
        if not l:
            return False
        self.fopts[r] = l
        for q, p in self.pat.items():
            if q not in self.fopts and p == ('rng',) and any(F.region is q for F in self.ex.folds):
                l = self.fold_options(q)
                if l:
                    self.fopts[q] = l
                    self.wasrng.add(q)
        self.combos = self.fold_plan(self.fopts)
        self.next_combo()
        return True

    def pattern(self, r, sts, stop, t, vals):
        A = s = None
        offs = None
        any_rng = False
        for st in sts:
            ly = self.layers(st, r, stop)
            if ly is None:
                return ('hav',)
            for n in ly:
                if isinstance(n, Blk):
                    q = lin_t(n.idx, t)
                    if q is None or q[1] == 0:
                        return ('hav',)
                    a, c = q
                    if maxfresh(a) > self.mark:
                        return ('hav',)
                    if s is None:
                        A, s = a, c
                        lo, hi = 0, len(n.vals)
                        continue
                    d = sub(a, A)
                    if c != s or not isc(d):
                        return ('hav',)
                    lo = min(lo, sval(d))
                    hi = max(hi, sval(d) + len(n.vals))
                elif isinstance(n, (Rng, Per)) or (isinstance(n, Hav) and not n.scatter):
                    any_rng = True
                else:
                    return ('hav',)
        if any_rng:
            return ('rng',) if s is None else ('hav',)
        if s is None:
            return ('hav',)
        if hi - lo > abs(s):
            return ('hav',)
        return ('map', add(A, const(lo, 64)), s)

    def run(self):
        ex = self.ex
        self.discover()
        if ex.mode == 'disc':
            return self.exits_disc()
        self.tform()
        for attempt in range(40):
            try:
                self.houdini()
                break
            except Recurrence as e:
                dbg('recurrence', e.region.name, self.pat.get(e.region), self.L.header)
                if e.region in self.fopts and self.pat.get(e.region, (0,))[0] == 'fold':
                    self.next_combo()
                    continue
                if self.pat.get(e.region) == ('rng',) and self.late_fold(e.region):
                    continue
                if self.pat.get(e.region) is None or self.pat[e.region] == ('hav',):
                    raise Unsupported('recurrence in ' + e.region.name)
                self.pat[e.region] = ('hav',)
        else:
            raise Unsupported('loop planning did not converge')
        return self.final()

    def exits_disc(self):
        ex = self.ex
        t = fresh('t', 64)
        vals = self.head_vals(t)

        hs = {}

        def plan(r, p, nx, t, vals):
            hs[r] = Hav(fresh('hv_' + r.name, 64).x, nx)
            return hs[r]
        env, st = self.head_state(vals, t, plan)
        backs, exits, rets = self.body(env, st)
        for r, h in hs.items():
            h.scatter = bool(backs) and self.pattern(r, [b[2] for b in backs], h, t, vals) == ('hav',)
        return exits, rets

    def bound_t(self, t):
        return band(sle(const(0, 64), t), sle(t, const(1 << TBITS, 64)))

    def houdini(self):
        """select candidates (untrusted) and derive the written functions"""
        ex = self.ex
        save = ex.mode
        ex.mode = 'plan'
        try:
            ev = self.entry_vals()
            zero = const(0, 64)
            # base: on the entry state
            est = self.st.copy()
            live = {}
            for n, f in self.cands.items():
                try:
                    g = f(View(self, zero, ev, est))
                except (Unsupported, Recurrence):
                    continue
                pc = est.pc + self.fold_base(f, ev, est)
                if g is TRUE or prove(pc, g, 3000, use_cvc5=False, fp=False).status == 'proved':
                    live[n] = f
            for rnd in range(10):
                t = fresh('t', 64)
                self.t = t
                vals = self.head_vals(t)
                stops = {}
                self.havs = {}

                def plan(r, p, nx, t, vals):
                    pt = self.pat[r]
                    if pt[0] == 'map':
                        h = PH(r, pt[1], pt[2], t, nx)
                    elif pt[0] == 'rng':
                        h = PH(r, None, [], t, nx)
                    elif pt[0] == 'fold':
                        k = fresh('k', 64)
                        X = pt[2](View(self, t, vals, self.st))
                        h = Fun(k, pt[1].S(k, X), pt[1].lems((k,), X))
                    else:
                        h = Hav(fresh('hv_' + r.name, 64).x, nx)
                    stops[r] = h
                    return h
                env, st = self.head_state(vals, t, plan)
                st.assume(self.bound_t(t))
                hv = View(self, t, vals, st)
                for n, f in live.items():
                    st.assume(f(hv))
                self.assume_ghost(hv, live)
                self.headpc = list(st.pc)
                self.vals = vals
                mark2 = tm._fresh[0]
                backs, exits, rets = self.body(env, st.copy())
                drop = []
                t1 = add(t, const(1, 64))
                views = [(View(self, t1, self.back_vals(p, e, s), s), s) for p, e, s in backs]
                for n, f in live.items():
                    for v, s in views:
                        g = f(v)
                        if g is TRUE or g in s.pc:
                            continue
                        if prove(s.pc, g, 5000, use_cvc5=False, fp=False).status != 'proved':
                            drop.append(n)
                            break
                if drop:
                    for n in drop:
                        del live[n]
                    continue
                break
            else:
                live = {}
            self.live = live
            # written functions
            self.fplan = {}
            for r, p in self.W.items():
                if p != 'hav':
                    continue
                pt = self.pat[r]
                if pt[0] == 'map':
                    self.fplan[r] = self.derive_map(r, pt, backs, stops[r], t, vals)
                    if self.fplan[r] is None:
                        raise Recurrence(r)
                elif pt[0] == 'rng':
                    self.fplan[r] = self.derive_rng(r, backs, stops[r], t, vals)
                    if self.fplan[r] is None or not self.unread(r, stops[r].s, t, vals):
                        raise Recurrence(r)
                elif pt[0] == 'fold':
                    for p_, e_, s_ in backs:
                        s2, g = self.fold_goal(r, pt, s_, t, vals, View(self, t1, self.back_vals(p_, e_, s_), s_))
                        if prove(s2.pc, g, 5000, use_cvc5=True).status != 'proved':
                            dbg('fold', pt[1].name, 'not kept by', self.L.header, g, s2.pc)
                            raise Recurrence(r)
                    self.fplan[r] = pt
                else:
                    self.fplan[r] = ('hav',)
        finally:
            ex.mode = save

    def assume_ghost(self, hv, live):
        """instances of ghost definitions useful in one iteration"""
        done = set()
        for n, f in live.items():
            if hasattr(f, 'fold'):
                F, args, P, c = f.fold
                p = P(hv)
                if (F.name, args, p.id, c) not in done:
                    done.add((F.name, args, p.id, c))
                    hv.st.assume(*F.facts(args, p, c or 1))

    def fold_base(self, f, ev, est):
        if not hasattr(f, 'fold'):
            return ()
        F, args, P, c = f.fold
        return tuple(F.facts(args, P(View(self, const(0, 64), ev, est)), 0))

    def fold_goal(self, r, pt, s_, t, vals, v1):
        _, F, P, c = pt
        k = fresh('k', 64)
        p0, p1 = P(View(self, t, vals, s_)), P(v1)
        d = sub(p1, p0)
        n = sval(d) if isc(d) and 0 <= sval(d) <= 64 else 0
        s2 = s_.copy()
        s2.assume(*F.facts((k,), p0, n))
        s2.assume(*self.within(r, k))
        self.ex.nolog += 1
        try:
            x = self.ex.read_elem(s2, r, k)
        finally:
            self.ex.nolog -= 1
        return s2, eq(x, F.S(k, p1))

    def derive_map(self, r, pt, backs, stop, t, vals):
        ex = self.ex
        A, s = pt[1], pt[2]
        n = abs(s)
        cur = add(A, mulc(t, s))
        base = set(self.headpc)
        percol = []
        touched = [False] * n
        rows = []
        for p_, e_, st in backs:
            ly = self.layers(st, r, stop)
            if ly is None:
                return None
            for b in ly:
                if not isinstance(b, Blk):
                    return None
                d = sub(b.idx, cur)
                if not isc(d) or not (0 <= sval(d) and sval(d) + len(b.vals) <= n):
                    return None
                for j in range(len(b.vals)):
                    touched[sval(d) + j] = True
            cond = band(*[c for c in st.pc if c not in base])
            rows.append((cond, st))
        if not rows:
            return None
        cols = []
        for j in range(n):
            if not touched[j]:
                cols.append(None)
                continue
            idx = add(cur, const(j, 64))
            v = None
            cs = [(c, ex.read_elem(st, r, idx)) for c, st in rows]
            v = merge_paths(cs)
            cols.append(v)
        # eliminate loop-carried values that have a proved closed form
        cols = [None if c is None else self.close(c, t, vals) for c in cols]
        if any(c is not None and c is False for c in cols):
            return None
        k = fresh('k', 64)
        if all(c is not None for c in cols):
            try:
                fs = []
                for j, c in enumerate(cols):
                    fs.append(tsub(c, t, s, sub(k, add(A, const(j, 64))), {}))
                f0 = fs[0]
                if all(f is f0 for f in fs) and t.id not in tm.fv(f0):
                    return ('map', A, s, k, f0)
            except NotDivisible:
                pass
        if s < 0:
            return None
        u = fresh('u', 64)
        return ('per', A, s, u, tuple(None if c is None else tm.subst(c, {t: u}) for c in cols))

    def close(self, c, t, vals):
        """c must depend on loop-invariant things and t only"""
        if self.pure(c, t):
            return c
        # use proved equalities  phi == g(t)
        m = {}
        for n, f in self.live.items():
            g = f(View(self, t, vals, self.st))
            for q in (g.a if g.op == 'and' else (g,)):
                if q.op == 'eq':
                    for x, y in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                        if x.op == 'v' and maxfresh(x) > self.mark and x is not t and self.pure(y, t) and x not in m:
                            m[x] = y
        if m:
            c = tm.subst(c, m)
            if self.pure(c, t):
                return c
        return False

    def pure(self, c, t):
        if maxfresh(c) <= self.mark:
            return True
        for i in tm.fv(c):
            if i == t.id:
                continue
            u = _byid(i)
            if maxfresh(u) > self.mark:
                return False
        return not _badufs(c, self.mark)

    def derive_rng(self, r, backs, stop, t, vals):
        """outer loop over chunks whose inner loops write consecutive ranges with one function"""
        ex = self.ex
        base = set(self.headpc)
        info = None
        if not backs:
            dbg('rng 1 fails', r.name, self.L.header)
            return None
        for p_, e_, st in backs:
            ly = self.layers(st, r, stop)
            if ly is None:
                dbg('rng 2 fails', r.name, self.L.header)
                return None
            segs = [n for n in ly]
            if not segs:
                continue
            if not all(isinstance(n, Rng) for n in segs):
                dbg('rng 3 fails', r.name, self.L.header)
                return None
            segs = segs[::-1]            # oldest first
            k = segs[0].k
            f = segs[0].f
            lo, hi = segs[0].lo, segs[0].hi
            for n in segs[1:]:
                f2 = tm.subst(n.f, {n.k: k})
                if f2 is not f:
                    dbg('rng 4 fails', r.name, self.L.header)
                    return None
                if prove(st.pc, eq(n.lo, hi), 5000).status == 'proved':
                    hi = n.hi
                elif prove(st.pc, eq(n.hi, lo), 5000).status == 'proved':
                    lo = n.lo
                else:
                    dbg('rng 5 fails', r.name, self.L.header)
                    return None
            f = self.close(f, k, vals) if not self.pure_k(f, k) else f
            if f is False or not self.pure_k(f, k):
                dbg('rng 6 fails', r.name, self.L.header)
                return None
            if info is None:
                info = (k, f, [(lo, hi, st, p_, e_)])
            else:
                if tm.subst(f, {k: info[0]}) is not info[1]:
                    dbg('rng 7 fails', r.name, self.L.header)
                    return None
                info[2].append((lo, hi, st, p_, e_))
        if info is None:
            dbg('rng 8 fails', r.name, self.L.header)
            return None
        k, f, segl = info
        # progress expression P(view): equals lo at the head, hi after the iteration
        lo0 = segl[0][0]
        if not self.headclosed(lo0, t, vals):
            dbg('rng 9 fails', r.name, self.L.header)
            return None
        P0 = self.viewfn(lo0, t, vals)
        cands = [P0]
        bnds = set()
        for lo, hi, st, p_, e_ in segl:
            for c in st.pc:
                if c in base:
                    continue
                for a, b, kind in guard_atoms(c):
                    for x, y in ((a, b), (b, a)) if kind == 'ne' else ((a, b),):
                        if x.w == lo0.w and maxfresh(y) <= self.mark < maxfresh(x):
                            d = sub(x, lo0)
                            if maxfresh(d) <= self.mark:
                                bnds.add(sub(y, d))
        for b in sorted(bnds, key=lambda x: x.id):
            cands.append(lambda v, b=b: ite(slt(P0(v), b), P0(v), b))
        t1 = add(t, const(1, 64))
        for P in cands:
            ok = True
            for p_, e_, st in backs:
                seg = [x for x in segl if x[2] is st]
                v0 = View(self, t, vals, st)
                v1 = View(self, t1, self.back_vals(p_, e_, st), st)
                if seg:
                    g = band(eq(seg[0][0], P(v0)), eq(seg[0][1], P(v1)))
                else:
                    g = eq(P(v0), P(v1))
                if prove(st.pc, g, 8000).status != 'proved':
                    ok = False
                    break
            if ok:
                ev = View(self, const(0, 64), self.entry_vals(), self.st)
                return ('rng', P(ev), P, k, f)
        dbg('rng 10 fails', r.name, self.L.header)
        return None

    def unread(self, r, log, t, vals):
        """no iteration reads what an earlier one wrote"""
        if not log:
            return True
        lo = self.fplan[r][1]
        P = self.fplan[r][2]
        for pc, idx in log:
            v = View(self, t, vals, self.st.copy())
            p = P(v)
            if prove(pc, bor(slt(idx, lo), sle(p, idx)), 3000, use_cvc5=False, fp=False).status != 'proved':
                dbg('rng read', r.name, self.L.header, idx, lo, p, pc[-5:])
                return False
        return True

    def pure_k(self, c, k):
        for i in tm.fv(c):
            if i == k.id:
                continue
            u = _byid(i)
            if maxfresh(u) > self.mark:
                return False
        return not _badufs(c, self.mark)

    def headclosed(self, x, t, vals):
        ok = {t.id}
        for k, v in vals.items():
            ok |= set(tm.fv(v))
        return all(i in ok or maxfresh(_byid(i)) <= self.mark for i in tm.fv(x)) and not _badufs(x, self.mark)

    def viewfn(self, term, t, vals):
        nl = [(k, v) for k, v in vals.items() if k not in self.lin]

        def f(view):
            mp = {t: view.t}
            for k, v in nl:
                if v.op == 'v':
                    mp[v] = view.vals[k]
                elif v.w == 64:
                    o = [u for u in tm._lin_parts(v)[1] if len(u) == 1 and u[0].op == 'v' and maxfresh(u[0]) > self.mark]
                    if len(o) == 1:
                        mp[o[0][0]] = add(o[0][0], sub(view.vals[k], v))
            return tm.subst(term, mp)
        return f

    # ---------------------------------------------------------------- final checking run
    def final(self):
        ex = self.ex
        where = '%s loop %s' % (short(self.fn.name), self.L.header)
        ev = self.entry_vals()
        zero = const(0, 64)
        est = self.st
        # base obligations
        for n, f in self.live.items():
            g = f(View(self, zero, ev, est))
            self.ob(est.copy().assume(*self.fold_base(f, ev, est)), 'invariant-base', g, '%s %s' % (where, nm(n)))
        for r, fp in self.fplan.items():
            if fp[0] == 'fold':
                k = fresh('k', 64)
                s2 = est.copy()
                p = fp[2](View(self, zero, ev, est))
                s2.assume(*fp[1].facts((k,), p, 0))
                s2.assume(*self.within(r, k))
                self.ob(s2, 'invariant-base', eq(ex.read_elem(s2, r, k), fp[1].S(k, p)), '%s fold %s' % (where, fp[1].name))
        for n, f in self.live.items():
            if hasattr(f, 'fold'):
                pass
        t = self.t
        vals = self.vals

        def plan(r, p, nx, t, vals):
            fp = self.fplan[r]
            if fp[0] == 'map':
                _, A, s, k, f = fp
                if s > 0:
                    return Rng(A, add(A, mulc(t, s)), k, f, nx)
                return Rng(add(A, mulc(t, s), const(-s, 64)), add(A, const(-s, 64)), k, f, nx)
            if fp[0] == 'per':
                _, A, s, u, cols = fp
                return Per(A, s, t, u, cols, nx)
            if fp[0] == 'fold':
                k = fresh('k', 64)
                X = fp[2](View(self, t, vals, self.st))
                return Fun(k, fp[1].S(k, X), fp[1].lems((k,), X))
            if fp[0] == 'rng':
                _, A, P, k, f = fp
                return Rng(A, P(View(self, t, vals, self.st)), k, f, nx)
            return Hav(fresh('hv_' + r.name, 64).x, nx)
        env, st = self.head_state(vals, t, plan)
        tops = dict(st.mem)
        st.assume(self.bound_t(t))
        hv = View(self, t, vals, st)
        for n, f in self.live.items():
            st.assume(f(hv))
        self.assume_ghost(hv, self.live)
        backs, exits, rets = self.body(env, st)
        t1 = add(t, const(1, 64))
        if ex.mode == 'real':
            for p_, e_, s_ in backs:
                bv = self.back_vals(p_, e_, s_)
                v = View(self, t1, bv, s_)
                for k, d in self.lin.items():
                    want = vals[k] if vals[k].w == 0 else add(vals[k], d)
                    self.ob(s_, 'induction-variable', eq(bv[k], want), '%s %s' % (where, k))
                for n, f in self.live.items():
                    self.ob(s_, 'invariant-step', f(v), '%s %s' % (where, nm(n)))
                for r, fp in self.fplan.items():
                    if fp[0] == 'hav':
                        continue
                    self.check_write(r, fp, tops[r], s_, t, v, where)
                # nothing else is written
                for r in s_.mem:
                    if r not in self.W and s_.mem[r] is not tops.get(r) and not (
                            maxfresh(r.base) > self.mark and r.name.startswith('alloca!')):
                        if r.base.id in ex.regions:
                            raise Unsupported('untracked write to %s in %s' % (r.name, where))
        ex.loops_done += 1
        return exits, rets

    def check_write(self, r, fp, top, s_, t, v, where):
        """after one iteration the region is exactly  entry content overlaid by f on the grown range"""
        ex = self.ex
        if fp[0] == 'fold':
            s2, g = self.fold_goal(r, fp, s_, t, self.vals, v)
            self.ob(s2, 'invariant-step', g, '%s fold %s' % (where, fp[1].name))
            return
        ly = self.layers(s_, r, top)
        if ly is None:
            raise Unsupported('write pattern of %s in %s' % (r.name, where))
        if fp[0] == 'map':
            _, A, s, k, f = fp
            cur = add(A, mulc(t, s))
            got = [False] * abs(s)
            for b in ly:
                if not isinstance(b, Blk):
                    raise Unsupported('write pattern of %s in %s' % (r.name, where))
                d = sub(b.idx, cur)
                if not isc(d) or not 0 <= sval(d) <= abs(s) - len(b.vals):
                    raise Unsupported('write pattern of %s in %s' % (r.name, where))
            for j in range(abs(s)):
                idx = add(cur, const(j, 64))
                x = ex.read_elem(s_, r, idx)
                self.ob(s_, 'written-value', eq(x, tm.subst(f, {k: idx})), '%s %s' % (where, r.name))
        elif fp[0] == 'per':
            _, A, s, u, cols = fp
            cur = add(A, mulc(t, s))
            for b in ly:
                d = sub(b.idx, cur) if isinstance(b, Blk) else None
                if d is None or not isc(d) or not 0 <= sval(d) <= s - len(b.vals):
                    raise Unsupported('write pattern of %s in %s' % (r.name, where))
                for j in range(len(b.vals)):
                    if cols[sval(d) + j] is None:
                        raise Unsupported('write pattern of %s in %s' % (r.name, where))
            for j in range(s):
                if cols[j] is None:
                    continue
                idx = add(cur, const(j, 64))
                x = ex.read_elem(s_, r, idx)
                self.ob(s_, 'written-value', eq(x, tm.subst(cols[j], {u: t})), '%s %s' % (where, r.name))
        elif fp[0] == 'rng':
            _, A, P, k, f = fp
            v0 = View(self, t, self.vals, s_)
            p0, p1 = P(v0), P(v)
            # every layer is a range with the same function; together they extend [A,p0) to [A,p1)
            hi = p0
            for n in ly[::-1]:
                if not isinstance(n, Rng) or tm.subst(n.f, {n.k: k}) is not f:
                    raise Unsupported('write pattern of %s in %s' % (r.name, where))
                self.ob(s_, 'range-adjacent', band(sle(A, n.lo), sle(n.lo, hi), bor(sle(hi, n.hi), sle(n.hi, n.lo))), '%s %s' % (where, r.name))
                hi = ite(sle(hi, n.hi), n.hi, hi)
            self.ob(s_, 'range-progress', eq(hi, p1), '%s %s' % (where, r.name))

    def ob(self, st, kind, goal, where):
        ex = self.ex
        if ex.mode != 'real':
            return
        r = ex.final(st.pc, goal)
        ex.obs.append(Ob(kind, where, r, st.pc, goal, ex.fnstack[-1] if ex.fnstack else ex.name))


def nm(n):
    return '/'.join(str(x) for x in n) if isinstance(n, tuple) else str(n)


def short(n):
    return n if len(n) < 60 else n[:57] + '...'


def exdiv(x, g):
    """x / g for a linear term whose coefficients are multiples of g"""
    if g == 1:
        return x
    c, ms = tm._lin_parts(x)
    sg = lambda k: k - (1 << x.w) if k >> (x.w - 1) else k
    if sg(c) % g or any(sg(k) % g for k in ms.values()):
        raise Unsupported('progress expression')
    return tm._lin_mk(sg(c) // g, {m: sg(k) // g for m, k in ms.items()}, x.w)


def merge_paths(cs):
    """[(cond, value)] with exhaustive disjoint conditions -> one term"""
    if all(v is cs[0][1] for _, v in cs):
        return cs[0][1]
    # factor common conjuncts
    common = None
    sets = []
    for c, v in cs:
        s = set(c.a) if c.op == 'and' else {c}
        sets.append(s)
        common = s if common is None else common & s
    out = cs[-1][1]
    for (c, v), s in list(zip(cs, sets))[-2::-1]:
        out = ite(band(*sorted(s - common)), v, out)
    return out


def guard_atoms(c):
    """atoms (a,b,kind) of a guard conjunct"""
    if c.op == 'slt':
        yield c.a[0], c.a[1], 'slt'
    elif c.op == 'ult':
        yield c.a[0], c.a[1], 'ult'
    elif c.op == 'not':
        u = c.a[0]
        if u.op == 'eq':
            yield u.a[0], u.a[1], 'ne'
        elif u.op == 'slt':      # not a<b : b<=a
            yield u.a[1], u.a[0], 'sle'
        elif u.op == 'ult':
            yield u.a[1], u.a[0], 'ule'


def _byid(i):
    return tm._vars.get(i)


_mu = {}


def _ufmax(t):
    r = _mu.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u.id in _mu:
            st.pop()
            continue
        todo = [z for z in u.a if z.id not in _mu]
        if todo:
            st.extend(todo)
            continue
        m = 0
        if u.op == 'uf':
            k = _NUM.search(u.x)
            if k:
                m = int(k.group(1))
        for z in u.a:
            m = max(m, _mu[z.id])
        _mu[u.id] = m
        st.pop()
    return _mu[t.id]


def _badufs(t, mark):
    """mentions a memory snapshot taken inside the loop"""
    return _ufmax(t) > mark


def summarise(ex, fn, L, prev, env, st):
    if ex.loop_hook is not None:
        r = ex.loop_hook(ex, fn, L, prev, env, st)
        if r is not None:
            return r
    if constant_trip(ex, fn, L, prev, env, st):
        r = unroll(ex, fn, L, prev, env, st.copy())
        if r is not None:
            return r
        raise Unsupported('loop unrolling did not converge')
    return LS(ex, fn, L, prev, env, st).run()


UNROLL = 40


def unroll(ex, fn, L, prev, env, st, limit=UNROLL):
    """execute a loop whose every branch to the exit is decided, iteration by iteration; None if some exit is not decided"""
    nph = 0
    for I in fn.blocks[L.header]:
        if I.op != 'phi':
            break
        nph += 1
    rets = []
    for it in range(limit):
        ev = dict(env)
        for I in fn.blocks[L.header][:nph]:
            for v, p in I.a:
                if p == prev:
                    ev[I.res] = ex.val(v, I.ty, env)
                    break
            else:
                raise Unsupported('phi without predecessor')
        backs, exits, rt = ex.run_region(fn, L, [(L.header, nph, prev if nph else None, ev, st)])
        if rt or (backs and exits) or len(backs) > 1:
            return None
        if not backs:
            return exits, rets
        prev, env, st = backs[0]
    return None


def constant_trip(ex, fn, L, prev, env, st):
    save = ex.mode
    ex.mode = 'disc'
    n = ex.paths
    try:
        return unroll(ex, fn, L, prev, env, st.copy()) is not None
    except (Unsupported, Recurrence, NotDivisible):
        return False
    finally:
        ex.mode = save
        ex.paths = n
