"""Linear integer view of a query: an abstraction of the bit-vector query in which every comparison whose sides provably do not overflow becomes
an exact comparison of integers and everything else an unconstrained atom.  Unsatisfiable abstraction => valid query."""
import z3
from . import term as tm

INF = 1 << 200


class Ctx:
    def __init__(self):
        self.b = {}           # atom id -> (lo, hi)
        self.atoms = {}       # atom id -> z3 Int
        self.terms = {}
        self.bools = {}
        self.memo = {}
        self.ivm = {}
        self.zm = {}
        self.extra = []

    def rng(self, t):
        if t.op == 'zext':
            return 0, (1 << t.a[0].w) - 1
        if t.op == 'sext':
            w = t.a[0].w
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        if t.op == 'concat' and tm.isc(t.a[0]) and t.a[0].x == 0:
            return 0, (1 << (t.w - t.a[0].w)) - 1
        return -(1 << (t.w - 1)), (1 << (t.w - 1)) - 1

    def iv(self, t):
        """interval of the signed value of t and whether the linear reading is exact: (lo, hi) or None"""
        r = self.ivm.get(t.id, 0)
        if r != 0:
            return r
        w = t.w
        if t.op == 'c':
            v = tm.sval(t)
            r = (v, v)
        elif t.op == 'lin':
            c, ms = t.x
            c = c - (1 << w) if c >> (w - 1) & 1 else c
            lo = hi = c
            for k, mon in ms:
                k = k - (1 << w) if k >> (w - 1) & 1 else k
                if len(mon) != 1:
                    lo, hi = -INF, INF
                    break
                a = self.iv(self.term(t, mon[0]))
                if a is None:
                    lo, hi = -INF, INF
                    break
                x, y = a[0] * k, a[1] * k
                lo += min(x, y)
                hi += max(x, y)
            r = (lo, hi) if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) else None
        elif t.op == 'ite':
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            r = None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
            c = t.a[0]
            if r is not None and c.op == 'slt':
                # min / max
                if c.a[0] is t.a[1] and c.a[1] is t.a[2]:
                    r = (min(a[0], b[0]), min(a[1], b[1]))
                elif c.a[0] is t.a[2] and c.a[1] is t.a[1]:
                    r = (max(a[0], b[0]), max(a[1], b[1]))
        else:
            r = self.b.get(t.id)
            if r is None:
                r = self.rng(t)
        self.ivm[t.id] = r
        return r

    def term(self, t, i):
        r = self.terms.get(i)
        if r is None:
            for u in t.a:
                self.terms[u.id] = u
            r = self.terms[i]
        return r

    def linear(self, t):
        """t as (c, {atom id: coef}) if exact, no ite"""
        w = t.w
        if t.op == 'c':
            return tm.sval(t), {}
        if self.iv(t) is None:
            return None
        if t.op == 'lin':
            c, ms = t.x
            c = c - (1 << w) if c >> (w - 1) & 1 else c
            d = {}
            for k, mon in ms:
                k = k - (1 << w) if k >> (w - 1) & 1 else k
                u = self.term(t, mon[0])
                d[u.id] = k
            return c, d
        self.terms[t.id] = t
        return 0, {t.id: 1}

    def tighten(self, facts):
        for rnd in range(8):
            ch = False
            for x, y, strict in facts:
                a, b = self.linear(x), self.linear(y)
                if a is None or b is None:
                    continue
                # a - b <= -strict
                d = dict(a[1])
                for i, k in b[1].items():
                    d[i] = d.get(i, 0) - k
                c = a[0] - b[0] + (1 if strict else 0)
                # sum d_i t_i + c <= 0
                ivs = {}
                for i, k in d.items():
                    lo, hi = self.iv(self.terms[i])
                    ivs[i] = min(k * lo, k * hi)
                tot = sum(ivs.values()) + c
                for i, k in d.items():
                    if k == 0:
                        continue
                    u = self.terms[i]
                    if u.op in ('ite', 'lin', 'c'):
                        continue
                    m = -(tot - ivs[i])      # k*t <= m
                    lo, hi = self.iv(u)
                    if k > 0:
                        n = m // k
                        if n < hi and n >= lo:
                            self.b[i] = (lo, n)
                            self.ivm.clear()
                            ch = True
                    else:
                        n = -(m // -k) if False else -((m) // (-k))
                        if n > lo and n <= hi:
                            self.b[i] = (n, hi)
                            self.ivm.clear()
                            ch = True
            if not ch:
                return

    def zi(self, t):
        """z3 integer of an exact term"""
        r = self.zm.get(t.id)
        if r is not None:
            return r
        if t.op == 'c':
            r = z3.IntVal(tm.sval(t))
        elif t.op == 'lin':
            c, ms = t.x
            w = t.w
            c = c - (1 << w) if c >> (w - 1) & 1 else c
            L = [z3.IntVal(c)] if c else []
            for k, mon in ms:
                k = k - (1 << w) if k >> (w - 1) & 1 else k
                a = self.zi(self.term(t, mon[0]))
                L.append(a if k == 1 else k * a)
            r = z3.Sum(L) if len(L) > 1 else L[0]
        elif t.op == 'ite':
            r = z3.If(self.zb(t.a[0]), self.zi(t.a[1]), self.zi(t.a[2]))
        elif t.op == 'sext' and self.iv(t.a[0]) is not None and t.a[0].op in ('lin', 'ite'):
            r = self.zi(t.a[0])
        else:
            r = z3.Int('i%d' % t.id)
            lo, hi = self.iv(t)
            self.extra.append(r >= lo)
            self.extra.append(r <= hi)
        self.zm[t.id] = r
        return r

    def zb(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == 'true':
            r = z3.BoolVal(True)
        elif o == 'false':
            r = z3.BoolVal(False)
        elif o == 'not':
            r = z3.Not(self.zb(t.a[0]))
        elif o == 'and':
            r = z3.And(*[self.zb(x) for x in t.a])
        elif o == 'or':
            r = z3.Or(*[self.zb(x) for x in t.a])
        elif o in ('slt', 'eq') and t.a[0].w >= 8 and self.iv(t.a[0]) is not None and self.iv(t.a[1]) is not None and t.a[0].op != 'fop':
            a, b = self.zi(t.a[0]), self.zi(t.a[1])
            self.ints = True
            r = a < b if o == 'slt' else a == b
        elif o == 'ult' and t.a[0].w >= 8 and all((v := self.iv(z)) is not None and v[0] >= 0 for z in t.a):
            self.ints = True
            r = self.zi(t.a[0]) < self.zi(t.a[1])
        elif o == 'bite':
            r = z3.If(self.zb(t.a[0]), self.zb(t.a[1]), self.zb(t.a[2]))
        else:
            r = z3.Bool('b%d' % t.id)
        self.memo[t.id] = r
        return r


def prove(hs, goal, timeout=1000):
    """True: valid.  False: not shown."""
    c = Ctx()
    c.ints = False
    facts = []
    for h in list(hs) + ([tm.bnot(goal)] if goal.op in ('not', 'slt', 'or') else []):
        for q in (h.a if h.op == 'and' else (h,)):
            if q.op == 'slt':
                facts.append((q.a[0], q.a[1], True))
            elif q.op == 'not' and q.a[0].op == 'slt':
                facts.append((q.a[0].a[1], q.a[0].a[0], False))
            elif q.op == 'eq' and q.a[0].w >= 8:
                facts.append((q.a[0], q.a[1], False))
                facts.append((q.a[1], q.a[0], False))
    c.tighten(facts)
    g = c.zb(goal)
    if not c.ints and goal is not tm.FALSE:
        return False
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', timeout)
    for h in hs:
        s.add(c.zb(h))
    s.add(z3.Not(g))
    s.add(*c.extra)
    return s.check() == z3.unsat
