"""Thread-modular (rely/guarantee) verification of the work scheduler and of the functions that run under it.

Rely: between any two steps of a thread, other threads may change BlockNext and BlocksCompleted of the published work item (only by atomic
increments) and the ring's ThreadsAwakened counter; nothing else.  A read of those fields gives an arbitrary value, the atomic increment of
BlockNext gives an arbitrary ticket n >= 0, and each ticket is given to exactly one thread (atomicity of fetch-and-add).
Guarantee, obligations on the code: tickets are taken by +1 only; the block of a ticket n < (number of blocks) is handed to the kernel exactly
once, with the arguments the contract states for block n, before BlocksCompleted is incremented (by one) for it; a thread leaves with no
block pending; nothing else that other threads can see is written while the item is published; every field of the item is set before
the publication (ring WorkIndex + 1); the main thread closes the item only after it saw BlocksCompleted reach the number of blocks, and
returns only after it saw no thread awake.
At the publication the worker side (item->DoWorkCallback) is verified for an arbitrary core number and ticket.
"""
from . import ir, loops, solver
from . import term as tm
from .term import const, var, fresh, add, sub, mul, eq, slt, sle, band, bor, bnot, ite, isc, TRUE, FALSE, sval
from .sym import Unsupported, Hav, Recurrence, feasible

OFFS = ('WorkIndex', 'WorkIndexCompleted', 'ThreadsAwakened', 'ThreadWakeup', 'ThreadsRunning', 'Cancelled', 'WorkerQueue', 'item_size',
        'DoWorkCallback', 'BlockSize', 'BlockLast', 'BlockNext', 'BlocksCompleted', 'ring_size', 'pWorkerRing', 'worker_size', 'NoThreading',
        'WorkerThreadCount', 'WorkCallbackArg', 'TotalElements', 'FutexWakeCount', 'chunk')
TMAX = 1 << 46


def ints(ex, name):
    ty, init = ex.M.glob(name)[:2]
    size, _ = ir.size_align(ty, ex.M)
    d = ex.flatten(ty, init, size)
    return [int.from_bytes(bytes(d[i:i + 8]), 'little', signed=True) for i in range(0, size, 8)]


class Sched:
    def __init__(self, ctx, total, custom=False, kernel=None, allow_store=None, worker=None):
        """total: number of elements (or of items, custom mode); kernel(args, start, length, core, direct) -> [(what, goal)]"""
        # worker: the callback argument; then only the worker side of an already published item is verified
        self.ctx = ctx
        ex = self.ex = ctx.ex
        self.total = total
        self.custom = custom
        self.kernel = kernel
        self.allow_store = allow_store
        self.o = dict(zip(OFFS, ints(ex, 'vc_off')))
        o = self.o
        self.worker = ctx.obj('worker', o['worker_size'])
        self.ring = ctx.obj('ring', o['ring_size'])
        self.ring.hook = self.hook
        self.touched = 0
        ex.store(ir.PTR, self.ring.base, add(self.worker.base, const(o['pWorkerRing'], 64)), ctx.st)
        if worker is None:
            ex.store(ir.PTR, self.worker.base, ex.glob('g_cMathWorker'), ctx.st)
        self.wi = var('WorkIndex', 64)
        ctx.assume(sle(const(0, 64), self.wi), sle(self.wi, const(TMAX, 64)))
        ex.store(ir.Ty('i', 64), self.wi, add(self.ring.base, const(o['WorkIndex'], 64)), ctx.st)
        ex.loop_hook = self.loop
        ex.handlers['vc_kernel'] = self.h_kernel
        ex.handlers['syscall'] = lambda ex, I, a, st: fresh('sys', 64)
        self.ends = set()
        self.published = False
        ctx.st.gh = dict(phase=0, run=None, didx=const(0, 64))
        if worker is not None:
            self.preset(ctx, worker)
        ctx.ens.append(dict(kind='custom', prove=self.final, after=self.reach, f=None, what='all work done before returning'))

    def preset(self, ctx, arg):
        """an item as WorkMain publishes it (its own contract cases show this), for an arbitrary worker"""
        ex, o, st = self.ex, self.o, ctx.st
        item = add(self.ring.base, add(const(o['WorkerQueue'], 64), tm.mulc(tm.bvand(self.wi, const(1023, 64)), o['item_size'])))
        B = const(o['chunk'], 64)
        last = var('blocks', 64)
        ctx.assume(sle(const(0, 64), last), sle(last, const(TMAX, 64)))
        ctx.assume(sle(self.total, mul(last, B)), slt(mul(sub(last, const(1, 64)), B), self.total))
        for f, v in (('BlockSize', B), ('BlockLast', last), ('TotalElements', self.total)) + ((('WorkCallbackArg', arg),) if arg is not TRUE else ()):
            ex.store(ir.Ty('i', 64), v, add(item, const(o[f], 64)), st)
        core, wi = var('core', 32), var('workIndex', 64)
        ctx.assume(sle(const(-1, 32), core), sle(core, const(63, 32)))
        st.gh.update(item=item, B=B, blocks=last, run='published', phase=0, n=None, core=tm.sext(core, 64))
        self.worker_args = [item, core, wi]
        ex.store_guard = self.guard
        self.wonly = True

    wonly = False
    dcalls = 0

    # ---- helpers
    def fld(self, st, item, name, w=64):
        return self.ex.load(ir.Ty('i', w), add(item, const(self.o[name], 64)), st)

    def ob(self, st, what, goal, kind='scheduler'):
        self.ex.oblige(st, kind, goal, what)

    def start(self, st, n):
        return mul(n, st.gh['B'])

    # ---- memory other threads see
    def hook(self, ex, st, kind, off, n, v):
        o = self.o
        if isc(off):
            d = sval(off)
            if d == o['WorkIndex'] and kind == 'rmw':
                return self.publish(st, v)
            if d == o['WorkIndexCompleted'] and kind == 'rmw':
                return self.complete(st, v)
            if d == o['ThreadsAwakened']:
                self.touched += 1
                if kind == 'load':
                    x = fresh('awake', 64)
                    st.gh['awake'] = x
                    return x
            return None
        item = st.gh.get('item')
        if item is None:
            return None
        d = sub(off, sub(item, self.ring.base))
        if not isc(d):
            return None
        d = sval(d)
        if d == o['BlockNext']:
            self.touched += 1
            if kind == 'rmw':
                return self.ticket(st, v)
            if kind == 'load':
                x = fresh('next', 64)
                st.assume(sle(const(0, 64), x), sle(x, const(TMAX, 64)))
                return x
            self.ob(st, 'BlockNext is changed only by atomic increments while the item is published', FALSE)
            return True
        if d == o['BlocksCompleted']:
            self.touched += 1
            if kind == 'rmw':
                return self.completed(st, v)
            if kind == 'load':
                x = fresh('done', 64)
                st.assume(sle(const(0, 64), x), sle(x, const(TMAX, 64)))
                st.gh['done'] = x
                return x
            self.ob(st, 'BlocksCompleted is changed only by atomic increments while the item is published', FALSE)
            return True
        return None

    def idle(self, st, where):
        gh = st.gh
        if gh['phase'] == 2:
            self.ob(st, '%s: the previous block was reported complete' % where, FALSE)
        elif gh['phase'] == 1:
            self.ob(st, '%s: no block is lost' % where, sle(gh['blocks'], gh['n']))

    def ticket(self, st, opv):
        op, v = opv
        self.ob(st, 'tickets are taken by atomic increments of one', TRUE if op == 'add' and v is const(1, 64) else FALSE)
        self.idle(st, 'next ticket')
        n = fresh('ticket', 64)
        st.assume(sle(const(0, 64), n), sle(n, const(TMAX, 64)))
        st.gh['n'] = n
        st.gh['phase'] = 1
        return n

    def completed(self, st, opv):
        op, v = opv
        self.ob(st, 'a block is reported complete once, after its kernel call', TRUE if op == 'add' and v is const(1, 64) and st.gh['phase'] == 2 else FALSE)
        st.gh['phase'] = 0
        x = fresh('done', 64)
        return x

    def h_kernel(self, ex, I, args, st):
        gh = st.gh
        tot = self.total
        if gh['run'] is None or gh['run'] == 'direct':
            if self.custom:
                # direct runs of indexed work: a plain loop over the indices
                k = gh['didx']
                for what, goal in self.kernel(args, k, const(1, 64), None, True):
                    self.ob(st, 'direct call: ' + what, goal)
                self.ob(st, 'direct call: index in range', band(sle(const(0, 64), k), slt(k, tot)))
                gh['didx'] = add(k, const(1, 64))
                self.dcalls += 1
            else:
                self.ob(st, 'direct call happens once', TRUE if gh['run'] is None else FALSE)
                for what, goal in self.kernel(args, const(0, 64), tot, None, True):
                    self.ob(st, 'direct call: ' + what, goal)
            gh['run'] = 'direct'
            return fresh('kret', 64)
        if gh['phase'] != 1:
            self.ob(st, 'one kernel call per block', FALSE)
            return fresh('kret', 64)
        n = gh['n']
        s = self.start(st, n)
        self.ob(st, 'the ticket is within the number of blocks', slt(n, gh['blocks']))
        if self.custom:
            ln = const(1, 64)
        else:
            rest = sub(tot, s)
            ln = ite(slt(gh['B'], rest), gh['B'], rest)
        for what, goal in self.kernel(args, s, ln, gh['core'], False):
            self.ob(st, 'block call: ' + what, goal)
        gh['phase'] = 2
        return fresh('kret', 64)

    def publish(self, st, opv):
        ex, o, gh = self.ex, self.o, st.gh
        op, v = opv
        self.touched += 1
        self.published = True
        old = ex.load(ir.Ty('i', 64), add(self.ring.base, const(o['WorkIndex'], 64)), st)
        self.ob(st, 'the ring index advances by one', TRUE if op == 'add' and v is const(1, 64) else FALSE)
        self.ob(st, 'one publication, and no direct call besides', TRUE if gh['run'] is None else FALSE)
        ex.store(ir.Ty('i', 64), add(old, const(1, 64)), add(self.ring.base, const(o['WorkIndex'], 64)), st)
        item = add(self.ring.base, add(const(o['WorkerQueue'], 64), tm.mulc(tm.bvand(old, const(1023, 64)), o['item_size'])))
        B, last = self.fld(st, item, 'BlockSize'), self.fld(st, item, 'BlockLast')
        self.ob(st, 'published with BlockNext == 0', eq(self.fld(st, item, 'BlockNext'), const(0, 64)))
        self.ob(st, 'published with BlocksCompleted == 0', eq(self.fld(st, item, 'BlocksCompleted'), const(0, 64)))
        self.ob(st, 'block size is positive', slt(const(0, 64), B))
        if self.custom:
            self.ob(st, 'one block per item', band(eq(B, const(1, 64)), eq(last, self.total)))
        else:
            # last == ceil(total / B)
            self.ob(st, 'number of blocks covers the elements exactly', band(sle(self.total, mul(last, B)), slt(mul(sub(last, const(1, 64)), B), self.total)))
        gh.update(item=item, B=B, blocks=last, run='published', phase=0, n=None, core=None)
        # the worker side, for an arbitrary worker
        ws = st.copy()
        core, wi = fresh('core', 32), fresh('workIndex', 64)
        ws.assume(sle(const(0, 32), core), sle(core, const(63, 32)))
        ws.gh['core'] = tm.sext(core, 64)
        self.run_side(ws, item, core, wi)
        gh['core'] = const(-1, 64)
        ex.store_guard = self.guard
        return old

    def guard(self, ex, st, r, off, n):
        """stores other threads can see while the item is published"""
        gh = st.gh
        if gh.get('run') != 'published' or r.kind == 'obj' and r.name.startswith('alloca!'):
            return
        if r is self.ring:
            if isc(off) and sval(off) in (self.o['ThreadWakeup'], self.o['WorkIndex'], self.o['WorkIndexCompleted']):
                return
            d = sub(off, sub(gh['item'], self.ring.base))
            if isc(d) and sval(d) in (self.o['BlockNext'], self.o['BlocksCompleted']):
                return
        if self.allow_store and self.allow_store(st, r, off, n):
            return
        self.ob(st, 'no unsynchronised write to shared memory (%s)' % r.name, FALSE)

    def run_side(self, st, item, core, wi):
        ex = self.ex
        save = ex.store_guard
        ex.store_guard = self.guard
        try:
            f = ex.load(ir.PTR, add(item, const(self.o['DoWorkCallback'], 64)), st)
            for rv, s2 in ex.call_ptr(f, None, [item, core, wi], st):
                self.idle(s2, 'worker leaves')
        finally:
            ex.store_guard = save

    def complete(self, st, opv):
        op, v = opv
        gh = st.gh
        self.touched += 1
        self.ob(st, 'the item is closed once, by an increment of one', TRUE if op == 'add' and v is const(1, 64) and gh['run'] == 'published' else FALSE)
        self.idle(st, 'main thread closes the item')
        self.ob(st, 'closed only after all blocks were reported complete', sle(gh['blocks'], gh['done']) if 'done' in gh else FALSE)
        gh['run'] = 'closed'
        self.ex.store_guard = None
        return fresh('closed', 64)

    def final(self, ctx, rv, st):
        gh = st.gh
        self.ends.add(gh['run'])
        if self.wonly:
            self.idle(st, 'worker leaves')
            ctx.post(st, TRUE, 'worker returns')
            return
        if gh['run'] == 'direct' or gh['run'] is None and self.custom:
            if self.custom:
                ctx.post(st, eq(gh['didx'], self.total), 'every index was worked on')
            return
        if gh['run'] == 'closed':
            ctx.post(st, eq(gh['awake'], const(0, 64)) if 'awake' in gh else FALSE, 'returns only after no thread is awake')
            return
        ctx.post(st, sle(self.total, const(0, 64)) if gh['run'] is None else FALSE, 'the work was done')

    def reach(self):
        if self.published and 'closed' not in self.ends:
            raise Unsupported('vacuous: no path from the publication to a return')

    def forget(self, st):
        return st

    # ---- loops: arbitrary iteration under the rely condition
    def loop(self, ex, fn, L, prev, env, st):
        """inference of a loop invariant as a finite set of head states (each general in the ticket it holds), then one
        pass over the body from each of them, with all obligations"""
        if ex.mode == 'disc':
            return None
        if loops.constant_trip(ex, fn, L, prev, env, st):
            return None
        t0, d0 = self.touched, self.dcalls
        nph = []
        for I in fn.blocks[L.header]:
            if I.op != 'phi':
                break
            nph.append(I)
        n = len(nph)
        base = set(st.pc)

        def phis(pb, ev):
            out = {}
            for I in nph:
                for v, p in I.a:
                    if p == pb:
                        out[I.res] = ex.val(v, I.ty, ev)
            return out
        known = fvs(list(st.pc) + [x for x in st.gh.values() if hasattr(x, 'op')])
        pool = [(phis(prev, env), self.forget(st.copy()))]
        widen = set()           # phis given arbitrary values
        hav = set()             # regions given arbitrary content
        save, paths, guard = ex.mode, ex.paths, ex.store_guard
        ty = {I.res: I.ty for I in nph}

        def gen(ph, s):
            """generalise a state: forget what mentions values of earlier iterations"""
            s = s.copy()
            n1 = s.gh.get('n')
            ok = known | (fvs([n1]) if n1 is not None else set())
            s.pc = tuple(c for c in s.pc if c in base or fvs([c]) <= ok)
            q = {}
            for r, v in ph.items():
                if r in widen or not hasattr(v, 'op') or not (fvs([v]) <= ok or v in ph0.get(r, ())):
                    q[r] = None
                else:
                    q[r] = v
            for r in hav:
                s.mem[r] = None
            return q, s
        ph0 = {r: [v] for r, v in pool[0][0].items()}

        def start(q, s):
            ev = dict(env)
            s = s.copy()
            for r, v in q.items():
                ev[r] = havoc(ty[r]) if v is None else v
            for r in hav:
                s.mem[r] = Hav(fresh('hv', 8).x)
            return ev, s

        def covered(ph, s):
            for q, t in pool:
                a, b = t.gh.get('n'), s.gh.get('n')
                m = {a: b} if a is not None and b is not None and a is not b else {}
                if any(t.gh.get(g) is not s.gh.get(g) and t.gh.get(g) != s.gh.get(g) for g in set(t.gh) | set(s.gh) if g not in ('n', 'done', 'awake')):
                    continue
                if (a is None) != (b is None):
                    continue
                if any(v is not None and not (hasattr(ph[r], 'op') and same(ex, s, tm.subst(v, m) if m else v, ph[r])) for r, v in q.items()):
                    continue
                if all(c in s.pc or ex_prove(s, tm.subst(c, m) if m else c) for c in t.pc):
                    return True
            return False
        work = [0]
        q0, s0 = gen(*pool[0])
        q0 = {r: (pool[0][0][r] if r not in widen else None) for r in pool[0][0]}
        pool[0] = (q0, pool[0][1])
        rounds = 0
        while work:
            k = work.pop()
            rounds += 1
            if rounds > 60:
                raise Unsupported('scheduler loop does not stabilise')
            ex.mode, ex.store_guard = 'plan', None
            try:
                ev, s2 = start(*pool[k])
                backs, exits, rets = ex.run_region(fn, L, [(L.header, n, prev if n else None, ev, s2)])
            finally:
                ex.mode, ex.paths, ex.store_guard = save, paths, guard
            if self.touched == t0:
                if self.dcalls != d0:
                    return self.direct_loop(ex, fn, L, prev, env, st, nph, phis)
                return None
            restart = False
            for pb, be, bs in backs:
                for r in set(bs.mem) | set(s2.mem):
                    if bs.mem.get(r) is not s2.mem.get(r) and r not in hav and not (r.name.startswith('alloca!') and r not in st.mem):
                        hav.add(r)
                        restart = True
            if not restart:
                for pb, be, bs in backs:
                    ph = phis(pb, be)
                    bs = self.forget(bs)
                    if covered(ph, bs):
                        continue
                    q, g = gen(ph, bs)
                    if len(pool) >= 14:
                        # widen: every phi that takes several values becomes arbitrary
                        w = {r for r in ph if any(pq[r] is None or pq[r] is not pool[0][0][r] for pq, _ in pool) or ph[r] is not pool[0][0][r]}
                        if w <= widen:
                            raise Unsupported('scheduler loop does not stabilise')
                        widen |= w
                        restart = True
                        break
                    pool.append((q, g))
                    work.append(len(pool) - 1)
            if restart:
                q0 = {r: (None if r in widen else v[0]) for r, v in ph0.items()}
                pool, work = [(q0, self.forget(st.copy()))], [0]
        if self.ring in hav or self.worker in hav:
            raise Unsupported('scheduler loop overwrites the ring')
        ex_all, ret_all = [], []
        for q, s in pool:
            ev, s2 = start(q, s)
            backs, exits, rets = ex.run_region(fn, L, [(L.header, n, prev if n else None, ev, s2)])
            ex_all += exits
            ret_all += rets
        ex.loops_done += 1
        return ex_all, ret_all


def _direct_loop(self, ex, fn, L, prev, env, st, nph, phis):
    """a loop that calls the kernel index by index: the number of calls made so far equals a loop variable"""
    n = len(nph)
    p0 = phis(prev, env)
    d0 = st.gh['didx']
    cand = [I.res for I in nph if hasattr(p0[I.res], 'op') and p0[I.res].w in (32, 64) and same(ex, st, tm.sext(p0[I.res], 64), d0)]
    save, paths, guard = ex.mode, ex.paths, ex.store_guard

    def head(cands):
        ev = dict(env)
        for I in nph:
            ev[I.res] = havoc(I.ty)
        s = st.copy()
        d = fresh('calls', 64)
        s.gh['didx'] = d
        s.gh['run'] = 'direct'
        s.assume(sle(const(0, 64), d), sle(d, self.total) if ex_prove(st, sle(d0, self.total)) else TRUE)
        for c in cands:
            s.assume(eq(tm.sext(ev[c], 64), d))
        return ev, s
    for _ in range(4):
        ex.mode, ex.store_guard = 'plan', None
        try:
            ev, s = head(cand)
            backs, exits, rets = ex.run_region(fn, L, [(L.header, n, prev if n else None, ev, s)])
        finally:
            ex.mode, ex.paths, ex.store_guard = save, paths, guard
        bad = {c for c in cand for pb, be, bs in backs if not same(ex, bs, tm.sext(phis(pb, be)[c], 64), bs.gh['didx'])}
        if not bad:
            break
        cand = [c for c in cand if c not in bad]
    ev, s = head(cand)
    backs, exits, rets = ex.run_region(fn, L, [(L.header, n, prev if n else None, ev, s)])
    for pb, be, bs in backs:
        self.ob(bs, 'calls stay within the range', sle(bs.gh['didx'], self.total))
        for r in set(bs.mem) | set(s.mem):
            if bs.mem.get(r) is not s.mem.get(r) and not (r.name.startswith('alloca!') and r not in st.mem):
                raise Unsupported('direct loop writes memory')
    ex.loops_done += 1
    return exits, rets


Sched.direct_loop = _direct_loop


def ex_prove(st, goal):
    if goal is TRUE:
        return True
    return solver.prove(st.pc, goal, 5000, use_cvc5=False, fp=False).status == 'proved'


def same(ex, st, a, b):
    if a is b:
        return True
    if a.w != b.w:
        return False
    return ex_prove(st, tm.beq(a, b) if a.w == 0 else eq(a, b))


def havoc(ty):
    if ty.k == 'i' and ty.n == 1:
        return eq(fresh('hb', 1), const(1, 1))
    return fresh('hv', ir.bits(ty))


def fvs(ts):
    s = frozenset()
    for t in ts:
        s |= tm.fv(t)
    return s


class Worker(Sched):
    """The loop of a worker thread.  Rely, from the caller cases: while the thread counts itself awake the main thread
    cannot pass its join, so WorkIndex and WorkIndexCompleted stay within {k, k + 1} for some k and the item of slot k is the only published one.  Guarantee: the thread is counted awake exactly while it may touch an
    item, it works only on a published item, at that item's slot, under its own core number, and waits only on the WorkIndex value
    it found completed or could not work on."""

    def __init__(self, ctx):
        self.ctx = ctx
        ex = self.ex = ctx.ex
        self.total = const(0, 64)
        self.o = dict(zip(OFFS, ints(ex, 'vc_off')))
        self.worker = self.ring = ctx.obj('ring', self.o['ring_size'])
        self.ring.hook = self.hook
        self.touched = 0
        ex.loop_hook = self.loop
        ex.handlers['vc_item'] = self.h_item
        ex.handlers['syscall'] = self.h_wait
        ex.gcontent['g_WaitAddress'] = 0
        ctx.st.gh = dict(own=0, core=None, wi=None, wi0=None, slot=None, k=None, wl=None, cl=None, item=None)
        self.works = self.waits = 0
        ctx.ens.append(dict(kind='custom', prove=lambda c, rv, st: None, after=self.reach, f=None, what='thread loop'))

    def hook(self, ex, st, kind, off, n, v):
        o, gh = self.o, st.gh
        self.touched += 1
        if not isc(off):
            # the callback pointer of an item
            base = sub(off, const(o['WorkerQueue'] + o['DoWorkCallback'], 64))
            if kind == 'load' and n == 8:
                gh['slot'] = base
                return var('fn_vc_item', 64)
            self.ob(st, 'the thread writes no item', FALSE)
            return True
        d = sval(off)
        if d == o['ThreadsRunning']:
            if kind == 'store':
                self.ob(st, 'core numbers are given out by atomic increments', FALSE)
                return True
            x = fresh('core', 32)
            st.assume(sle(const(0, 32), x), sle(x, const(62, 32)))
            if kind == 'rmw':
                self.ob(st, 'core numbers are given out by atomic increments', TRUE if v[0] in ('add', 'sub') and v[1] is const(1, 32) else FALSE)
                if v[0] == 'add':
                    gh['core'] = x
            return x
        if d == o['ThreadsAwakened']:
            if kind == 'load':
                return fresh('awake', 64)
            ok = kind == 'rmw' and v[1] is const(1, 64) and (v[0] == 'add' and gh['own'] == 0 or v[0] == 'sub' and gh['own'] == 1)
            self.ob(st, 'the thread counts itself awake and asleep in turn', TRUE if ok else FALSE)
            gh['own'] = 1 if kind == 'rmw' and v[0] == 'add' else 0
            gh['k'] = None
            if kind == 'rmw' and v[0] == 'sub':
                gh['wi0'] = gh['wi']
            return fresh('awake', 64) if kind == 'rmw' else True
        if d == o['Cancelled']:
            return fresh('cancelled', 8 * n) if kind == 'load' else True
        if d in (o['WorkIndex'], o['WorkIndexCompleted']) and kind == 'load':
            is_wi = d == o['WorkIndex']
            x = fresh('wi' if is_wi else 'completed', 64)
            st.assume(sle(const(0, 64), x), sle(x, const(TMAX, 64)))
            if gh['own']:
                # both fields lie in {k, k + 1} while this thread keeps the main thread from passing its join
                if gh['k'] is None:
                    k = gh['k'] = fresh('k', 64)
                    st.assume(sle(const(0, 64), k), sle(k, const(TMAX, 64)))
                    gh['wl'] = gh['cl'] = k
                k = gh['k']
                st.assume(sle(gh['wl' if is_wi else 'cl'], x), sle(x, add(k, const(1, 64))))
                gh['wl' if is_wi else 'cl'] = x
                if not is_wi:
                    gh['wl'] = ite(slt(gh['wl'], x), x, gh['wl'])
            if is_wi:
                gh['wi'] = x
            return x
        if d == o['ThreadWakeup']:
            return fresh('wakeup', 64) if kind != 'store' else True
        self.ob(st, 'the thread touches only its scheduling fields', FALSE if kind != 'load' else TRUE)
        return None

    def forget(self, st):
        """what an iteration saw is not known to later ones"""
        st = st.copy()
        st.gh.update(wi=None, wi0=None, slot=None, k=None, wl=None, cl=None)
        return st

    def h_item(self, ex, I, args, st):
        gh, o = st.gh, self.o
        self.works += 1
        self.ob(st, 'works only while counted awake', TRUE if gh['own'] == 1 else FALSE)
        if gh['k'] is None or gh['core'] is None or gh['slot'] is None:
            self.ob(st, 'works only after it saw a published item', FALSE)
            return FALSE
        self.ob(st, 'works only on a published item', eq(gh['wl'], add(gh['k'], const(1, 64))))
        slot = tm.mulc(tm.bvand(gh['k'], const(1023, 64)), o['item_size'])
        self.ob(st, 'the item of the published index', band(eq(args[0], add(self.ring.base, add(const(o['WorkerQueue'], 64), slot))), eq(gh['slot'], slot)))
        self.ob(st, 'under its own core number', eq(args[1], gh['core']))
        return eq(fresh('did', 1), const(1, 1))

    def h_wait(self, ex, I, args, st):
        gh, o = st.gh, self.o
        self.waits += 1
        self.ob(st, 'sleeps only while not counted awake', TRUE if gh['own'] == 0 else FALSE)
        self.ob(st, 'waits on the ring index', band(eq(args[1], self.ring.base), eq(args[2], const(0, args[2].w))))
        w = gh.get('wi0')
        self.ob(st, 'waits for a change of the index value it looked at', eq(args[3], tm.extract(w, 31, 0)) if w is not None else FALSE)
        return fresh('sys', 64)

    def reach(self):
        if not self.works or not self.waits:
            raise Unsupported('vacuous: the thread loop never works or never waits')
