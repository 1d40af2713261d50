"""P05: the work scheduler hands every element to exactly one kernel call, whatever the number of threads and their interleaving.

Two kinds of case.  Caller cases run a function that distributes work (main side through publication and join, worker side at the publication for an
arbitrary worker); callback cases run a worker callback against an item published as the caller cases show.  kernel(args, start, length, core)
states the arguments of the kernel call for the elements [start, start + length).
"""
from .common import *
from vc import ir, native
from vc.conc import Sched, Worker, ints

P = ir.PTR
KERNEL = var('fn_vc_kernel', 64)


def TUS(prop):
    return ['BasicMath.mt', 'Convert.mt', 'UnaryOps.mt', 'Merge.mt', 'Bins.mt', 'MathThreads.mt']


class Setup:
    """the objects a case is about, kept so that the native search can build them with concrete values"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.objs = []          # (name, base term, size, [(offset, term)], is_global)
        self.vars = []          # (name, width, lo, hi)

    def var(self, name, w=64, lo=None, hi=None):
        v = var(name, w)
        self.vars.append((name, w, lo, hi))
        if lo is not None:
            self.ctx.assume(sle(const(lo, w), v), sle(v, const(hi, w)))
        return v

    def obj(self, name, size, fields, glob=False):
        base = self.ctx.ex.glob(name) if glob else self.ctx.obj(name, size).base
        for off, v in fields:
            self.ctx.ex.store(ir.Ty('i', v.w), v, add(base, const(off, 64)), self.ctx.st)
        self.objs.append((name, base, size, fields, glob))
        return base


def want(*exp):
    """None: unconstrained argument"""
    return lambda args: [('argument %d' % i, eq(args[i] if args[i].w == e.w else tm.extract(args[i], e.w - 1, 0), e)) for i, e in enumerate(exp) if e is not None]


def two(mode):
    def s(ctx):
        S = Setup(ctx)
        size, ofn, oin, oout = ints(ctx.ex, 'vc_off_fl')
        n = ctx.len('n')
        si, so = S.var('sizein', 64, 1, 64), S.var('sizeout', 64, 1, 64)
        fl = S.obj('fl', size, [(ofn, KERNEL), (oin, si), (oout, so)])
        a, b, o = S.var('in1'), S.var('in2'), S.var('out')

        def kernel(args, start, ln, core, direct):
            sh = [mul(start, si) if mode != 1 else const(0, 64), mul(start, si) if mode != 2 else const(0, 64), mul(start, so)]
            return want(add(a, sh[0]), add(b, sh[1]), add(o, sh[2]), ln, const(mode, 32))(args)
        caller(ctx, S, 'vc_two', n, [fl, a, b, o, n, const(mode, 32)], kernel)
    return s


def caller(ctx, S, fn, n, args, kernel, **kw):
    Sched(ctx, n, kernel=kernel, **kw)
    ctx.native = native.Native(S, fn, n, args, kernel, **kw)
    ctx.calls(find_fn(ctx.M, fn), args)


def mtwork(ctx):
    S = Setup(ctx)
    n = ctx.len('n')
    ctx.assume(sle(n, const((1 << 31) - 1, 64)))
    arg = S.var('arg')

    def kernel(args, start, ln, core, direct):
        return want(arg, const(0, 32) if direct else tm.extract(add(core, const(1, 64)), 31, 0), start)(args)
    caller(ctx, S, 'vc_mtwork', n, [tm.extract(n, 31, 0), KERNEL, arg], kernel, custom=True)


def mtchunk(ctx):
    S = Setup(ctx)
    n = ctx.len('n')
    arg = S.var('arg')

    def kernel(args, start, ln, core, direct):
        return want(arg, const(0, 32) if direct else tm.extract(add(core, const(1, 64)), 31, 0), start, ln)(args)
    caller(ctx, S, 'vc_mtchunk', n, [n, KERNEL, arg], kernel)


def groupby(ctx):
    S = Setup(ctx)
    n = ctx.len('n')
    ctx.assume(sle(n, const((1 << 31) - 1, 64)))
    arg = S.var('arg')

    def kernel(args, start, ln, core, direct):
        return want(arg, start)(args)
    caller(ctx, S, 'vc_groupby', n, [KERNEL, arg, n], kernel, custom=True)


def thread(ctx):
    W = Worker(ctx)
    # native search: real threads running this loop under DoMultiThreadedChunkWork
    S = Setup(ctx)
    n, arg = var('n', 64), S.var('arg')
    ctx.native = native.Native(S, 'vc_mtchunk', n, [n, KERNEL, arg], lambda args, start, ln, core, direct: want(arg, None, start, ln)(args), threadfn='vc_thread')
    ctx.calls(find_fn(ctx.M, 'vc_thread'), [W.ring.base])


def callback(fn, offs, fields, spec, glob=None, tail=None):
    """fields: names of the callback structure in the order of the offset table (first the kernel)"""
    def s(ctx):
        S = Setup(ctx)
        o = ints(ctx.ex, offs)
        n = ctx.len('n')
        F = {}
        vals = [(o[1], KERNEL)]
        for f, off in zip(fields, o[2:]):
            if isinstance(f, tuple):
                F[f[0]] = S.var(f[0], 64, f[1], f[2])
                vals.append((off, F[f[0]]))
            else:
                F[f] = S.var(f)
                vals.append((off, F[f]))
        if tail:
            for nm, v in tail.items():
                i = [f[0] if isinstance(f, tuple) else f for f in fields].index(nm)
                vals[i + 1] = (vals[i + 1][0], v)
                F[nm] = v
        base = S.obj(glob or 'callback', o[0], vals, glob=bool(glob))

        def kernel(args, start, ln, core, direct):
            return want(*spec(F, start, ln, core))(args)
        W = Sched(ctx, n, kernel=kernel, worker=base if not glob or glob == 'stRICallback' else TRUE)
        ctx.native = native.Native(S, fn, n, None, kernel, arg=base)
        ctx.calls(find_fn(ctx.M, fn), W.worker_args)
    return s


def SZ(n):
    return (n, 1, 64)


def off(F, p, start, size=None):
    return add(F[p], mul(start, F[size]) if size else start)


def accum2(filt, count):
    tail = {}
    if not filt:
        tail['filter'] = const(0, 64)
    if not count:
        tail['counts'] = const(0, 64)

    def spec(F, s, ln, core):
        return (off(F, 'in1', s, 'size1'), off(F, 'in2', s, 'size2'), off(F, 'out', s, 'sizeout'), F['mult'], F['maxbin'], ln,
                add(F['counts'], mul(mul(add(core, const(1, 64)), F['maxbin']), const(4, 64))) if count else const(0, 64),
                add(F['filter'], s) if filt else const(0, 64))
    fields = ['in1', 'in2', 'out', ('filter', 1, 1 << 47), SZ('size1'), SZ('size2'), SZ('sizeout'), 'mult', ('maxbin', 0, 1 << 31), ('counts', 1, 1 << 47)]
    return callback('vc_cb2', 'vc_cb2_off', fields, spec, tail=tail)


def cases(prop, tier):
    out = []
    for mode in (0, 1, 2):
        out.append(Case('WorkTwoStubCall scalar mode %d' % mode, 'BasicMath.mt', two(mode)))
    out.append(Case('DoMultiThreadedWork', 'BasicMath.mt', mtwork))
    out.append(Case('DoMultiThreadedChunkWork', 'BasicMath.mt', mtchunk))
    out.append(Case('WorkGroupByCall', 'BasicMath.mt', groupby))
    out.append(Case('UnaryThreadCallbackStrided', 'UnaryOps.mt', callback('vc_cb', 'vc_cb_off', ['in', 'out', SZ('sizein'), SZ('sizeout')],
                    lambda F, s, ln, core: (off(F, 'in', s, 'sizein'), off(F, 'out', s, 'sizeout'), ln, F['sizein'], F['sizeout']))))
    out.append(Case('ConvertThreadCallback', 'Convert.mt', callback('vc_cb', 'vc_cb_off', ['in', 'out', 'bad1', 'bad2', SZ('sizein'), SZ('sizeout')],
                    lambda F, s, ln, core: (off(F, 'in', s, 'sizein'), off(F, 'out', s, 'sizeout'), ln, F['bad1'], F['bad2'], F['sizein'], F['sizeout']))))
    out.append(Case('CombineThreadCallback', 'Convert.mt', callback('vc_cb1', 'vc_cb1_off', ['in', 'out', 'filter', SZ('size')],
                    lambda F, s, ln, core: (off(F, 'in', s, 'size'), off(F, 'out', s, 'size'), ln, off(F, 'filter', s)))))
    for filt in (0, 1):
        for count in (0, 1):
            out.append(Case('CombineThreadAccum2Callback%s%s' % (' filter' * filt, ' counts' * count), 'Convert.mt', accum2(filt, count)))
    out.append(Case('GetItemCallback', 'Merge.mt', callback('vc_cb', 'vc_cb_off', ['values', 'index', 'out', 'vlen', SZ('vsize'), ('sindex', -1 << 16, 1 << 16), 'svalue', 'default'],
                    lambda F, s, ln, core: (F['values'], off(F, 'index', s, 'sindex'), off(F, 'out', s, 'vsize'), F['vlen'], F['vsize'], ln, F['sindex'], F['svalue'], F['default']), glob='stMBGCallback')))
    out.append(Case('ReIndexThreadCallback', 'Bins.mt', callback('vc_cb', 'vc_cb_off', ['out', 'in', 'index', SZ('size'), SZ('isize')],
                    lambda F, s, ln, core: (off(F, 'out', s, 'size'), F['in'], off(F, 'index', s, 'isize'), ln, F['size']), glob='stRICallback')))
    out.append(Case('WorkerThreadFunction', 'MathThreads.mt', thread))
    return out
