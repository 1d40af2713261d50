"""Bounded native search for the scheduler cases: the extracted code, compiled, runs on a ring with real threads (inc/mtdrv.c) and the recorded
kernel calls are compared with the contract.  Used to replay failed obligations; it decides nothing by itself."""
import ctypes
import json
import os
import random
import select
import signal
import time
from . import ir
from . import term as tm
from .term import const

NREC = 1 << 14


class Rec(ctypes.Structure):
    _fields_ = [('a', ctypes.c_int64 * 10), ('done', ctypes.c_int64), ('me', ctypes.c_int64)]


class Native:
    def __init__(self, S, fn, n, args, kernel, custom=False, arg=None, threadfn=None, **kw):
        self.threadfn = threadfn
        self.S, self.fn, self.n, self.args, self.kernel, self.custom, self.arg = S, fn, n, args, kernel, custom, arg
        self.tried = 0
        self.err = None

    def run(self, tu, offs, budget, seed):
        """-> description of a failing run or None"""
        from . import replay
        so = replay.native_lib(tu)
        t0 = time.time()
        k = 0
        while time.time() - t0 < budget:
            for thr, noth in ((3, 0), (0, 1), (0, 0), (6, 0), (1, 0)):
                for delay in (0, 2, 3, 1, 4):
                    if not thr and delay:
                        continue
                    k += 1
                    rfd, wfd = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        os.close(rfd)
                        self.child(so, offs, thr, noth, delay, seed * 1000 + k, wfd)
                    os.close(wfd)
                    r, last, why = self.watch(pid, rfd)
                    os.close(rfd)
                    if why:
                        r = ('fail', dict(last or {}, failure=why))
                    elif r and r[0] == 'err':
                        self.err = r[1]
                    if r and r[0] == 'fail':
                        return r[1]
                    if time.time() - t0 > budget:
                        return None
        return None

    def watch(self, pid, fd):
        buf = b''
        r = last = why = None
        dead = time.time() + 8
        while r is None:
            if not select.select([fd], [], [], max(0.0, dead - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                why = 'the call did not return within 8 s'
                break
            d = os.read(fd, 65536)
            if not d:
                break
            buf += d
            while b'\n' in buf:
                l, buf = buf.split(b'\n', 1)
                m = json.loads(l)
                if m[0] == 'try':
                    last = m[1]
                    self.tried += 1
                    dead = time.time() + 8
                else:
                    r = m
        st = os.waitpid(pid, 0)[1]
        if r is None and why is None:
            why = 'the process died (status %d)' % st
        return r, last, why

    def child(self, so, offs, thr, noth, delay, seed, fd):
        send = lambda m: os.write(fd, json.dumps(m).encode() + b'\n')
        try:
            r = self.trial(so, offs, thr, noth, delay, seed, send)
            send(('fail', r) if r else ('ok', None))
        except Exception as e:
            send(('err', repr(e)))
        os._exit(0)

    def trial(self, so, offs, thr, noth, delay, seed, out):
        L = ctypes.CDLL(so, mode=os.RTLD_LAZY)
        rng = random.Random(seed)
        o = offs
        worker = ctypes.create_string_buffer(max(o['worker_size'], 256))
        ctypes.memset(worker, 0, o['worker_size'])
        wa = ctypes.addressof(worker)
        if self.args is not None:
            ctypes.c_int64.in_dll(L, 'g_cMathWorker').value = wa
        worker[o['NoThreading']] = bytes([noth])
        ctypes.c_int32.from_address(wa + o['WorkerThreadCount']).value = thr
        ol = [o[k] for k in ORDER[:18]]
        if self.threadfn:
            ctypes.c_int64.in_dll(L, 'vcmt_fn').value = ctypes.cast(getattr(L, self.threadfn), ctypes.c_void_p).value
        L.vcmt_init((ctypes.c_int64 * 18)(*ol), thr, ctypes.c_void_p(wa))
        L.vcmt_ring32(ctypes.c_int64(o['FutexWakeCount']), thr)
        L.vcmt_recs.restype = ctypes.POINTER(Rec)
        kaddr = ctypes.cast(L.vcmt_kernel, ctypes.c_void_p).value
        f = ctypes.cast(getattr(L, self.fn), ctypes.c_void_p)
        L.vcmt_call.restype = L.vcmt_item.restype = ctypes.c_int64
        ring = ctypes.c_int64.from_address(wa + o['pWorkerRing']).value
        ck = o['chunk']
        for it in range(14 if delay == 0 else 7):
            n = self.length(rng, it, ck)
            env = {'n': n, 'fn_vc_kernel': kaddr}
            keep = []
            for nm, w, lo, hi in self.S.vars:
                env[nm] = rng.randrange(lo, hi + 1) if lo is not None else rng.randrange(1 << 20, 1 << 44)
            m = {tm.var(nm, w): const(env[nm], w) for nm, w, lo, hi in self.S.vars}
            m[tm.var('n', 64)] = const(n, 64)
            m[tm.var('fn_vc_kernel', 64)] = const(kaddr, 64)
            for nm, base, size, fields, glob in self.S.objs:
                if glob:
                    a = ctypes.addressof(ctypes.c_char.in_dll(L, nm))
                else:
                    b = ctypes.create_string_buffer(size + 16)
                    keep.append(b)
                    a = ctypes.addressof(b)
                m[base] = const(a, 64)
                for off, v in fields:
                    ctypes.c_int64.from_address(a + off).value = tm.sval(tm.subst(v, m)) if v.w == 64 else 0
            res = (ctypes.c_int64 * 8)()
            d = dict(function=self.fn, threads=thr, no_threading=noth, delay=delay, values={k: v for k, v in env.items() if k != 'fn_vc_kernel'})
            out(('try', d))
            if self.args is None:
                B, blocks = ck, -(-n // ck)
                cnt = L.vcmt_item(f, ctypes.c_void_p(tm.sval(tm.subst(self.arg, m))), ctypes.c_int64(o['WorkCallbackArg']), ctypes.c_int64(n), ctypes.c_int64(o['TotalElements']), ctypes.c_int64(B),
                                  ctypes.c_int64(blocks), delay, res)
                pub = True
                if res[0]:
                    return dict(d, failure='%d blocks reported complete instead of %d' % (res[0] + blocks, blocks))
            else:
                vals = [tm.subst(a, m) for a in self.args]
                av = (ctypes.c_int64 * 10)(*([tm.sval(v) for v in vals] + [0] * (10 - len(vals))))
                w0 = ctypes.c_int64.from_address(ring + o['WorkIndex']).value
                item = ring + o['WorkerQueue'] + (w0 & 1023) * o['item_size']
                cnt = L.vcmt_call(f, av, len(vals), delay, res)
                pub = res[3] == 1
                if res[3] not in (0, 1) or res[4] != res[3]:
                    return dict(d, failure='ring index advanced by %d, completed by %d' % (res[3], res[4]))
                if res[0] or res[2]:
                    return dict(d, failure='%d kernel calls not finished and %d not started when the caller returned' % (res[0], res[2]))
                if res[1]:
                    return dict(d, failure='%d worker threads awake when the caller returned' % res[1])
                B = ctypes.c_int64.from_address(item + o['BlockSize']).value if pub else 1
                if pub and B <= 0:
                    return dict(d, failure='block size %d' % B)
            R = L.vcmt_recs()
            if self.custom:
                exp = [(i, 1) for i in range(n)]
            elif pub:
                exp = [(s, min(B, n - s)) for s in range(0, n, B)]
            else:
                exp = [(0, n)]
            if cnt != len(exp):
                return dict(d, failure='%d kernel calls instead of %d' % (cnt, len(exp)))
            if cnt > NREC:
                continue
            recs = [R[i] for i in range(cnt)]
            if self.threadfn:
                own = {}
                for r in recs:
                    own.setdefault(r.me, set()).add(r.a[1] & 0xffffffff)
                if any(len(c) > 1 for c in own.values()) or pub and sum(map(len, own.values())) != len(set().union(*own.values())):
                    return dict(d, failure='threads share or change core numbers: %s' % {k: sorted(v) for k, v in own.items()})
            used = set()
            for s, ln in exp:
                ok = False
                for i, r in enumerate(recs):
                    if i in used:
                        continue
                    args = [const(x & ((1 << 64) - 1), 64) for x in r.a]
                    goals = self.kernel(args, const(s, 64), const(ln, 64), const(r.me & ((1 << 64) - 1), 64), not pub)
                    if all(tm.subst(g, m) is tm.TRUE for _, g in goals):
                        used.add(i)
                        ok = True
                        break
                if not ok:
                    return dict(d, failure='no kernel call with the contract\'s arguments for elements [%d, %d)' % (s, s + ln),
                                calls=[list(r.a)[:8] for r in recs if True][:6], expected=[(w, repr(tm.subst(g, m))[:200]) for w, g in goals][:8])
        L.vcmt_fini()
        return None

    def length(self, rng, it, ck):
        if self.custom:
            return (0, 1, 2, 3, 7, 60)[it] if it < 6 else rng.randrange(0, 200)
        if it < 4:
            return (2 * ck, 2 * ck + 1, 3 * ck - 1, 5 * ck)[it]
        return rng.choice((ck * rng.randrange(2, 6) + (1 << rng.randrange(0, 14)), rng.randrange(0, 3 * ck), rng.randrange(0, 20 * ck), ck * rng.randrange(2, 12) + rng.choice((-1, 0, 1)), 1, 0 if self.args is None else 5))


from .conc import OFFS as ORDER  # noqa: E402
