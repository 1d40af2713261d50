"""Replay of failed obligations: search for a concrete input on which the compiled code breaks the contract."""
import ctypes
import json
import mmap
import os
import random
import signal
import subprocess
import sys
import time
import hashlib
from . import term as tm
from . import build
from .evalterm import Ev, Undefined, s_
from .term import mask

PAGE = 4096


def native_lib(tu):
    """shared object made from the extracted (pre-normalisation) IR of the translation unit, all functions exported"""
    ll = build.extract(tu)
    inc = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc')
    so = ll[:-3] + '-%s.so' % hashlib.sha256(b''.join(open(os.path.join(inc, f), 'rb').read() for f in ('mtdrv.c', 'stubs.c'))).hexdigest()[:8]
    if os.path.exists(so):
        return so
    bc = ll[:-3] + '.bc'
    base = so + '.%d' % os.getpid()
    mt = tu.endswith('.mt')
    obj, obj2, stub, tmp, cst = base + '.o', base + '.g.o', base + '.s', base + '.tmp', base + '.c.o'
    try:
        subprocess.run(['clang-18', '-O2', '-fPIC', '-mavx2', '-mbmi2', '-ffp-contract=off', '-fwrapv', '-w', '-c', ll[:-3] + '.opt.bc', '-o', obj], check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=600)
        nm = subprocess.run(['nm', obj], stdout=subprocess.PIPE).stdout.decode().split('\n')
        loc, und, dfn = [], set(), set()
        for l in nm:
            p = l.split()
            if len(p) == 3 and p[1] in 'tdbr':
                loc.append(p[2])
            if len(p) == 3 and p[1] not in 'Uw':
                dfn.add(p[2])
            if len(p) == 2 and p[0] in ('U',):
                und.add(p[1])
        loc.append('vc_none')
        lf = base + '.sym'
        open(lf, 'w').write('\n'.join(x for x in loc if not x.startswith('.')))
        subprocess.run(['objcopy', '--remove-section=.init_array', '--remove-section=.rela.init_array', '--globalize-symbols=' + lf, obj, obj2], check=True)
        os.unlink(lf)
        csrc = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc', 'stubs.c')
        subprocess.run(['gcc', '-O1', '-fPIC', '-w', '-c', csrc, '-o', cst], check=True)
        more = []
        if mt:
            more = [base + '.d.o']
            subprocess.run(['gcc', '-O1', '-fPIC', '-w', '-c', os.path.join(os.path.dirname(csrc), 'mtdrv.c'), '-o', more[0]], check=True)
        for l in subprocess.run(['nm', cst], stdout=subprocess.PIPE).stdout.decode().split('\n'):
            p = l.split()
            if len(p) == 3 and p[1] in 'WVTD':
                dfn.add(p[2])
        # undefined symbols that neither libc/libm/libstdc++ nor python provide get a weak zero stub
        with open(stub, 'w') as f:
            f.write('.data\n.balign 64\n')
            for u in sorted(und - dfn):
                if u.startswith('_GLOBAL_') or u.startswith('__dso') or known(u):
                    continue
                f.write('.weak "%s"\n"%s":\n .zero 256\n' % (u, u))
        subprocess.run(['clang-18', '-c', '-x', 'assembler', stub, '-o', stub + '.o'], check=True)
        subprocess.run(['g++', '-shared', '-o', tmp, obj2, cst, stub + '.o'] + more + ['-lm', '-lpthread'], check=True, stderr=subprocess.PIPE)
        os.rename(tmp, so)
    finally:
        for f in (obj, obj2, stub, stub + '.o', tmp, cst, base + '.d.o'):
            if os.path.exists(f):
                os.unlink(f)
    return so


_kn = {}


def known(u):
    if u not in _kn:
        r = False
        for L in (None, 'libm.so.6', 'libstdc++.so.6', 'libc.so.6'):
            try:
                getattr(ctypes.CDLL(L), u)
                r = True
                break
            except (AttributeError, OSError):
                pass
        _kn[u] = r
    return _kn[u]


class Buf:
    """buffer whose end touches a guard page (guard=True) or is surrounded by canaries"""

    def __init__(self, nbytes, guard, lead=0, libc=ctypes.CDLL(None)):
        self.n = nbytes
        total = (nbytes + lead + 512 + PAGE - 1) // PAGE * PAGE + 2 * PAGE
        self.m = mmap.mmap(-1, total)
        self.addr0 = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        self.total = total
        if guard:
            libc.mprotect(self.addr0 + total - PAGE, PAGE, 0)
            self.off = total - PAGE - nbytes
        else:
            self.off = PAGE + lead
        self.addr = self.addr0 + self.off
        self.guard = guard
        self.can = bytes([0xA5]) * 256
        pre = min(256, self.off)
        ctypes.memset(self.addr - pre, 0xA5, pre)
        if not guard:
            ctypes.memset(self.addr + nbytes, 0xA5, 256)

    def write(self, b):
        ctypes.memmove(self.addr, b, len(b))

    def read(self):
        return ctypes.string_at(self.addr, self.n)

    def ok(self):
        if ctypes.string_at(self.addr - 256, 256) != self.can:
            return False
        if not self.guard and ctypes.string_at(self.addr + self.n, 256) != self.can:
            return False
        return True


def pool_for(gran, consts):
    w = 8 * gran
    p = [0, 1, 2, 3, 5, mask(w), mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << (w - 1)) - 1, (1 << (w - 1)) - 2]
    if w == 32:
        p += [0x7fc00000, 0xffc00000, 0x7f800000, 0xff800000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x3fc00000, 0x40200000, 0xc0200000,
              0x80000000, 0x40000000, 0x7f7fffff, 1]
    if w == 64:
        p += [0x7ff8 << 48, 0xfff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x3ff0 << 48, 0xbff0 << 48, 0x3fe0 << 48, 0xbfe0 << 48, 0x3ff8 << 48,
              0x4004 << 48, 0xc004 << 48, 0x8000 << 48, 0x4000 << 48, 0x7fefffffffffffff, 0x4530 << 48, 0x43e0 << 48]
    if w == 128:
        one = (0x3fff << 64) | (1 << 63)
        p = [0, one, one | (1 << 79), (0x4000 << 64) | (1 << 63), (0x7fff << 64) | (3 << 62), (0x7fff << 64) | (1 << 63), (0x3ffe << 64) | (1 << 63)]
    for c in consts:
        if c < (1 << w):
            p += [c, (c + 1) & mask(w), (c - 1) & mask(w)]
    return p


def harvest(terms, out, seen=None):
    """bit-vector constants mentioned in terms, by width"""
    seen = set() if seen is None else seen
    st = list(terms)
    while st and len(seen) < 20000:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'c':
            out.setdefault(t.w, set()).add(t.x)
        st.extend(t.a)


class Replayer:
    def __init__(self, ctx, fname, args, ensures, budget=25.0, seed=1):
        self.ctx = ctx
        self.ex = ctx.ex
        self.fname = fname
        self.args = args
        self.ensures = ensures     # list of dicts
        self.budget = budget
        self.rng = random.Random(seed)
        self.pool = {}
        self.szpool = []

    # -------------------------------------------------- concrete state
    def region_bytes(self, r):
        """gran-sized cells"""
        return r.gran

    def gen_case(self, i):
        rng = self.rng
        ctx = self.ctx
        env = {}
        # scalar variables of the precondition
        for v, kind in ctx.scalars.items():
            env[v] = kind(rng, env, i)
        return env

    def run(self, hints=()):
        """-> dict describing a failing input, or None"""
        so = native_lib(self.ctx.M.tu)
        t0 = time.time()
        i = 0
        tried = 0
        while time.time() - t0 < self.budget and i < 100000:
            # batches in a child so that crashes are contained
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = None
                try:
                    signal.alarm(60)
                    f = os.fdopen(w, 'w')
                    res = self.batch(so, i, 60, f, min(20, self.budget - (time.time() - t0)))
                    f.write(json.dumps({'done': res}) + '\n')
                    f.flush()
                except BaseException as e:
                    try:
                        f.write(json.dumps({'err': '%s: %s' % (type(e).__name__, e)}) + '\n')
                        f.flush()
                    except Exception:
                        pass
                finally:
                    os._exit(0)
            os.close(w)
            last = None
            done = None
            err = None
            with os.fdopen(r) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if 'done' in d:
                        done = d
                    elif 'err' in d:
                        err = d['err']
                    else:
                        last = d
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):
                sg = os.WTERMSIG(status)
                if last is not None and sg in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT):
                    last['crash'] = signal.Signals(sg).name
                    return last
                return None
            if err:
                self.err = err
                return None
            if done and done['done']:
                return done['done']
            i += 60
        self.tried = i
        return None

    def batch(self, so, start, n, f, budget):
        lib = ctypes.CDLL(so, mode=os.RTLD_NOW | os.RTLD_GLOBAL if False else ctypes.DEFAULT_MODE)
        fn = getattr(lib, self.fname)
        t0 = time.time()
        for i in range(start, start + n):
            if time.time() - t0 > budget:
                return None
            res = self.one(fn, i, f)
            if res:
                return res
        return None

    def one(self, fn, i, f):
        ctx = self.ctx
        rng = random.Random(i * 7919 + 13)
        self.rng = rng
        env = {}
        for v, gen in ctx.scalars.items():
            env[v] = gen(rng, env, i)
        content = {}
        bufs = {}
        guard = i % 3 == 2

        def ufs(name, a, w):
            r = ctx.ufregion.get(name)
            if r is not None:
                l = content.get(r.name)
                k = s_(a[0], 64)
                if l is None or not 0 <= k < len(l):
                    raise Undefined('%s[%d]' % (r.name, k))
                return l[k]
            fo = ctx.foldby.get(name)
            if fo is not None:
                return fo.concrete(self, ev, [s_(x, 64) for x in a])
            return None
        ev = Ev(env, ufs)
        self.ev = ev
        self.runid = object()
        # lengths and contents
        for r in ctx.regs:
            ln = s_(ev(r.len), 64) if r.len is not None else 0
            if ln < 0 or ln > 4000000:
                return None
            r.clen = ln
        for r in ctx.regs:
            if r.kind == 'obj':
                continue
            content[r.name] = self.gen_content(r, r.clen, rng, env, content, i)
            if content[r.name] is None:
                return None
        for r in ctx.regs:
            if r.stride is not None:
                s = s_(ev(r.stride), 64)
                span = abs(s) * max(0, r.clen - 1) + r.gran
                b = Buf(span, False)
                base = b.addr + (-s * max(0, r.clen - 1) if s < 0 else 0)
                bufs[r.name] = (b, base, s)
            elif r.kind == 'obj':
                b = Buf(r.clen, False)
                bufs[r.name] = (b, b.addr, 1)
            else:
                nb = r.gran * r.clen
                g = guard and nb % 32 == 0 and nb > 0
                b = Buf(nb, g, lead=r.gran * rng.randrange(0, 64) % 64 if r.gran in (1, 2, 4, 8, 16) and i % 2 else 0)
                bufs[r.name] = (b, b.addr, r.gran)
            env[r.base.x] = bufs[r.name][1]
        for g, base in ctx.ex.globs.items():
            pass
        for p in ctx.pre:
            try:
                if not ev(p):
                    return None
            except Undefined:
                return None
        for r in ctx.regs:
            b, base, s = bufs[r.name]
            if r.kind == 'obj':
                data = bytearray(r.clen)
                for j in range(r.clen):
                    t = r.init(ctx.ex, tm.const(j, 64), 8) if r.init else None
                    if t is not None:
                        try:
                            data[j] = ev(t)
                        except Undefined:
                            pass
                b.write(bytes(data))
                content[r.name] = list(data)
            elif r.stride is not None:
                for j, x in enumerate(content[r.name]):
                    ctypes.memmove(base + s * j, x.to_bytes(r.gran, 'little'), r.gran)
                if s == 0 and content[r.name]:
                    content[r.name] = [content[r.name][-1]] * len(content[r.name])
            else:
                b.write(b''.join(x.to_bytes(r.gran, 'little') for x in content[r.name]))
        args = []
        for a in self.args:
            if isinstance(a, str):
                args.append(fn_addr(fn, a))
                continue
            v = ev(a)
            args.append(ctypes.c_uint64(v) if a.w > 32 else ctypes.c_uint32(v))
        if self.ret_float:
            fn.restype = ctypes.c_double if self.ret_float == 64 else ctypes.c_float
        else:
            fn.restype = ctypes.c_uint64
        desc = {'function': self.fname, 'scalars': {k: s_(v, 64) for k, v in env.items() if not k.startswith('base_')},
                'arrays': {n: [hex(x) for x in l[:80]] for n, l in content.items()}}
        f.write(json.dumps(desc) + '\n')
        f.flush()
        rv = fn(*args)
        for r in ctx.regs:
            if not bufs[r.name][0].ok():
                desc['failure'] = 'write outside region ' + r.name
                return desc
        self.content = content
        # postconditions
        for e in self.ensures:
            res = self.check(e, ev, env, bufs, rv, content)
            if res:
                desc['failure'] = res
                return desc
        return None

    def subev(self, ev, vs):
        e2 = Ev(dict(ev.vars), ev.ufs)
        e2.vars.update(vs)
        return e2

    def gen_content(self, r, ln, rng, env, content, i):
        if r.gen is not None:
            return r.gen(self, r, ln, rng, env, content, i)
        return self.gen_default(r, ln, rng, i)

    def gen_default(self, r, ln, rng, i):
        w = 8 * r.gran
        pool = self.pool.get(r.name)
        if pool is None:
            pool = self.pool[r.name] = pool_for(r.gran, sorted(self.ctx.consts.get(w, ()))[:400] + sorted(self.ctx.consts.get(w - 48 if w == 128 else w, ()))[:10] + list(r.hints))
        mode = i % 4
        out = []
        for j in range(ln):
            q = rng.random()
            if mode == 0 or (mode < 3 and q < 0.5):
                out.append(rng.choice(pool) & mask(w))
            elif q < 0.8:
                x = rng.choice((rng.randrange(-20, 20), rng.randrange(-300, 300)))
                if r.fl:
                    from .evalterm import fromf
                    import numpy as np
                    out.append(fromf(x * rng.choice((0.5, 1.0, 1.25)), r.fl) & mask(w))
                else:
                    out.append(x & mask(w))
            else:
                out.append(rng.getrandbits(w) if w != 128 else rng.choice(pool))
        if r.fix is not None:
            out = [r.fix(x) for x in out]
        return out

    def check(self, e, ev, env, bufs, rv, content):
        kind = e['kind']
        if kind == 'region':
            r = e['region']
            b, base, s = bufs[r.name]
            try:
                lo, hi = s_(ev(e['lo']), 64), s_(ev(e['hi']), 64)
            except Undefined:
                return None
            ks = list(range(lo, hi))
            if len(ks) > 3000:
                ks = ks[:600] + ks[-600:] + self.rng.sample(ks, 1800)
            kv = e['k']
            for k in ks:
                e2 = Ev(dict(env), ev.ufs)
                e2.vars[kv.x] = k & mask(64)
                raw = int.from_bytes(ctypes.string_at(base + s * s_(e2(e['at']), 64), r.gran), 'little')
                e2.vars[e['v'].x] = raw
                ev_save, self.ev = self.ev, e2
                try:
                    for p in e.get('when', ()):
                        if not e2(p):
                            break
                    else:
                        if not e2(e['goal']):
                            try:
                                exp = hex(e2(e['spec']))
                            except (Undefined, KeyError):
                                exp = '?'
                            return '%s[%d] is %#x, contract says %s' % (r.name, k, raw, exp)
                except Undefined:
                    pass
                finally:
                    self.ev = ev_save
        elif kind == 'ret':
            e2 = Ev(dict(env), ev.ufs)
            from .evalterm import fromf
            v = e['v']
            e2.vars[v.x] = (fromf(rv, v.w) if self.ret_float else rv & mask(v.w)) if v.w else bool(rv & 1)
            try:
                if not e2(e['goal']):
                    return 'returned %r; contract %s broken' % (rv, e.get('what'))
            except Undefined:
                pass
        elif kind == 'frame':
            r = e['region']
            b, base, s = bufs[r.name]
            for k, x in enumerate(content[r.name]):
                raw = int.from_bytes(ctypes.string_at(base + s * k, r.gran), 'little')
                if raw != x:
                    return '%s[%d] changed from %#x to %#x' % (r.name, k, x, raw)
        elif kind == 'custom':
            return e['f'](self, ev, env, bufs, rv, content)
        return None

    ret_float = 0


def fn_addr(fn, name):
    raise NotImplementedError


def code_consts(ctx, out):
    """integer / float literals of the function under contract"""
    import re
    from . import ir
    for n in sorted(ctx.ex.used_fns | ({ctx.fname} if ctx.fname else set())):
        fn = ctx.M.funcs.get(n)
        if fn is None:
            continue
        txt = '\n'.join(fn.lines)
        for m in re.finditer(r'(?:^|[ ,(])(-?\d{1,20})(?=[,)\s]|$)', txt):
            v = int(m.group(1))
            for w in (8, 16, 32, 64):
                if -(1 << (w - 1)) <= v < (1 << w):
                    s = out.setdefault(w, set())
                    if len(s) < 400:
                        s.add(v & mask(w))
        for m in re.finditer(r'0x([0-9A-Fa-f]{16})', txt):
            v = int(m.group(1), 16)
            out.setdefault(64, set()).add(v)
            import struct
            try:
                f = struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                out.setdefault(32, set()).add(int.from_bytes(struct.pack('<f', f), 'little'))
            except (OverflowError, ValueError):
                pass


def model_hints(ctx, ob):
    from .solver import model_val
    seen = set()
    st = [ob.goal] + list(ob.pc)
    while st and len(seen) < 5000:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'uf' and t.x in ctx.ufregion:
            try:
                ctx.ufregion[t.x].hints.append(model_val(ob.model, t))
            except Exception:
                pass
        st.extend(t.a)
