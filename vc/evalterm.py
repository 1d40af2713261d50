"""Concrete evaluation of terms (used only to replay failed obligations on the compiled code)."""
import ctypes
import ctypes.util
import numpy as np
from . import term as tm
from .term import mask

np.seterr(all='ignore')
libm = ctypes.CDLL('libm.so.6')


class Undefined(Exception):
    pass


FT = {16: np.float16, 32: np.float32, 64: np.float64}
IT = {16: np.uint16, 32: np.uint32, 64: np.uint64}


def tof(x, w):
    if w == 80:
        b = x.to_bytes(10, 'little') + b'\0' * 6
        return np.frombuffer(b, dtype=np.longdouble)[0]
    return np.frombuffer(x.to_bytes(w // 8, 'little'), dtype=FT[w])[0]


def fromf(v, w):
    if w == 80:
        return int.from_bytes(np.array([v], dtype=np.longdouble).tobytes()[:10], 'little')
    return int.from_bytes(np.array([v], dtype=FT[w]).tobytes(), 'little')


def s_(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Ev:
    def __init__(self, vars, ufs):
        self.vars = vars          # name -> int
        self.ufs = ufs            # callable(name, args, w) -> int
        self.memo = {}

    def __call__(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ('ite', 'bite'):
            c = self(t.a[0])
            r = self(t.a[1] if c else t.a[2])
            memo[t.id] = r
            return r
        if t.op == 'and':
            r = True
            for z in t.a:
                if not self(z):
                    r = False
                    break
            memo[t.id] = r
            return r
        a = [self(z) for z in t.a]
        r = self.op(t, a)
        if t.w:
            r = int(r) & mask(t.w)
        else:
            r = bool(r)
        memo[t.id] = r
        return r

    def op(self, t, a):
        o = t.op
        w = t.w
        if o == 'c':
            return t.x
        if o == 'v':
            if t.x not in self.vars:
                raise Undefined('variable ' + t.x)
            return self.vars[t.x]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'uf':
            return self.uf(t, a)
        if o == 'lin':
            m = {z.id: v for z, v in zip(t.a, a)}
            c, ms = t.x
            r = c
            for k, mon in ms:
                p = k
                for i in mon:
                    p *= m[i]
                r += p
            return r
        if o == 'mulm' or o == 'mul':
            p = 1
            for v in a:
                p *= v
            return p
        if o == 'not':
            return not a[0]
        if o == 'iff':
            return bool(a[0]) == bool(a[1])
        if o == 'extract':
            return a[0] >> t.x[1]
        if o == 'concat':
            r = 0
            for z, v in zip(t.a, a):
                r = (r << z.w) | v
            return r
        if o == 'sext':
            return s_(a[0], t.a[0].w)
        if o == 'bvand':
            r = mask(w)
            for v in a:
                r &= v
            return r
        if o == 'bvor':
            r = 0
            for v in a:
                r |= v
            return r
        if o == 'bvxor':
            r = 0
            for v in a:
                r ^= v
            return r
        if o == 'shl':
            return a[0] << a[1] if a[1] < w else 0
        if o == 'lshr':
            return a[0] >> a[1] if a[1] < w else 0
        if o == 'ashr':
            return s_(a[0], w) >> min(a[1], w - 1)
        if o == 'udiv':
            if a[1] == 0:
                raise Undefined('div 0')
            return a[0] // a[1]
        if o == 'urem':
            if a[1] == 0:
                raise Undefined('div 0')
            return a[0] % a[1]
        if o in ('sdiv', 'srem'):
            x, y = s_(a[0], w), s_(a[1], w)
            if y == 0 or (y == -1 and x == -(1 << (w - 1))):
                raise Undefined('div')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if o == 'sdiv' else x - q * y
        if o == 'eq':
            return a[0] == a[1]
        if o == 'ult':
            return a[0] < a[1]
        if o == 'slt':
            w0 = t.a[0].w
            return s_(a[0], w0) < s_(a[1], w0)
        if o == 'flt':
            w0 = t.a[0].w
            return bool(tof(a[0], w0) < tof(a[1], w0))
        if o == 'feq':
            w0 = t.a[0].w
            return bool(tof(a[0], w0) == tof(a[1], w0))
        if o == 'fisnan':
            return bool(np.isnan(tof(a[0], 80)))
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = tof(a[0], w), tof(a[1], w)
            v = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y, 'frem': lambda: np.fmod(x, y)}[o]()
            return fromf(v, w)
        if o == 'fsqrt':
            return fromf(np.sqrt(tof(a[0], w)), w)
        if o == 'fround':
            x = tof(a[0], w)
            if t.x == 'floor':
                v = np.floor(x)
            elif t.x == 'ceil':
                v = np.ceil(x)
            elif t.x == 'trunc':
                v = np.trunc(x)
            elif t.x == 'even':
                v = np.rint(x)
            else:
                tr = np.trunc(x)
                v = tr if not (abs(x - tr) >= 0.5) else tr + np.copysign(type(x)(1), x)
            return fromf(v, w)
        if o in ('sitofp', 'uitofp'):
            n = s_(a[0], t.a[0].w) if o == 'sitofp' else a[0]
            if w == 80:
                return fromf(np.longdouble(n), w)
            if w == 32:
                # single rounding
                return fromf(np.array([n], dtype=np.int64 if n < (1 << 63) else np.uint64).astype(np.float32)[0], 32)
            return fromf(float(n), w)
        if o in ('fptosi', 'fptoui'):
            x = tof(a[0], t.a[0].w)
            if not np.isfinite(x):
                raise Undefined('fptoi')
            n = int(np.trunc(x))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if o == 'fptosi' else (0, mask(w))
            if not lo <= n <= hi:
                raise Undefined('fptoi')
            return n
        if o in ('fpext', 'fptrunc'):
            x = tof(a[0], t.a[0].w)
            if w == 80:
                return fromf(np.longdouble(x), 80)
            return fromf(FT[w](x), w)
        raise Undefined('op ' + o)

    def uf(self, t, a):
        nm = t.x
        w = t.w
        if nm.startswith('libm_'):
            f = nm[5:]
            if w == 80:
                fn = getattr(libm, f + 'l')
                ct = ctypes.c_longdouble
                raise Undefined('libm long double')
            fn = getattr(libm, f + ('f' if w == 32 else ''))
            ct = ctypes.c_float if w == 32 else ctypes.c_double
            fn.restype = ct
            fn.argtypes = [ct] * len(a)
            return fromf(fn(*[float(tof(x, z.w)) for x, z in zip(a, t.a)]), w)
        r = self.ufs(nm, a, w)
        if r is None:
            raise Undefined('uf ' + nm)
        return r
