"""Shared pieces of the contract families."""
from vc import term as tm
from vc.term import const, var, TRUE, FALSE, add, sub, mul, eq, slt, sle, band, bor, bnot, ite, isc
from vc.sym import Ex, St, Unsupported
from vc.kernel import *
from vc.kernel import Broken

OPS = dict(ADD=1, SUB=2, MUL=3, MOD=5, MIN=6, MAX=7, NANMIN=8, NANMAX=9, FLOORDIV=10, POWER=11, REMAINDER=12, FMOD=13, WHERE=50, DIV=101,
           SUBDATETIMES=102, SUBDATES=103, ABS=201, NEG=202, FABS=203, INVERT=204, FLOOR=205, CEIL=206, TRUNC=207, ROUND=208, NEGATIVE=212,
           SIGN=214, EXP=216, EXP2=217, SQRT=301, LOG=302, LOG10=304, CBRT=308, CMP_EQ=401, CMP_NE=402, CMP_LT=403, CMP_GT=404, CMP_LTE=405,
           CMP_GTE=406, LOGICAL_AND=407, LOGICAL_XOR=408, LOGICAL_OR=409, BITWISE_LSHIFT=501, BITWISE_RSHIFT=502, BITWISE_AND=503,
           BITWISE_XOR=504, BITWISE_OR=505, BITWISE_ANDNOT=506, BITWISE_NOTAND=507, BITWISE_XOR_SPECIAL=550, LOGICAL_NOT=601, ISINF=603,
           ISNAN=604, ISFINITE=605, ISNORMAL=606, ISNOTINF=607, ISNOTNAN=608, ISNOTFINITE=609, ISNOTNORMAL=610, ISNANORZERO=611, SIGNBIT=612,
           BITWISE_NOT=701)


def find_fn(M, frag):
    """mangled name of the unique function whose mangled name starts with frag, or equals it"""
    if frag in M.funcs:
        return frag
    l = [f for f in M.funcs if f.startswith(frag)]
    if len(l) != 1:
        raise Unsupported('function %s: %d candidates' % (frag, len(l)))
    return l[0]


def dispatch(ctx, frag, args, outs=()):
    """run a dispatcher of /repo on concrete arguments -> (kernel name or None, list of out values)

    args: ints (32 bit) or ('out', n) for an int* result cell."""
    fn = ctx.M.funcs[find_fn(ctx.M, frag)]
    ex = Ex(ctx.M, 'dispatch')
    ex.gcontent = dict(ctx.ex.gcontent)
    st = St()
    al = []
    cells = []
    for j, a in enumerate(args):
        if isinstance(a, tuple):
            r = ex.region('cell%d_%s' % (j, frag[:20]), 4, const(1, 64))
            st.mem.setdefault(r, None) if hasattr(st.mem, 'setdefault') else None
            cells.append(r)
            al.append(r.base)
        else:
            al.append(const(a, 32) if isinstance(a, int) else a)
    rets = ex.call_function(fn, al, st)
    if len(rets) != 1:
        raise Unsupported('dispatcher %s: %d outcomes' % (frag, len(rets)))
    rv, st = rets[0]
    ctx.ex.used_fns |= ex.used_fns
    name = None
    if not isc(rv):
        if rv.op == 'v' and rv.x.startswith('fn_'):
            name = rv.x[3:]
        else:
            raise Unsupported('dispatcher %s returned %r' % (frag, rv))
    elif rv.x != 0:
        raise Unsupported('dispatcher %s returned %r' % (frag, rv))
    ov = []
    for r in cells:
        v = ex.read_elem(st, r, const(0, 64))
        ov.append(tm.sval(v) if isc(v) else None)
    return name, ov


def dtype_name(d):
    return NAMES[d]
