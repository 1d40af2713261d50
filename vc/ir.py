"""Parser for the textual LLVM 18 IR that clang/opt produce from /repo's sources."""
import re

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
  | (?P<meta>!(?:[-A-Za-z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
  | (?P<word>[A-Za-z_$.][-A-Za-z$._0-9]*)
  | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k in ('loc', 'glob') and '"' in v:
            v = v[0] + v[2:-1]
        out.append((k, v))
    return out


# ---- types: ('i',n) ('f',w) ('p',) ('v',n,el) ('a',n,el) ('s',[..]) ('void',) ('fn',) ('label',) ('meta',)
class Ty:
    __slots__ = ('k', 'n', 'el')

    def __init__(self, k, n=None, el=None):
        self.k = k
        self.n = n
        self.el = el

    def __repr__(self):
        return '%s%s%s' % (self.k, self.n if self.n is not None else '', '' if self.el is None else repr(self.el))


PTR = Ty('p')
VOID = Ty('void')
FW = {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}


def size_align(t, M):
    k = t.k
    if k == 'i':
        n = t.n
        b = (n + 7) // 8
        if n > 64:
            return 16 * ((b + 15) // 16), 16
        p = 1
        while p < b:
            p *= 2
        return p, p
    if k == 'f':
        if t.n == 80:
            return 16, 16
        return t.n // 8, t.n // 8
    if k == 'p':
        return 8, 8
    if k == 'v':
        if t.el.k == 'i' and t.el.n == 1:
            b = (t.n + 7) // 8
        else:
            b = t.n * (bits(t.el, M) // 8)
        p = 1
        while p < b:
            p *= 2
        return p, p
    if k == 'a':
        s, a = size_align(t.el, M)
        return s * t.n, a
    if k == 's':
        off = 0
        al = 1
        for e in t.el:
            s, a = size_align(e, M)
            if t.n == 'packed':
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    if k == 'named':
        return size_align(M.types[t.n], M)
    raise ValueError(t)


def field_off(t, i, M):
    off = 0
    for j, e in enumerate(t.el):
        s, a = size_align(e, M)
        if t.n == 'packed':
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s


def bits(t, M=None):
    if t.k == 'i':
        return t.n
    if t.k == 'f':
        return t.n
    if t.k == 'p':
        return 64
    if t.k == 'v':
        return t.n * bits(t.el, M)
    raise ValueError(t)


def resolve(t, M):
    while t.k == 'named':
        t = M.types[t.n]
    return t


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text')

    def __init__(self, op, res=None, ty=None, a=(), x=None, text=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.text = text


class Func:
    def __init__(self, name, rty, params, lines):
        self.name = name
        self.rty = rty
        self.params = params   # [(name, ty)]
        self.lines = lines
        self.blocks = None
        self.order = None

    def parse(self, M):
        if self.blocks is not None:
            return
        P = Parser(M)
        blocks = {}
        order = []
        cur = None
        nparam_unnamed = sum(1 for n, _ in self.params if n.isdigit())
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([-A-Za-z$._0-9]+)):(\s*;.*)?$', s)
            if m and not ln.startswith(' '):
                cur = m.group(1) if m.group(1) is not None else m.group(2)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = str(nparam_unnamed)
                blocks[cur] = []
                order.append(cur)
            if s.startswith('switch') and not s.endswith(']'):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            while i < len(lines) and re.match(r'^\s+(to label|cleanup|catch |filter )', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
            blocks[cur].append(P.instr(s))
        self.blocks = blocks
        self.order = order


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.gtext = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', ln)
                if m:
                    self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                nm = nm[1:].strip('"')
                self.types[nm] = body
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+) = (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    if re.search(r'\balias\b', m.group(2)) and 'constant' not in m.group(2):
                        self.aliases[nm] = m.group(2).split('@')[-1].strip('"')
                    else:
                        self.gtext[nm] = m.group(2)
            i += 1
        P = Parser(self)
        tt = self.types
        self.types = {}
        for k, v in tt.items():
            if v.startswith('opaque'):
                self.types[k] = Ty('opaque')
            else:
                P.set(v)
                self.types[k] = P.type()

    def _define(self, ln, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        # return type: text before '@' minus linkage words
        P = Parser(self)
        P.set(ln[len('define '):m.start()])
        rty = None
        skip = True
        P.skip_attrs()
        rty = P.type()
        P.set(ln[m.end() - 1:])
        P.expect('(')
        params = []
        idx = 0
        while not P.isp(')'):
            if P.isp('...'):
                P.next()
                break
            ty = P.type()
            P.skip_attrs()
            if P.peek()[0] == 'loc':
                nm = P.next()[1][1:]
            else:
                nm = str(idx)
            if nm.isdigit():
                idx = int(nm) + 1
            params.append((nm, ty))
            if P.isp(','):
                P.next()
        self.funcs[name] = Func(name, rty, params, body)

    def _is_ctor(self, f):
        return f.startswith('_GLOBAL__sub_I_') or f.startswith('__cxx_global_var_init')

    def frozen(self, name):
        """an internal variable that only its static constructor writes: (True, constructor value or None), else None"""
        if not hasattr(self, '_fz'):
            self._fz = {}
            self._uses = {}
            rx = re.compile(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)')
            for fn, F in self.funcs.items():
                for l in F.lines:
                    if '@' in l:
                        for m in rx.finditer(l):
                            self._uses.setdefault(m.group(1).strip('"'), []).append((fn, l))
        if name in self._fz:
            return self._fz[name]
        self._fz[name] = None
        txt = self.gtext.get(name, '')
        if not re.match(r'(internal|private)\b', txt):
            return None
        if any('@' + name + ' ' in t or '@' + name + ',' in t or '@' + name + ')' in t for k, t in self.gtext.items() if k != name):
            return None
        stores = []
        for fn, l in self._uses.get(name, []):
            s = l.strip()
            if self._is_ctor(fn):
                if 'call ptr @llvm.invariant.start' in s:
                    continue
                m = re.match(r'store (.*), ptr @%s, align' % re.escape(name), s)
                if not m:
                    return None
                stores.append(m.group(1))
                continue
            if not self._ro_use(fn, s, '@' + name, 0):
                return None
        val = None
        if stores:
            if len(stores) != 1 or '%' in stores[0]:
                return None
            P = Parser(self)
            P.set(stores[0])
            ty = P.type()
            val = (ty, P.const(ty))
        self._fz[name] = (True, val)
        return self._fz[name]

    def _ro_use(self, fn, s, nm, depth):
        if re.match(r'%%\S+ = load .*, ptr %s(,|$)' % re.escape(nm), s):
            return True
        m = re.match(r'(%%\S+) = getelementptr .*, ptr %s,' % re.escape(nm), s)
        if not m:
            m = re.match(r'(%\S+) = (?:phi|select) ', s)
        if m and depth < 6:
            x = m.group(1)
            rx = re.compile(re.escape(x) + r'(?![-A-Za-z$._0-9])')
            for l in self.funcs[fn].lines:
                t = l.strip()
                if t.startswith(x + ' = ') or not rx.search(t):
                    continue
                if not self._ro_use(fn, t, x, depth + 1):
                    return False
            return True
        return bool(re.match(r'%\S+ = load .*getelementptr .*@', s))

    def glob(self, name):
        """-> (ty, init const or None, is_const, external)"""
        if name in self.globals:
            return self.globals[name]
        txt = self.gtext.get(name)
        if txt is None:
            return None
        P = Parser(self)
        P.set(txt)
        isconst = False
        ext = False
        while True:
            k, v = P.peek()
            if k == 'word' and v in ('global', 'constant'):
                isconst = v == 'constant'
                P.next()
                break
            if k == 'word' and v in ('external', 'extern_weak'):
                ext = True
            P.next()
            if P.isp('('):
                P.parens()
        ty = P.type()
        init = None
        if not ext and not P.end() and not P.isp(','):
            init = P.const(ty)
        al = None
        m = re.search(r', align (\d+)', txt)
        if m:
            al = int(m.group(1))
        r = (ty, init, isconst, ext, al)
        self.globals[name] = r
        return r


ATTRW = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'returned', 'immarg', 'nest', 'swiftself', 'noreturn', 'nounwind', 'internal', 'private', 'linkonce_odr', 'weak_odr',
         'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'protected', 'default', 'fastcc', 'ccc', 'coldcc',
         'weak', 'linkonce', 'external', 'available_externally', 'common', 'dllexport', 'tail', 'notail', 'musttail',
         'nsz', 'nnan', 'ninf', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'thread_local', 'swifterror', 'noinline', 'alwaysinline',
         'allocptr', 'allocalign', 'nofree', 'dead_on_unwind', 'writable', 'dllimport', 'appending', 'comdat', 'nobuiltin', 'builtin', 'cold',
         'nosync', 'willreturn', 'mustprogress', 'noprofile', 'preallocated'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'captures', 'range', 'inalloca',
         'byref', 'allocsize'}


class Parser:
    def __init__(self, M):
        self.M = M

    def set(self, s):
        self.s = s
        self.t = tokenize(s)
        self.i = 0

    def end(self):
        return self.i >= len(self.t)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def isp(self, c):
        k, v = self.peek()
        return k == 'p' and v == c

    def isw(self, c):
        k, v = self.peek()
        return k == 'word' and v == c

    def expect(self, c):
        k, v = self.next()
        if v != c:
            raise ValueError('expected %r got %r in %s' % (c, v, self.s[:200]))

    def parens(self):
        o = self.next()[1]
        c = {'(': ')', '[': ']', '{': '}', '<': '>'}[o]
        d = 1
        while d:
            v = self.next()[1]
            if v == o:
                d += 1
            elif v == c:
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRW:
                self.next()
            elif k == 'word' and v in ATTRP:
                self.next()
                if self.isp('('):
                    self.parens()
                elif self.peek()[0] == 'num':
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.isp('='):
                    self.next()
                    self.next()
            elif k == 'word' and v == 'cc':
                self.next()
                self.next()
            else:
                break

    def type(self):
        t = self.type0()
        while self.isp('(') and t.k in ('void', 'i', 'p', 'f', 'v', 's', 'named', 'a') and self._fnty():
            self.parens()
            t = Ty('fn', None, t)
        return t

    def _fnty(self):
        # function type only where followed by something that makes sense: after "call"
        return getattr(self, 'allow_fn', False)

    def type0(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.isw('addrspace'):
                    self.next()
                    self.parens()
                return PTR
            if v == 'void':
                return VOID
            if v[0] == 'i' and v[1:].isdigit():
                return Ty('i', int(v[1:]))
            if v in FW:
                return Ty('f', FW[v])
            if v in ('label', 'metadata', 'token', 'opaque'):
                return Ty(v)
            raise ValueError('type %r in %s' % (v, self.s[:200]))
        if k == 'loc':
            return Ty('named', v[1:])
        if k == 'p':
            if v == '<':
                if self.isp('{'):
                    t = self.type0()
                    self.expect('>')
                    return Ty('s', 'packed', t.el)
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                return Ty('v', n, e)
            if v == '[':
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect(']')
                return Ty('a', n, e)
            if v == '{':
                l = []
                while not self.isp('}'):
                    l.append(self.type())
                    if self.isp(','):
                        self.next()
                self.next()
                return Ty('s', None, l)
        raise ValueError('type %r %r in %s' % (k, v, self.s[:200]))

    # constants / operands:  ('loc',name) ('glob',name) ('int',v) ('flt',bits) ('zero',) ('undef',) ('null',)
    #                        ('agg',[(ty,op)...]) ('str',bytes) ('cexpr',op,...)
    def const(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v[1:])
        if k == 'glob':
            return ('glob', v[1:])
        if k == 'num':
            if ty.k == 'f':
                import struct
                x = float(v)
                if ty.n == 32:
                    return ('flt', int.from_bytes(struct.pack('<f', x), 'little'))
                if ty.n == 64:
                    return ('flt', int.from_bytes(struct.pack('<d', x), 'little'))
                raise ValueError(self.s)
            return ('int', int(v))
        if k == 'hex':
            import struct
            if v[2] == 'K':
                return ('flt', int(v[3:], 16))
            if v[2] in 'LMHR':
                return ('flt', int(v[3:], 16))
            b = int(v[2:], 16)
            if ty.k == 'f' and ty.n == 32:
                return ('flt', d2f_bits(b))
            return ('flt', b)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('int', 0)
            if v == 'none':
                return ('int', 0)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.const(ty)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                c = self.const(t)
                self.expect(')')
                return ('agg', [(t, c)] * ty.n)
            if v == 'asm':
                while self.peek()[0] in ('word',):
                    self.next()
                s = self.next()
                self.expect(',')
                s2 = self.next()
                return ('asm', s[1], s2[1])
            # constant expression
            op = v
            while self.peek()[0] == 'word':
                self.next()   # inbounds, nuw, ...
            if self.isp('('):
                self.next()
                if op == 'getelementptr':
                    sty = self.type()
                    self.expect(',')
                    args = []
                    while not self.isp(')'):
                        while self.isw('inrange'):
                            self.next()
                        t = self.type()
                        args.append((t, self.const(t)))
                        if self.isp(','):
                            self.next()
                    self.next()
                    return ('cexpr', 'gep', sty, args)
                t = self.type()
                a = self.const(t)
                args = [(t, a)]
                if self.isw('to'):
                    self.next()
                    t2 = self.type()
                    self.expect(')')
                    return ('cexpr', op, t2, args)
                while self.isp(','):
                    self.next()
                    t = self.type()
                    args.append((t, self.const(t)))
                self.expect(')')
                return ('cexpr', op, ty, args)
            raise ValueError('const %r in %s' % (v, self.s[:200]))
        if k == 'str':
            if v.startswith('c"'):
                return ('str', unescape(v[2:-1]))
            raise ValueError(v)
        if k == 'p' and v in '<[{':
            if v == '<' and self.isp('{'):
                r = self.const(ty)
                self.expect('>')
                return r
            c = {'<': '>', '[': ']', '{': '}'}[v]
            l = []
            while not self.isp(c):
                t = self.type()
                l.append((t, self.const(t)))
                if self.isp(','):
                    self.next()
            self.next()
            return ('agg', l)
        if k == 'meta':
            while not self.end() and not self.isp(')') and not self.isp(','):
                if self.peek()[1] in ('(', '{'):
                    self.parens()
                else:
                    self.next()
            return ('undef',)
        raise ValueError('const %r %r in %s' % (k, v, self.s[:300]))

    def tyop(self):
        t = self.type()
        self.skip_attrs()
        if t.k == 'metadata':
            return t, self.const(t)
        return t, self.const(t)

    def skipw(self, *ws):
        while self.peek()[0] == 'word' and self.peek()[1] in ws:
            self.next()

    def label(self):
        self.expect('label')
        return self.next()[1][1:]

    def instr(self, s):
        # strip trailing metadata
        s0 = s
        i = s.find(', !')
        if i >= 0:
            s = s[:i]
        self.set(s)
        res = None
        if self.peek()[0] == 'loc' and len(self.t) > 1 and self.t[1] == ('p', '='):
            res = self.next()[1][1:]
            self.next()
        while self.peek()[1] in ('tail', 'musttail', 'notail'):
            self.next()
        op = self.next()[1]
        I = Instr(op, res, text=s0)
        f = getattr(self, 'i_' + op, None)
        if f:
            f(I)
            return I
        if op in BIN:
            self.skipw('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc')
            I.ty = self.type()
            a = self.const(I.ty)
            self.expect(',')
            b = self.const(I.ty)
            I.a = (a, b)
            return I
        if op in CAST:
            self.skipw('nneg', 'nuw', 'nsw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc')
            t, a = self.tyop()
            self.expect('to')
            I.ty = self.type()
            I.a = (a,)
            I.x = t
            return I
        raise ValueError('instr ' + s)

    def i_fneg(self, I):
        self.skip_attrs()
        I.ty, a = self.tyop()
        I.a = (a,)

    def i_icmp(self, I):
        self.skipw('samesign')
        I.x = self.next()[1]
        t, a = self.tyop()
        self.expect(',')
        I.a = (a, self.const(t))
        I.ty = t

    def i_fcmp(self, I):
        self.skip_attrs()
        self.i_icmp(I)

    def i_select(self, I):
        self.skip_attrs()
        ct, c = self.tyop()
        self.expect(',')
        t, a = self.tyop()
        self.expect(',')
        t, b = self.tyop()
        I.ty = t
        I.x = ct
        I.a = (c, a, b)

    def i_phi(self, I):
        self.skip_attrs()
        I.ty = self.type()
        l = []
        while True:
            self.expect('[')
            v = self.const(I.ty)
            self.expect(',')
            b = self.next()[1][1:]
            self.expect(']')
            l.append((v, b))
            if self.isp(','):
                self.next()
            else:
                break
        I.a = l

    def i_br(self, I):
        if self.isw('label'):
            I.a = (self.label(),)
            return
        t, c = self.tyop()
        self.expect(',')
        a = self.label()
        self.expect(',')
        b = self.label()
        I.a = (c, a, b)

    def i_switch(self, I):
        t, c = self.tyop()
        self.expect(',')
        d = self.label()
        self.expect('[')
        cases = []
        while not self.isp(']'):
            tt = self.type()
            v = self.const(tt)
            self.expect(',')
            cases.append((v, self.label()))
        I.ty = t
        I.a = (c, d, cases)

    def i_ret(self, I):
        if self.isw('void'):
            I.a = ()
            return
        I.ty, a = self.tyop()
        I.a = (a,)

    def i_unreachable(self, I):
        pass

    def i_load(self, I):
        self.skipw('atomic', 'volatile')
        I.ty = self.type()
        self.expect(',')
        t, p = self.tyop()
        I.a = (p,)
        I.x = self.vecalign(I)

    def vecalign(self, I):
        """alignment a vector access relies on (the only accesses that fault)"""
        if I.ty.k != 'v':
            return None
        m = re.search(r', align (\d+)', I.text or '')
        return int(m.group(1)) if m and int(m.group(1)) >= 16 else None

    def i_store(self, I):
        self.skipw('atomic', 'volatile')
        I.ty, v = self.tyop()
        self.expect(',')
        t, p = self.tyop()
        I.a = (v, p)
        I.x = self.vecalign(I)

    def i_alloca(self, I):
        self.skipw('inalloca')
        I.ty = self.type()
        I.x = None
        if self.isp(','):
            self.next()
            if not self.isw('align'):
                I.x = self.tyop()

    def i_getelementptr(self, I):
        self.skipw('inbounds', 'nuw', 'nusw')
        I.ty = self.type()
        args = []
        while self.isp(','):
            self.next()
            args.append(self.tyop())
        I.a = args

    def i_call(self, I):
        self.skip_attrs()
        # return type, optionally function type
        I.ty = self.type()
        if self.isp('('):
            self.parens()
        self.skip_attrs()
        callee = self.const(PTR)
        self.expect('(')
        args = []
        while not self.isp(')'):
            t = self.type()
            self.skip_attrs()
            args.append((t, self.const(t)))
            if self.isp(','):
                self.next()
        self.next()
        I.a = args
        I.x = callee

    def i_invoke(self, I):
        self.i_call(I)
        while not self.isw('to'):
            self.next()
        self.next()
        a = self.label()
        self.expect('unwind')
        b = self.label()
        I.x = (I.x, a, b)

    def i_landingpad(self, I):
        I.ty = self.type()

    def i_resume(self, I):
        I.ty, a = self.tyop()
        I.a = (a,)

    def i_freeze(self, I):
        I.ty, a = self.tyop()
        I.a = (a,)

    def i_extractvalue(self, I):
        I.ty, a = self.tyop()
        I.a = (a,)
        idx = []
        while self.isp(','):
            self.next()
            idx.append(int(self.next()[1]))
        I.x = idx

    def i_insertvalue(self, I):
        I.ty, a = self.tyop()
        self.expect(',')
        t, b = self.tyop()
        I.a = (a, b)
        idx = []
        while self.isp(','):
            self.next()
            idx.append(int(self.next()[1]))
        I.x = idx

    def i_extractelement(self, I):
        I.ty, a = self.tyop()
        self.expect(',')
        t, i = self.tyop()
        I.a = (a, i)

    def i_insertelement(self, I):
        I.ty, a = self.tyop()
        self.expect(',')
        t, v = self.tyop()
        self.expect(',')
        t2, i = self.tyop()
        I.a = (a, v, i)

    def i_shufflevector(self, I):
        I.ty, a = self.tyop()
        self.expect(',')
        t, b = self.tyop()
        self.expect(',')
        mt, m = self.tyop()
        I.a = (a, b, m)
        I.x = mt

    def i_atomicrmw(self, I):
        self.skipw('volatile')
        I.x = self.next()[1]
        t, p = self.tyop()
        self.expect(',')
        I.ty, v = self.tyop()
        I.a = (p, v)

    def i_cmpxchg(self, I):
        self.skipw('weak', 'volatile')
        t, p = self.tyop()
        self.expect(',')
        I.ty, e = self.tyop()
        self.expect(',')
        t, n = self.tyop()
        I.a = (p, e, n)

    def i_fence(self, I):
        pass


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv',
       'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
        'addrspacecast'}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def d2f_bits(b):
    """double bit pattern (as LLVM prints floats) -> float bit pattern, exactly (NaN payload kept)"""
    import struct
    s = b >> 63
    e = (b >> 52) & 0x7ff
    m = b & ((1 << 52) - 1)
    if e == 0x7ff:
        return (s << 31) | 0x7f800000 | (m >> 29)
    x = struct.unpack('<d', b.to_bytes(8, 'little'))[0]
    return int.from_bytes(struct.pack('<f', x), 'little')
