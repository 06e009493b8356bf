"""
Engine B: contracts on the C++ extension code.

The real .cpp file of /repo is compiled on every run by clang to LLVM IR (-O0, mem2reg); the IR is executed
symbolically: integers are z3 bit-vectors, memory is byte-addressable objects with bounds checks, branches on symbolic
conditions fork through the path explorer of pv.sym.Ctx.  Calls into CPython / NumPy / FFTW are replaced by contracts
(pv.capi).  Obligations are discharged by z3.

Floats: loaded bits are kept as bits (copying is exact), small integers converted to float are kept as integers
(exact), everything else is real arithmetic (machine arithmetic treated as mathematical: stated assumption).
"""
import os
import re
import struct
import subprocess
import z3

from .sym import Unsupported, Ctx
from . import runner

PYINC = '/usr/include/python3.12'


class IRError(Exception):
    pass


class MemFault(Exception):
    """out-of-bounds / use-after-free / null access found by the executor"""


# ---------------------------------------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs', 'els', 'sgl')

    def __init__(self, k, n=0, el=None, els=None, packed=False):
        self.k, self.n, self.el, self.els, self.offs = k, n, el, els, None
        if k == 'i':
            self.size = 1 if n <= 8 else (2 if n <= 16 else (4 if n <= 32 else (8 if n <= 64 else 16)))
            if n % 8 and n != 1:
                self.size = (n + 7) // 8
                p = 1
                while p < self.size:
                    p *= 2
                self.align = p
            else:
                self.align = self.size
        elif k == 'f':
            self.size = self.align = n // 8
        elif k == 'p':
            self.size = self.align = 8
        elif k == 'a' or k == 'v':
            self.size, self.align = el.size * n, el.align
            if k == 'v':
                self.align = self.size
        elif k == 's':
            o, al, offs = 0, 1, []
            for t in els:
                a = 1 if packed else t.align
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += t.size
            self.offs, self.align, self.size = offs, al, (o + al - 1) // al * al
        else:
            self.size = self.align = 0


I1, I8, I16, I32, I64 = (T('i', n) for n in (1, 8, 16, 32, 64))
F32, F64, PTR, VOID = T('f', 32), T('f', 64), T('p'), T('void')

TOK = re.compile(r'\s*(c"[^"]*"|[%@](?:"[^"]*"|[-\w.$]+)|"[^"]*"|![\w.]*|#\d+|0x[0-9A-Fa-fKLMH]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[\w.]+|\.\.\.|<\{|\}>|.)')


def tokenize(s):
    i = s.find(' ; ')
    if i >= 0 and '"' not in s[i:]:
        s = s[:i]
    return [t for t in TOK.findall(s) if t.strip()]


ATTR = {'noundef', 'zeroext', 'signext', 'nonnull', 'nocapture', 'readonly', 'noalias', 'returned', 'immarg', 'dso_local', 'inreg',
        'hidden', 'local_unnamed_addr', 'unnamed_addr', 'private', 'internal', 'external', 'constant', 'global', 'linkonce_odr',
        'comdat', 'common', 'weak', 'weak_odr', 'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'nounwind', 'writeonly', 'readnone',
        'thread_local', 'noreturn', 'nofree', 'nosync', 'available_externally', 'protected', 'default', 'mustprogress', 'noinline',
        'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'inbounds', 'nuw', 'nsw', 'exact', 'volatile', 'nneg',
        'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'}


class Module:
    def __init__(self):
        self.types = {}
        self.tdefs = {}
        self.funcs = {}
        self.globals = {}
        self.decls = set()

    def load(self, path):
        """type names are per file: parse with a scope of its own, functions and globals are shared (linked)"""
        sc = Module()
        sc.funcs, sc.globals, sc.decls = self.funcs, self.globals, self.decls
        sc._load(path)
        return self

    def _load(self, path):
        text = open(path).read()
        lines = text.split('\n')
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                n, d = ln.split(' = type ', 1)
                self.tdefs[n.strip()] = d
        tag = os.path.basename(path) + ':'
        i = 0
        local = set()
        for ln in lines:
            m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln)
            if m and re.search(r'\b(private|internal)\b', m.group(2)):
                local.add('@' + m.group(1))
            m = re.match(r'define (?:internal|private) [^@]*(@"[^"]*"|@[-\w.$]+)\(', ln)
            if m:
                local.add(m.group(1))
        self._local, self._tag = local, tag

        def ren(n):
            return tag + n if n in local else n
        self._ren = ren
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                n, d = ln.split(' = ', 1)
                self._global(ren(n.strip()), d)
            elif ln.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln)
                if m:
                    self.decls.add(m.group(1))
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                f = Func(self, ln, lines[i + 1:j], ren)
                self.funcs[f.name] = f
                i = j
            i += 1
        return self

    # type parser on tokens
    def ptype(self, tk, i):
        t = tk[i]
        i += 1
        if re.fullmatch(r'i\d+', t):
            r = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}.get(int(t[1:])) or T('i', int(t[1:]))
        elif t == 'float':
            r = F32
        elif t == 'double':
            r = F64
        elif t == 'x86_fp80':
            r = T('f', 128)
        elif t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == '[':
            n = int(tk[i]); assert tk[i + 1] == 'x'
            el, i = self.ptype(tk, i + 2)
            assert tk[i] == ']'
            i += 1
            r = T('a', n, el)
        elif t == '<' :
            n = int(tk[i]); assert tk[i + 1] == 'x'
            el, i = self.ptype(tk, i + 2)
            assert tk[i] == '>'
            i += 1
            r = T('v', n, el)
        elif t in ('{', '<{'):
            els = []
            end = '}' if t == '{' else '}>'
            while tk[i] != end:
                if tk[i] == ',':
                    i += 1
                    continue
                e, i = self.ptype(tk, i)
                els.append(e)
            i += 1
            r = T('s', els=els, packed=t == '<{')
        elif t.startswith('%'):
            if t not in self.types:
                d = self.tdefs.get(t, 'opaque')
                if d.strip() == 'opaque':
                    self.types[t] = T('opaque')
                else:
                    self.types[t] = self.ptype(tokenize(d), 0)[0]
            r = self.types[t]
        else:
            raise Unsupported('type %r' % t)
        # function types  T (args...)
        while i < len(tk) and tk[i] == '(' and r is not None and getattr(self, '_fnty', False):
            break
        return r, i

    def _global(self, n, d):
        tk = tokenize(d)
        ext = 'external' in tk
        i = 0
        while tk[i] not in ('global', 'constant', 'alias'):
            i += 1
        if tk[i] == 'alias':
            return
        ty, i = self.ptype(tk, i + 1)
        if n in self.globals and ext:
            return
        self.globals[n] = (ty, None if ext else (tk, i), self._ren, self)

    def pattr(self, tk, i):
        while i < len(tk):
            t = tk[i]
            if t == 'align' and re.fullmatch(r'\d+', tk[i + 1]):
                i += 2
            elif t in ATTR or t.startswith('#'):
                i += 1
                if i < len(tk) and tk[i] == '(' and t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'thread_local', 'comdat'):
                    d = 0
                    while True:
                        d += (tk[i] == '(') - (tk[i] == ')')
                        i += 1
                        if d == 0:
                            break
            else:
                break
        return i

    def pval(self, tk, i, ty, ren):
        """operand -> ('r',reg) | ('c',value) | ('g',name) | ('gep',...)"""
        t = tk[i]
        if t.startswith('%'):
            return ('r', t), i + 1
        if t.startswith('@'):
            return ('g', ren(t)), i + 1
        if t in ('null',):
            return ('c', NULL), i + 1
        if t in ('undef', 'poison'):
            return ('u', ty), i + 1
        if t == 'true':
            return ('c', 1), i + 1
        if t == 'false':
            return ('c', 0), i + 1
        if t == 'zeroinitializer':
            return ('z', ty), i + 1
        if t == 'getelementptr':
            i = self.pattr(tk, i + 1)
            assert tk[i] == '('
            base, i = self.ptype(tk, i + 1)
            ops = []
            while tk[i] == ',':
                ot, i = self.ptype(tk, i + 1)
                i = self.pattr(tk, i)
                v, i = self.pval(tk, i, ot, ren)
                ops.append(v)
            return ('gep', base, ops), i + 1
        if ty.k == 'f':
            if t.startswith('0x'):
                return ('c', struct.unpack('>d', int(t[2:], 16).to_bytes(8, 'big'))[0]), i + 1
            return ('c', float(t)), i + 1
        if ty.k == 'i':
            return ('c', int(t) & ((1 << ty.n) - 1)), i + 1
        if t in ('<', '{', '[', '<{'):
            end = {'<': '>', '{': '}', '[': ']', '<{': '}>'}[t]
            i += 1
            out = []
            while tk[i] != end:
                if tk[i] == ',':
                    i += 1
                    continue
                et, i = self.ptype(tk, i)
                v, i = self.pval(tk, i, et, ren)
                out.append((et, v))
            return ('agg', out), i + 1
        if t.startswith('c"'):
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t[2:-1])
            return ('str', s.encode('latin1')), i + 1
        raise Unsupported('operand %r in %s' % (t, ' '.join(tk)[:120]))


class Func:
    def __init__(self, mod, head, body, ren):
        tk = tokenize(head)
        self.mod = mod
        i = next(k for k, t in enumerate(tk) if t.startswith('@'))
        self.name = ren(tk[i])
        self.raw = tk[i]
        self.params = []
        d = 0
        i += 1
        depth = 0
        cur = []
        args = []
        while True:
            t = tk[i]
            if t == '(' :
                depth += 1
                if depth > 1: cur.append(t)
            elif t == ')':
                depth -= 1
                if depth == 0:
                    break
                cur.append(t)
            elif t == ',' and depth == 1:
                args.append(cur); cur = []
            else:
                cur.append(t)
            i += 1
        if cur:
            args.append(cur)
        for a in args:
            if a == ['...']:
                continue
            ty, j = mod.ptype(a, 0)
            self.params.append((a[-1], ty))
        self.body = body
        self.ren = ren
        self.blocks = None

    def parse(self):
        if self.blocks is not None:
            return
        self.blocks = {}
        cur = None
        name = None
        body = list(self.body)
        # join switch tables
        out = []
        for ln in body:
            if out and out[-1].lstrip().startswith('switch') and not out[-1].rstrip().endswith(']'):
                out[-1] += ' ' + ln.strip()
            else:
                out.append(ln)
        for ln in out:
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                name = '%' + ln.split(':', 1)[0].strip()
                cur = self.blocks[name] = []
                continue
            if cur is None:
                name = '%0'
                cur = self.blocks['entry?'] = []
            ins = self._ins(ln)
            if ins is not None:
                cur.append(ins)
        self.entry = next(iter(self.blocks))

    def _tv(self, tk, i):
        ty, i = self.mod.ptype(tk, i)
        i = self.mod.pattr(tk, i)
        v, i = self.mod.pval(tk, i, ty, self.ren)
        return ty, v, i

    def _ins(self, ln):
        tk = tokenize(ln)
        # strip metadata
        for k, t in enumerate(tk):
            if t.startswith('!') and k > 0:
                tk = tk[:k - 1] if tk[k - 1] == ',' else tk[:k]
                break
        dst = None
        i = 0
        m = self.mod
        if len(tk) > 1 and tk[1] == '=':
            dst, i = tk[0], 2
        op = tk[i]
        if op in ('tail', 'musttail', 'notail'):
            i += 1
            op = tk[i]
        i += 1
        P = self.mod.pval
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            i = m.pattr(tk, i)
            ty, a, i = self._tv(tk, i)
            b, i = P(tk, i + 1, ty, self.ren)
            return (op, dst, ty, a, b)
        if op == 'fneg':
            i = m.pattr(tk, i)
            ty, a, i = self._tv(tk, i)
            return (op, dst, ty, a)
        if op in ('icmp', 'fcmp'):
            i = m.pattr(tk, i)
            pred = tk[i]
            ty, a, i = self._tv(tk, i + 1)
            b, i = P(tk, i + 1, ty, self.ren)
            return (op, dst, pred, ty, a, b)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            i = m.pattr(tk, i)
            ty, a, i = self._tv(tk, i)
            if op == 'freeze':
                return ('bitcast', dst, ty, a, ty)
            assert tk[i] == 'to'
            t2, i = m.ptype(tk, i + 1)
            return (op, dst, ty, a, t2)
        if op == 'alloca':
            i = m.pattr(tk, i)
            ty, i = m.ptype(tk, i)
            n = None
            if i < len(tk) and tk[i] == ',' and tk[i + 1] != 'align':
                nt, nv, i = self._tv(tk, i + 1)
                n = nv
            return (op, dst, ty, n)
        if op == 'load':
            i = m.pattr(tk, i)
            ty, i = m.ptype(tk, i)
            pt, p, i = self._tv(tk, i + 1)
            return (op, dst, ty, p)
        if op == 'store':
            i = m.pattr(tk, i)
            ty, v, i = self._tv(tk, i)
            pt, p, i = self._tv(tk, i + 1)
            return (op, None, ty, v, p)
        if op == 'getelementptr':
            i = m.pattr(tk, i)
            base, i = m.ptype(tk, i)
            ops = []
            while i < len(tk) and tk[i] == ',':
                ot, v, i = self._tv(tk, i + 1)
                ops.append((ot, v))
            return ('gep', dst, base, ops)
        if op == 'br':
            if tk[i] == 'label':
                return ('jmp', None, tk[i + 1])
            ty, c, i = self._tv(tk, i)
            return ('br', None, c, tk[i + 2], tk[i + 5])
        if op == 'switch':
            ty, v, i = self._tv(tk, i)
            dflt = tk[i + 2]
            i += 4
            cases = []
            while tk[i] != ']':
                ct, cv, i = self._tv(tk, i)
                cases.append((cv[1], tk[i + 2]))
                i += 3
            return ('switch', None, ty, v, dflt, cases)
        if op == 'phi':
            i = m.pattr(tk, i)
            ty, i = m.ptype(tk, i)
            inc = {}
            while i < len(tk) and tk[i] in ('[', ','):
                if tk[i] == ',':
                    i += 1
                v, i = P(tk, i + 1, ty, self.ren)
                inc[tk[i + 1]] = v
                i += 3
            return ('phi', dst, ty, inc)
        if op == 'ret':
            if tk[i] == 'void':
                return ('ret', None, VOID, None)
            ty, v, i = self._tv(tk, i)
            return ('ret', None, ty, v)
        if op == 'select':
            i = m.pattr(tk, i)
            ct, c, i = self._tv(tk, i)
            ty, a, i = self._tv(tk, i + 1)
            ty, b, i = self._tv(tk, i + 1)
            return ('select', dst, ty, c, a, b)
        if op in ('call', 'invoke'):
            i = m.pattr(tk, i)
            rt, i = m.ptype(tk, i)
            if tk[i] == '(':                      # function type of a varargs call
                d = 0
                while True:
                    d += (tk[i] == '(') - (tk[i] == ')')
                    i += 1
                    if d == 0:
                        break
            callee, i = P(tk, i, PTR, self.ren)
            assert tk[i] == '('
            args = []
            i += 1
            while tk[i] != ')':
                if tk[i] == ',':
                    i += 1
                    continue
                if tk[i] == 'metadata':
                    return None
                ty, v, i = self._tv(tk, i)
                args.append((ty, v))
            nxt = None
            if op == 'invoke':
                nxt = tk[tk.index('to', i) + 2] if 'to' in tk[i:] else None
            return ('call', dst, rt, callee, args, nxt)
        if op == 'extractvalue' or op == 'extractelement':
            ty, v, i = self._tv(tk, i)
            if op == 'extractelement':
                it, iv, i = self._tv(tk, i + 1)
                return ('extract', dst, ty, v, iv)
            idx = [int(x) for x in tk[i:] if x != ',']
            return ('extract', dst, ty, v, ('c', idx[0]))
        if op in ('insertvalue', 'insertelement'):
            ty, v, i = self._tv(tk, i)
            t2, e, i = self._tv(tk, i + 1)
            if op == 'insertelement':
                it, iv, i = self._tv(tk, i + 1)
            else:
                iv = ('c', int(tk[i + 1]))
            return ('insert', dst, ty, v, e, iv)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'fence':
            return None
        return ('bad', None, ln)


# ---------------------------------------------------------------------------------------------- values
class MemObj:
    __slots__ = ('name', 'size', 'cells', 'own', 'default', 'freed', 'kind', 'attrs', 'ver', 'tabs', 'const')

    def __init__(self, name, size, default=None, kind='mem'):
        self.name, self.size, self.default, self.kind = name, size, default, kind
        self.cells = {}     # off -> (size, value)
        self.own = {}       # byte off -> cell start
        self.freed = False
        self.attrs = {}
        self.ver = 0
        self.tabs = {}
        self.const = False

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return '&%s+%s' % (self.o, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Fl:
    """symbolic float: bits (neg flag) | int (signed bit-vector or Int) | real"""
    __slots__ = ('bits', 'neg', 'iv', 're', 'w')

    def __init__(self, bits=None, neg=False, iv=None, re=None, w=32):
        self.bits, self.neg, self.iv, self.re, self.w = bits, neg, iv, re, w

    def real(self):
        if self.re is None:
            if self.bits is not None:
                f = z3.Function('f%d' % self.w, z3.BitVecSort(self.w), z3.RealSort())
                r = f(self.bits)
                self.re = -r if self.neg else r
            else:
                self.re = z3.ToReal(z3.BV2Int(self.iv, True))
        return self.re

    def __repr__(self):
        return 'Fl(%s)' % (self.bits if self.bits is not None else self.iv if self.iv is not None else self.re)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def toreal(v):
    if isinstance(v, Fl):
        return v.real()
    if isinstance(v, (int, float)):
        from fractions import Fraction
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    raise Unsupported('float %r' % (v,))


def f32r(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def isz(v):
    return isinstance(v, z3.AstRef)


def bv(v, n):
    if isz(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return v
    return z3.BitVecVal(v, n)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def fold(e):
    """concrete value if the simplifier finds one"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def vars_of(e):
    seen, out, todo = set(), {}, [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


_tabcache = {}
_tabdefs = []


def tabfun(vals, nb, w):
    key = (vals, nb, w)
    if key not in _tabcache:
        from fractions import Fraction
        srt = z3.RealSort() if w is None else z3.BitVecSort(w)
        f = z3.Function('tab!%d' % len(_tabdefs), z3.BitVecSort(nb), srt)
        x = z3.Var(0, z3.BitVecSort(nb))

        def c(v):
            if w is None:
                q = Fraction(v)
                return z3.Q(q.numerator, q.denominator)
            return z3.BitVecVal(v, w)
        # balanced decision tree on the index bits
        def tree(lo, n, bit):
            if n == 1:
                return c(vals[lo])
            h = n // 2
            l, r = tree(lo, h, bit - 1), tree(lo + h, h, bit - 1)
            if l.eq(r):
                return l
            return z3.If(z3.Extract(bit, bit, x) == 1, r, l)
        _tabdefs.append((f, tree(0, 1 << nb, nb - 1)))
        _tabcache[key] = f
    return _tabcache[key]


def expand(e):
    return z3.substitute_funs(e, *_tabdefs) if _tabdefs else e
_canon = {}
_proved = {}
_keep = []


def canon_var(sort, k):
    key = (str(sort), k)
    if key not in _canon:
        _canon[key] = z3.Const('canon!%s!%d' % (sort, k), sort)
    return _canon[key]


def canonical(e):
    vs = sorted(vars_of(e), key=lambda x: _order(e, x))
    sub, cnt = [], {}
    for v in vs:
        s = v.sort()
        k = cnt.get(str(s), 0)
        cnt[str(s)] = k + 1
        sub.append((v, canon_var(s, k)))
    return z3.substitute(e, *sub) if sub else e, vs, [b for _, b in sub]


def _order(e, x):
    return x.decl().name()


class Exec:
    """one symbolic execution (one path)"""

    def __init__(self, mod, cx, capi):
        self.mod, self.cx, self.capi = mod, cx, capi
        self.gl = {}
        self.steps = 0
        self.max_steps = 30_000_000
        self.nobj = 0
        self.bounds_checked = 0
        self.depth = 0
        capi.ex = self

    # -- memory
    def alloc(self, name, size, default=None, kind='mem'):
        self.nobj += 1
        return MemObj('%s#%d' % (name, self.nobj), size, default, kind)

    def glob(self, n):
        if n in self.gl:
            return self.gl[n]
        base = n.split(':', 1)[-1]
        if n in self.mod.funcs or (n not in self.mod.globals):
            p = FnPtr(n)
            self.gl[n] = p
            return p
        ty, init, ren, sc = self.mod.globals[n]
        ext = self.capi.external_global(n, ty) if init is None else None
        if ext is not None:
            self.gl[n] = ext
            return ext
        o = self.alloc(n, ty.size if ty.k != 'opaque' else 8, default=0 if init is not None else None)
        p = Ptr(o, 0)
        self.gl[n] = p
        if init is not None:
            tk, i = init
            i = sc.pattr(tk, i)
            v, i = sc.pval(tk, i, ty, ren)
            self.init(o, 0, ty, v)
            o.ver = 0
        return p

    def init(self, o, off, ty, v):
        if v[0] == 'z' or v[0] == 'u':
            if ty.k == 'p':
                self.mstore(Ptr(o, off), ty, NULL)
            elif ty.k == 's':
                for t, fo in zip(ty.els, ty.offs):
                    self.init(o, off + fo, t, ('z', t))
            elif ty.k == 'a' and ty.el.k in ('p', 's') and ty.n <= 4096:
                for k in range(ty.n):
                    self.init(o, off + k * ty.el.size, ty.el, ('z', ty.el))
            return
        if v[0] == 'str':
            for k, b in enumerate(v[1]):
                o.cells[off + k] = (1, b)
                o.own[off + k] = off + k
            return
        if v[0] == 'agg':
            if ty.k == 's':
                for (et, ev), fo in zip(v[1], ty.offs):
                    self.init(o, off + fo, et, ev)
            else:
                for k, (et, ev) in enumerate(v[1]):
                    self.init(o, off + k * ty.el.size, et, ev)
            return
        self.mstore(Ptr(o, off), ty, self.val(v, {}))

    def chk(self, p, n, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.o is None:
            raise MemFault('%s through a null pointer' % what)
        if p.o.freed:
            raise MemFault('%s of freed %s' % (what, p.o.name))
        off = p.off
        if isinstance(off, int):
            if off >= 1 << 63:
                off -= 1 << 64
            if off < 0 or off + n > p.o.size:
                raise MemFault('%s of %d bytes at offset %d of %s (%s bytes)' % (what, n, off, p.o.name, p.o.size))
            return off
        return off

    def mload(self, p, ty):
        if isinstance(p, FnPtr):
            raise Unsupported('load through function pointer')
        if ty.k in ('a', 's', 'v'):
            offs = ty.offs if ty.k == 's' else [k * ty.el.size for k in range(ty.n)]
            els = ty.els if ty.k == 's' else [ty.el] * ty.n
            return [self.mload(Ptr(p.o, p.off + o), t) for o, t in zip(offs, els)]
        n = ty.size
        off = self.chk(p, n, 'read')
        if not isinstance(off, int):
            return self.symload(p.o, off, ty)
        c = p.o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], ty)
        h = self.capi.lazy_load(self, p.o, off, ty) if p.o.kind != 'mem' else None
        if h is not None:
            return h
        bs = [self.byte(p.o, off + k) for k in range(n)]
        if ty.k == 'p':
            if all(isinstance(b, int) and b == 0 for b in bs):
                return NULL
            raise Unsupported('pointer from bytes at %s+%d' % (p.o.name, off))
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
            if ty.k == 'f':
                return struct.unpack('<f' if n == 4 else '<d', v.to_bytes(n, 'little'))[0]
            return v & ((1 << ty.n) - 1)
        e = bv(bs[0], 8) if n == 1 else z3.Concat(*[bv(b, 8) for b in reversed(bs)])
        if n > 1:
            e = z3.simplify(e)
        if ty.k == 'f':
            return Fl(bits=e, w=ty.n)
        if ty.n < 8 * n:
            e = z3.Extract(ty.n - 1, 0, e)
            if ty.n == 1:
                e = e == 1
        return fold(e) if n > 1 else e

    def coerce(self, v, ty):
        if ty.k == 'f':
            if isinstance(v, (float, Fl)) or v is UNDEF:
                return v
            if isinstance(v, int):
                return struct.unpack('<f' if ty.size == 4 else '<d', v.to_bytes(ty.size, 'little'))[0]
            if isz(v):
                return Fl(bits=v, w=ty.n)
        elif ty.k == 'i':
            if isinstance(v, float):
                return int.from_bytes(struct.pack('<f' if ty.size == 4 else '<d', v), 'little')
            if isinstance(v, Fl):
                if v.bits is not None:
                    return v.bits ^ z3.BitVecVal(1 << (v.w - 1), v.w) if v.neg else v.bits
                raise Unsupported('bits of a computed float')
            if isinstance(v, (Ptr, FnPtr)):
                if v is NULL:
                    return 0
                raise Unsupported('integer view of a pointer')
            if isz(v) and z3.is_bv(v) and v.size() != ty.n:
                v = z3.Extract(ty.n - 1, 0, v)
        elif ty.k == 'p' and isinstance(v, int):
            if v == 0:
                return NULL
            raise Unsupported('pointer from integer')
        return v

    def byte(self, o, off):
        s = o.own.get(off)
        if s is None:
            d = o.default
            if d is None:
                return UNDEF
            return d(off) if callable(d) else d
        n, v = o.cells[s]
        if n == 1:
            return v if not z3.is_bool(v) else bv(v, 8)
        k = off - s
        if isinstance(v, int):
            return (v >> (8 * k)) & 255
        if isinstance(v, float):
            return struct.pack('<f' if n == 4 else '<d', v)[k]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Fl):
            v = self.coerce(v, T('i', 8 * n))
        if isz(v):
            if z3.is_bool(v):
                return bv(v, 8) if k == 0 else 0
            return fold(z3.Extract(8 * k + 7, 8 * k, v))
        raise Unsupported('byte of %r' % (v,))

    def mstore(self, p, ty, v):
        if ty.k in ('a', 's', 'v'):
            offs = ty.offs if ty.k == 's' else [k * ty.el.size for k in range(ty.n)]
            els = ty.els if ty.k == 's' else [ty.el] * ty.n
            if v is UNDEF:
                return
            for o, t, x in zip(offs, els, v):
                self.mstore(Ptr(p.o, p.off + o), t, x)
            return
        n = ty.size
        off = self.chk(p, n, 'write')
        if not isinstance(off, int):
            raise Unsupported('store at a symbolic address')
        if p.o.kind == 'py':
            if off == 0 and isinstance(v, int):
                p.o.attrs['ref'] = v
                return
            raise Unsupported('direct write to a Python object')
        if p.o.const:
            raise MemFault('write to constant %s' % p.o.name)
        self.put(p.o, off, n, v)

    def put(self, o, off, n, v):
        own, cells = o.own, o.cells
        c = cells.get(off)
        o.ver += 1
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        hit = {own[off + k] for k in range(n) if off + k in own}
        for s in hit:
            m, _ = cells[s]
            if m > 1 and not (off <= s and s + m <= off + n):
                bs = [(s + k, self.byte(o, s + k)) for k in range(m)]
                del cells[s]
                for a, b in bs:
                    cells[a] = (1, b)
                    own[a] = a
        for k in range(n):
            s = own.get(off + k)
            if s is not None and s in cells and off <= s < off + n:
                del cells[s]
        cells[off] = (n, v)
        for k in range(n):
            own[off + k] = off

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            # symbolic length: within both objects on every path; only into memory nothing was stored in yet (bytes past the
            # length are then arbitrary either way: the source must make them arbitrary, as pv/frames.SymFile does)
            nb = bv(n, 64)
            cx = self.cx
            if not isinstance(s.off, int) or not isinstance(d.off, int) or d.o.kind != 'mem' or s.o.kind != 'mem' or not s.o.name.startswith('bytes'):
                raise Unsupported('memcpy of symbolic length')
            rs, rd = s.o.size - s.off, d.o.size - d.off
            m = min(rs, rd)
            if cx._check(z3.UGT(nb, m)) != z3.unsat:
                raise MemFault('copy of more bytes than the source or destination holds')
            if any(k in d.o.own for k in range(d.off, d.off + m)):
                raise Unsupported('memcpy of symbolic length over stored data')
            n = m
        if n == 0:
            return
        do = self.chk(d, n, 'write')
        so = self.chk(s, n, 'read')
        if not isinstance(do, int):
            raise Unsupported('memcpy to a symbolic address')
        if not isinstance(so, int):
            # copy out of a table at a symbolic index: element-wise
            es = 4 if n % 4 == 0 and s.o.cells and all(c[0] == 4 and isinstance(c[1], float) for c in s.o.cells.values()) else 1
            for k in range(0, n, es):
                self.put(d.o, do + k, es, self.symload(s.o, so + k, F32 if es == 4 else I8))
            return
        k = 0
        items = []
        src = s.o
        while k < n:
            a = so + k
            st = src.own.get(a)
            if st == a and src.cells[a][0] <= n - k:
                m, v = src.cells[a]
                items.append((k, m, v))
                k += m
            else:
                h = None
                if src.kind != 'mem':
                    h = self.capi.lazy_load(self, src, a, None)
                if h is not None:
                    m, v = h
                    items.append((k, m, v))
                    k += m
                    continue
                items.append((k, 1, self.byte(src, a)))
                k += 1
        for k, m, v in items:
            self.put(d.o, do + k, m, v)

    def symload(self, o, off, ty):
        """read at an address that depends on input bits: tabulated over the (at most 16) bits it depends on"""
        off = z3.simplify(off)
        ce, vs, cvs = canonical(off)
        if len(vs) != 1 or vs[0].sort().size() > 8:
            raise Unsupported('read of %s at address %s' % (o.name, str(off)[:80]))
        key = (id(o), o.ver, ce.get_id(), ty.k, ty.n)
        tab = o.tabs.get(key)
        if tab is None:
            nb = vs[0].sort().size()
            vals = []
            for x in range(1 << nb):
                k = fold(z3.substitute(ce, (cvs[0], z3.BitVecVal(x, nb))))
                vals.append(self.mload(Ptr(o, k), ty))
            tab = self.table(vals, nb, ty)
            o.tabs[key] = tab
            _keep.append((ce, o))
        return tab(vs[0])

    def table(self, vals, nb, ty):
        """a named function of the index; its definition (the table) is expanded when an obligation goes to the solver"""
        if ty.k == 'f':
            if not all(isinstance(v, float) for v in vals):
                raise Unsupported('symbolic table')
            f = tabfun(tuple(vals), nb, None)
            return lambda var: Fl(re=f(var))
        if not all(isinstance(v, int) for v in vals):
            raise Unsupported('symbolic table')
        if vals == list(range(1 << nb)) and ty.n == nb:
            return lambda var: var
        f = tabfun(tuple(vals), nb, ty.n)
        return lambda var: f(var)

    def cstr(self, p):
        out = bytearray()
        off = p.off
        while True:
            b = self.byte(p.o, off)
            if not isinstance(b, int):
                raise Unsupported('symbolic string')
            if b == 0:
                return out.decode('latin1')
            out.append(b)
            off += 1

    # -- evaluation
    def val(self, v, regs):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.glob(v[1])
        if k == 'u':
            return UNDEF
        if k == 'z':
            ty = v[1]
            if ty.k in ('a', 'v'):
                return [self.val(('z', ty.el), regs)] * ty.n
            if ty.k == 's':
                return [self.val(('z', t), regs) for t in ty.els]
            return NULL if ty.k == 'p' else (0.0 if ty.k == 'f' else 0)
        if k == 'gep':
            return self.gep(v[1], [(I64, o) for o in v[2]], regs)
        if k == 'agg':
            return [self.val(x, regs) for _, x in v[1]]
        raise Unsupported('value %r' % (v,))

    def gep(self, base, ops, regs):
        p = self.val(ops[0][1], regs)
        if not isinstance(p, Ptr):
            raise Unsupported('address arithmetic on %r' % (p,))
        off = p.off
        ty = base
        for n, (ot, ov) in enumerate(ops[1:]):
            i = self.val(ov, regs)
            if i is UNDEF:
                raise Unsupported('undefined index %r %r' % (ov, p))
            if n == 0:
                sc, nt = ty.size, ty
            elif ty.k in ('a', 'v'):
                sc, nt = ty.el.size, ty.el
            else:
                off = off + ty.offs[i]
                ty = ty.els[i]
                continue
            if isinstance(i, int):
                w = ot.n if ot.k == 'i' else 64
                off = off + (sgn(i, w) if i < 1 << w else i) * sc
            else:
                if i.size() < 64:
                    i = z3.SignExt(64 - i.size(), i)
                off = (z3.BitVecVal(off, 64) if isinstance(off, int) else off) + i * sc
            ty = nt
        if isinstance(off, int):
            off &= (1 << 64) - 1
            if off >= 1 << 63:
                off -= 1 << 64
        return Ptr(p.o, off)

    def call(self, name, args):
        f = self.mod.funcs.get(name)
        base = name.split(':', 1)[-1]
        h = self.capi.find(base)
        if h is not None:
            return h(args)
        if f is None:
            raise Unsupported('call of %s' % base)
        return self.run(f, args)

    def run(self, f, args):
        f.parse()
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('recursion')
        regs = {}
        for (n, _), a in zip(f.params, args):
            regs[n] = a
        frame = []
        prev, cur = None, f.entry
        try:
            while True:
                blk = f.blocks[cur]
                nb = None
                # phis read in parallel
                k = 0
                if blk and blk[0][0] == 'phi':
                    vals = []
                    while blk[k][0] == 'phi':
                        vals.append((blk[k][1], self.val(blk[k][3][prev], regs)))
                        k += 1
                    for d, x in vals:
                        regs[d] = x
                n = len(blk)
                self.steps += n
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                while k < n:
                    ins = blk[k]
                    k += 1
                    op = ins[0]
                    if op == 'load':
                        regs[ins[1]] = self.mload(self.val(ins[3], regs), ins[2])
                    elif op == 'store':
                        self.mstore(self.val(ins[4], regs), ins[2], self.val(ins[3], regs))
                    elif op == 'gep':
                        regs[ins[1]] = self.gep(ins[2], ins[3], regs)
                    elif op == 'call':
                        cal = self.val(ins[3], regs)
                        a = [self.val(v, regs) for _, v in ins[4]]
                        if not isinstance(cal, FnPtr):
                            raise Unsupported('indirect call %r' % (cal,))
                        self.argtypes = [t for t, _ in ins[4]]
                        r = self.call(cal.name, a)
                        if ins[1] is not None:
                            regs[ins[1]] = r
                        if ins[5]:
                            nb = ins[5]
                            break
                    elif op == 'jmp':
                        nb = ins[2]
                        break
                    elif op == 'br':
                        c = self.val(ins[2], regs)
                        nb = ins[3] if self.truth(c) else ins[4]
                        break
                    elif op == 'ret':
                        return None if ins[3] is None else self.val(ins[3], regs)
                    elif op == 'alloca':
                        m = 1
                        if ins[3] is not None:
                            m = self.val(ins[3], regs)
                            if not isinstance(m, int):
                                raise Unsupported('alloca of symbolic size')
                        o = self.alloc('local ' + ins[1], ins[2].size * m)
                        frame.append(o)
                        regs[ins[1]] = Ptr(o, 0)
                    elif op == 'switch':
                        v = self.val(ins[3], regs)
                        nb = None
                        for c, t in ins[5]:
                            if self.truth(self.icmp('eq', ins[2], v, c)):
                                nb = t
                                break
                        if nb is None:
                            nb = ins[4]
                        break
                    elif op == 'unreachable':
                        raise MemFault('unreachable code reached in %s' % f.raw)
                    else:
                        regs[ins[1]] = self.simple(ins, regs)
                prev, cur = cur, nb
        finally:
            self.depth -= 1
            for o in frame:
                o.freed = True

    def truth(self, c):
        if isinstance(c, int):
            return bool(c)
        if c is UNDEF:
            raise MemFault('branch on an uninitialised value')
        if z3.is_bv(c):
            c = c == 1
        return self.cx.decide(expand(c))

    def icmp(self, pred, ty, a, b):
        if ty.k == 'p' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            else:
                if a.o is b.o and isinstance(a.off, int) and isinstance(b.off, int):
                    x, y = a.off, b.off
                    return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
                if a.o is not b.o:
                    same = False
                else:
                    raise Unsupported('pointer comparison')
            if pred in ('eq', 'ne'):
                return int(same == (pred == 'eq'))
            raise Unsupported('pointer order')
        n = ty.n
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            p = pred.lstrip('su') if pred not in ('eq', 'ne') else pred
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if n == 1:
            x, y = self.b1(a), self.b1(b)
            return fold(x == y if pred == 'eq' else z3.Xor(x, y))
        a, b = bv(a, n), bv(b, n)
        e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
             'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b)}[pred]()
        return fold(e)

    def b1(self, a):
        if isinstance(a, int):
            return z3.BoolVal(bool(a))
        return a if z3.is_bool(a) else a == 1

    def simple(self, ins, regs):
        op, dst, ty = ins[0], ins[1], ins[2]
        if op == 'icmp':
            return self.icmp(ins[2], ins[3], self.val(ins[4], regs), self.val(ins[5], regs))
        if op == 'fcmp':
            a, b = self.val(ins[4], regs), self.val(ins[5], regs)
            return self.fcmp(ins[2], a, b)
        if op in BIN:
            a, b = self.val(ins[3], regs), self.val(ins[4], regs)
            if ty.k == 'v':
                return [self.ibin(op, ty.el.n, x, y) if ty.el.k == 'i' else self.fbin(op, ty.el, x, y) for x, y in zip(a, b)]
            return self.ibin(op, ty.n, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(ins[3], regs), self.val(ins[4], regs)
            if ty.k == 'v':
                return [self.fbin(op, ty.el, x, y) for x, y in zip(a, b)]
            return self.fbin(op, ty, a, b)
        if op == 'fneg':
            a = self.val(ins[3], regs)
            return [self.fneg(x) for x in a] if ty.k == 'v' else self.fneg(a)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            return self.cast(op, ty, self.val(ins[3], regs), ins[4])
        if op == 'select':
            c = self.val(ins[3], regs)
            a, b = self.val(ins[4], regs), self.val(ins[5], regs)
            if isinstance(c, int):
                return a if c else b
            if ty.k == 'i' and ty.n > 1:
                return z3.If(self.b1(c), bv(a, ty.n), bv(b, ty.n))
            return a if self.truth(c) else b
        if op == 'extract':
            v = self.val(ins[3], regs)
            i = self.val(ins[4], regs)
            return v[i]
        if op == 'insert':
            v = self.val(ins[3], regs)
            n = ty.n if ty.k in ('a', 'v') else len(ty.els)
            v = list(v) if v is not UNDEF else [UNDEF] * n
            v[self.val(ins[5], regs)] = self.val(ins[4], regs)
            return v
        raise Unsupported('instruction %r' % (ins,))

    def fneg(self, a):
        if isinstance(a, float):
            return -a
        if a is UNDEF:
            return a
        if a.bits is not None:
            return Fl(bits=a.bits, neg=not a.neg, w=a.w)
        return Fl(re=-a.real(), w=a.w)

    def ibin(self, op, n, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return (a.off - b.off) & ((1 << 64) - 1)
            raise Unsupported('pointer arithmetic')
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < n else 0
            if op == 'lshr': return a >> b if b < n else 0
            if op == 'ashr': return (sgn(a, n) >> min(b, n - 1)) & M
            if b == 0:
                raise MemFault('division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if op == 'sdiv': return q & M
            return (x - q * y) & M
        if n == 1:
            x, y = self.b1(a), self.b1(b)
            return fold({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
        a, b = bv(a, n), bv(b, n)
        e = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        return fold(e)

    def fbin(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd': r = a + b
            elif op == 'fsub': r = a - b
            elif op == 'fmul': r = a * b
            elif op == 'fdiv':
                if b == 0:
                    r = float('nan') if a == 0 or a != a else float('inf') * (1 if (a > 0) == (str(b)[0] != '-') else -1)
                else:
                    r = a / b
            else:
                import math
                r = math.fmod(a, b)
            return f32r(r) if ty.n == 32 else r
        if op in ('fadd', 'fsub') and isinstance(b, float) and b == 0.0:
            return a
        if op == 'fadd' and isinstance(a, float) and a == 0.0:
            return b
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and x == 0.0:
                    return 0.0
                if isinstance(x, float) and x == 1.0:
                    return y
        x, y = toreal(a), toreal(b)
        if op == 'fdiv':
            self.capi.div_guard(y)
        e = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}.get(op)
        if e is None:
            raise Unsupported(op)
        return Fl(re=e(), w=ty.n)

    def fcmp(self, pred, a, b):
        if isinstance(a, float) and isinstance(b, float):
            nan = a != a or b != b
            if pred == 'uno':
                return int(nan)
            if pred == 'ord':
                return int(not nan)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            return int(r if not nan else pred[0] == 'u')
        if pred == 'uno':
            return 0
        if pred == 'ord':
            return 1
        x, y = toreal(a), toreal(b)
        return fold({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pred[1:]]())

    def cast(self, op, ty, v, t2):
        if v is UNDEF:
            return UNDEF
        n, m = ty.n, t2.n
        if op == 'zext':
            if isinstance(v, int):
                return v
            if n == 1:
                return bv(self.b1(v), m)
            return z3.ZeroExt(m - n, v)
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, n) & ((1 << m) - 1)
            if n == 1:
                return z3.If(self.b1(v), z3.BitVecVal(-1, m), z3.BitVecVal(0, m))
            return z3.SignExt(m - n, v)
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << m) - 1)
            e = z3.Extract(m - 1, 0, v)
            return fold(e == 1) if m == 1 else fold(e)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                x = float(sgn(v, n) if op == 'sitofp' else v)
                return f32r(x) if m == 32 else x
            if op == 'uitofp' or n == 1:
                v = z3.ZeroExt(1, bv(v, n))
            return Fl(iv=v, w=m)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, float):
                return int(v) & ((1 << m) - 1)
            if v.iv is not None:
                k = v.iv.size()
                return v.iv if k == m else (z3.SignExt(m - k, v.iv) if k < m else z3.Extract(m - 1, 0, v.iv))
            return self.capi.fptosi(v, m)
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, float):
                return f32r(v) if m == 32 else v
            if v.bits is not None:
                return Fl(re=v.real(), w=m)
            return Fl(iv=v.iv, re=v.re, w=m)
        if op == 'bitcast':
            if ty.k == 'f' or t2.k == 'f':
                return self.coerce(v, t2)
            return v
        if op == 'ptrtoint':
            if v is NULL:
                return 0
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        raise Unsupported(op)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


# ---------------------------------------------------------------------------------------------- obligations
def by_cases(g):
    """decide a goal over one input byte by evaluating it at every value; None when it is not of that kind"""
    seen, todo, fv = set(), [g], {}
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if not z3.is_app(e):
            return None
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not z3.is_bv(e):
                return None
            fv[e.get_id()] = e
        elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        todo.extend(e.children())
    if len(fv) != 1:
        return None
    x, = fv.values()
    if x.size() > 8:
        return None
    for k in range(1 << x.size()):
        v = z3.simplify(z3.substitute(g, (x, z3.BitVecVal(k, x.size()))))
        if not z3.is_true(v):
            return False if z3.is_false(v) else None
    return True


def prove_free(cx, name, goal):
    """discharge a goal; goals equal up to renaming of input bytes are decided once (validity is invariant under renaming)"""
    if goal is True or (isinstance(goal, int) and goal):
        cx.obligations.append({'name': name, 'status': 'discharged', 'how': 'evaluated'})
        return True
    if goal is False or isinstance(goal, int):
        return cx.prove(name, z3.BoolVal(False))
    g, _, _ = canonical(goal)
    st = _proved.get(g.get_id())
    if st is None:
        st = by_cases(expand(g))
        if st:
            _proved[g.get_id()] = st
            _keep.append(g)
    if st is None:
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(z3.Not(expand(g)))
        cx.queries += 1
        import time
        t = time.time()
        st = s.check() == z3.unsat
        cx.solver_time += time.time() - t
        _proved[g.get_id()] = st
        _keep.append(g)
    if st:
        cx.obligations.append({'name': name, 'status': 'discharged', 'how': 'z3'})
        return True
    return cx.prove(name, expand(goal))


# ---------------------------------------------------------------------------------------------- compile
def compile_ir(files, extra=()):
    """clang -> LLVM IR -> mem2reg for each source file (absolute paths); returns Module or raises Unsupported"""
    import numpy
    d = runner.scratch()
    m = Module()
    for f in files:
        b = os.path.basename(f).replace('.cpp', '')
        ll, ml = os.path.join(d, b + '.ll'), os.path.join(d, b + '.m.ll')
        r = subprocess.run(['clang++', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-exceptions',
                            '-S', '-emit-llvm', '-std=c++11', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-DNDEBUG',
                            '-I' + PYINC, '-I' + numpy.get_include(), '-I' + os.path.dirname(f)] + list(extra) + [f, '-o', ll],
                           capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('clang: ' + r.stderr[-400:])
        r = subprocess.run(['opt', '-S', '-passes=mem2reg', ll, '-o', ml], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('opt: ' + r.stderr[-400:])
        m.load(ml)
    return m


def build_ext(name, files, extra=()):
    """compile a Python extension module from the current source into the scratch directory and import it"""
    import importlib.util
    import numpy
    import sysconfig
    d = runner.scratch()
    so = os.path.join(d, name + sysconfig.get_config_var('EXT_SUFFIX'))
    procs, objs = [], []
    for f in files:
        o = os.path.join(d, name + '.' + os.path.basename(f) + '.o')
        objs.append(o)
        procs.append(subprocess.Popen(['g++', '-w', '-O2', '-fPIC', '-std=c++11', '-fopenmp', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
                                       '-I' + PYINC, '-I' + numpy.get_include(), '-I' + os.path.dirname(f), '-c', f, '-o', o],
                                      stderr=subprocess.PIPE))
    for p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError('the extension does not build: ' + err.decode()[-600:])
    r = subprocess.run(['g++', '-shared', '-fopenmp', '-o', so] + objs + list(extra), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('the extension does not link: ' + r.stderr[-600:])
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
