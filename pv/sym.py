"""
Engine A: symbolic values and path exploration for real Python code.

The functions under contract are executed by CPython itself, from the text of the file in /repo
(see pv.loader); only the *values* are symbolic.  Every branch on a symbolic condition forks (all
feasible decisions are explored by re-execution), so on termination the explored paths cover every
input that satisfies the precondition.  Obligations are discharged by z3 under the path condition.
"""
import math
import operator
import re
import time
from fractions import Fraction
import numpy as np
import z3

z3.set_param('model.completion', True)
_NUM = re.compile(r'^\s*([+-]?)0*(\d+)(?:\.(\d+))?\s*$')


class Unsupported(BaseException):
    """The code left the subset the engine models: the obligation is undecided (never a violation)."""


class PathAbort(BaseException):
    """Current path is infeasible."""


class Ctx:
    cur = None
    text = False               # numbers written into and read back from text are tracked (int_text, float_text)

    def __init__(self, float_mode='real', timeout_ms=20000, max_paths=4000, deadline=None, stop=float('inf')):
        self.float_mode = float_mode
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline            # processor time
        self.stop = stop                    # wall clock
        self.obligations = []      # dicts
        self.solver_time = 0.0
        self.paths = 0
        self.queries = 0
        self.assumptions = set()
        self.inputs = {}
        self.failures = []
        self.undecided = []
        self.covered = {}

    # -- path handling ------------------------------------------------------------------
    def _reset_path(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self._fresh = 0
        self._rcache = {}
        self.inputs = {}
        self.hints = []
        self.rounded = {}
        self._mono = set()
        self._texts = []

    def fresh(self, base, sort='R'):
        self._fresh += 1
        n = "%s!%d" % (base, self._fresh)
        return z3.Real(n) if sort == 'R' else (z3.Int(n) if sort == 'I' else z3.Bool(n))

    @staticmethod
    def text_mode():
        return Ctx.cur is not None and Ctx.cur.text

    # -- numbers in text ----------------------------------------------------------------
    # A symbolic number formatted into a string is written as a large number of its own (7e30 + k for an integer,
    # 4e15 + k for a float); int() and float() of a string with such a number give the symbolic value back, rounded
    # to the number of decimals it was written with.
    def text_of(self, v):
        for k, (w, _) in enumerate(self._texts):
            if w is v:
                return k
        self._texts.append((v, {}))
        return len(self._texts) - 1

    def int_text(self, v):
        return 7 * 10**30 + self.text_of(v)

    def float_text(self, v):
        return 4e15 + self.text_of(v)

    def from_text(self, s):
        """the symbolic number that the text s holds, or None"""
        m = _NUM.match(s)
        if m is None:
            return None
        n = int(m.group(2))
        if 0 <= n - 7 * 10**30 < len(self._texts):
            v, d, memo = self._texts[n - 7 * 10**30][0], 0, None
        elif 0 <= n - 4 * 10**15 < len(self._texts):
            v, memo = self._texts[n - 4 * 10**15]
            v = SFloat.of(v)
            f = m.group(3)
            d = None if f is None or f[:1] == '5' else len(f)
            if d is not None:
                if d not in memo:
                    k = self.fresh('dec', 'I')
                    x = v.e * 10**d
                    self.axiom(z3.And(x - z3.ToReal(k) <= z3.Q(1, 2), z3.ToReal(k) - x <= z3.Q(1, 2)))
                    lo = None if v.lo is None else math.floor(v.lo * 10**d)
                    hi = None if v.hi is None else math.ceil(v.hi * 10**d)
                    memo[d] = SFloat.of(SInt(k, lo, hi)) / 10**d if d else SInt(k, lo, hi)
                v = memo[d]
        else:
            return None
        return -v if m.group(1) == '-' else v

    def assume(self, cond):
        c = tobool(cond)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.solver.add(c)
        self.pc.append(c)

    def axiom(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def _check(self, *extra):
        if self.late():
            raise Unsupported("time budget for this contract used up")
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def late(self):
        # the budget is processor time (a loaded machine must not turn a proof into an alarm), with a far wall-clock stop
        return self.deadline is not None and (time.process_time() > self.deadline or time.time() > self.stop)

    def implied(self, cond):
        """True when the path condition implies cond (no branching)"""
        return self._check(z3.Not(cond)) == z3.unsat

    def decide(self, cond):
        """Branch on a z3 Bool."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((d, False))
            self.solver.add(cond if d else z3.Not(cond))
            self.pc.append(cond if d else z3.Not(cond))
            return d
        rt = self._check(cond)
        rf = self._check(z3.Not(cond))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort()
        can_t = rt != z3.unsat
        can_f = rf != z3.unsat
        if can_t and can_f:
            self.trace.append((True, True))
            d = True
        else:
            d = can_t
            self.trace.append((d, False))
        self.pos += 1
        self.solver.add(cond if d else z3.Not(cond))
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def run(self, fn):
        """Explore every path of fn()."""
        stack = [[]]
        done = 0
        old = Ctx.cur
        Ctx.cur = self
        try:
            while stack:
                prefix = stack.pop()
                self._reset_path(prefix)
                try:
                    fn()
                    done += 1
                    self.paths += 1
                except PathAbort:
                    pass
                tr = self.trace
                for i in range(len(tr) - 1, len(prefix) - 1, -1):
                    if tr[i][1]:
                        stack.append([t[0] for t in tr[:i]] + [not tr[i][0]])
                if self.paths > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
                if self.late():
                    raise Unsupported("time budget for this contract used up")
        finally:
            Ctx.cur = old
        return done

    # -- obligations ---------------------------------------------------------------------
    def cover(self, name):
        """Reachability witness: this point is reached with a satisfiable path condition."""
        if self.covered.get(name):
            return
        r = self._check()
        if r == z3.sat:
            self.covered[name] = True
        elif r == z3.unsat:
            raise PathAbort()

    def prove(self, name, cond, info=None):
        c = tobool(cond)
        ob = {'name': name, 'status': None}
        self.obligations.append(ob)
        if c is True:
            ob['status'] = 'discharged'
            ob['how'] = 'evaluated'
            return True
        if c is False:
            c = z3.BoolVal(False)
        if poly_true(c):
            ob['status'] = 'discharged'
            ob['how'] = 'polynomial normal form'
            return True
        t = time.time()
        r = self._check(z3.Not(c))
        ob['t'] = time.time() - t
        ob['how'] = 'z3'
        if r == z3.unknown:
            # the same goal from fewer hypotheses (sound: a proof from a subset is a proof)
            for k in (8, 14, 24, 48):
                if k >= len(self.pc):
                    break
                s2 = z3.Solver()
                s2.set('timeout', self.timeout_ms // 3)
                for p in self.pc[-k:]:
                    s2.add(p)
                s2.add(z3.Not(c))
                t = time.time()
                r2 = s2.check()
                self.solver_time += time.time() - t
                if r2 == z3.unsat:
                    r = r2
                    break
        if r == z3.unknown:
            # second back end configuration: fresh solver, simplified, larger budget
            s2 = z3.Solver()
            s2.set('timeout', self.timeout_ms * 2)
            for p in self.pc:
                s2.add(p)
            s2.add(z3.Not(c))
            t = time.time()
            r = s2.check()
            self.solver_time += time.time() - t
            if r == z3.sat:
                m = s2.model()
        elif r == z3.sat:
            m = self.solver.model()
        if r == z3.unsat:
            ob['status'] = 'discharged'
            return True
        if r == z3.sat:
            ob['status'] = 'failed'
            vals = {}
            for k, v in self.inputs.items():
                try:
                    vals[k] = concretize(m, v)
                except Exception as e:      # noqa
                    vals[k] = None
            self.failures.append({'name': name, 'inputs': vals, 'info': info,
                                  'model': str(m)[:2000], 'goal': str(z3.simplify(c))[:2000]})
            return False
        import os
        if os.environ.get('PV_DUMP'):
            print('UNKNOWN', name)
            for p in self.pc:
                print('  H', z3.simplify(p))
            print('  G', z3.simplify(c))
        ob['status'] = 'unknown'
        self.undecided.append(name)
        return None

    def hint(self, v):
        """ghost integer: rounding/truncation tries to identify its result with it (each use is proved)"""
        self.hints.append(v)

    def match_hint(self, x, lo, hi, scale=1):
        """a hint K with K*scale+lo <= x < K*scale+hi (lo exclusive when lo<0), proved by the solver"""
        if lo == 0 and self.float_mode != 'real':
            # rounding is monotone and hinted integers (below 2^53) are doubles
            for n, (r, ex, ok) in list(self.rounded.items()):
                for i, k in enumerate(self.hints):
                    if ok and (n, i) not in self._mono:
                        self._mono.add((n, i))
                        kr = z3.ToReal(k.e)
                        self.axiom(z3.And(z3.Implies(ex >= kr, r >= kr), z3.Implies(ex <= kr, r <= kr)))
        for k in self.hints:
            ke = z3.ToReal(k.e) * scale if scale != 1 else z3.ToReal(k.e)
            low = (x < ke) if lo == 0 else (x <= ke + qs(lo))
            if self._check(z3.Or(low, x >= ke + qs(hi))) == z3.unsat:
                return k
        return None

    def int_monotone(self, e):
        """rounding is monotone and integers below 2^53 are doubles: add that fact for every rounded value in e"""
        if self.float_mode == 'real' or not self.rounded:
            return
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x):
                n = x.decl().name()
                if n in self.rounded and n not in self._mono:
                    self._mono.add(n)
                    r, ex, ok = self.rounded[n]
                    if ok:
                        fl = z3.ToReal(z3.ToInt(ex))
                        self.axiom(z3.And(r >= fl, r <= fl + 1, z3.Implies(ex == fl, r == fl)))
                    todo.append(ex)
            else:
                todo.extend(x.children())

    def lemma(self, name, cond):
        """prove an intermediate assertion, then use it"""
        if self.prove(name, cond) is True:
            self.assume(cond)

    # -- inputs --------------------------------------------------------------------------
    def int_input(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.axiom(v >= lo)
        if hi is not None:
            self.axiom(v <= hi)
        s = SInt(v, lo, hi)
        self.inputs[name] = s
        return s

    def real_input(self, name, lo=None, hi=None, g=None):
        v = z3.Real(name)
        if lo is not None:
            self.axiom(v >= q(lo))
        if hi is not None:
            self.axiom(v <= q(hi))
        s = SFloat(v, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi), g=g)
        if g is not None:
            k = z3.Int(name + '!g')
            self.axiom(v * qs(Fraction(2) ** g) == z3.ToReal(k))
        self.inputs[name] = s
        return s

    def bool_input(self, name):
        s = SBool(z3.Bool(name))
        self.inputs[name] = s
        return s


def poly_true(c):
    """conjunction of real equalities that are polynomial identities (ring normal form by z3's simplifier)"""
    if z3.is_and(c):
        return all(poly_true(x) for x in c.children())
    if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort():
        d = z3.simplify(c.arg(0) - c.arg(1), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0
    return False


def ctx():
    c = Ctx.cur
    if c is None:
        raise Unsupported("symbolic value used outside a contract")
    return c


def q(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def qs(x):
    return z3.simplify(q(x))


def concretize(m, v):
    if isinstance(v, (list, tuple)):
        return [concretize(m, x) for x in v]
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.e, True))
    if isinstance(v, SInt):
        return m.eval(v.e, True).as_long()
    if isinstance(v, SFloat):
        r = m.eval(v.e, True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if isinstance(v, z3.BitVecRef):
        return m.eval(v, True).as_long()
    if isinstance(v, z3.ExprRef):
        r = m.eval(v, True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        if z3.is_rational_value(r):
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        return r.as_long() if z3.is_int_value(r) else z3.is_true(r) if z3.is_bool(r) else str(r)
    return v


def tobool(c):
    """-> True / False / z3 BoolRef"""
    if isinstance(c, SBool):
        c = c.e
    if isinstance(c, z3.BoolRef):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    return bool(c)


class SBool:
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def _o(self, o):
        if isinstance(o, SBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        try:
            import numpy as _n
            if isinstance(o, _n.bool_):
                return z3.BoolVal(bool(o))
        except ImportError:
            pass
        return None

    def __and__(self, o):
        p = self._o(o)
        return NotImplemented if p is None else SBool(z3.And(self.e, p))
    __rand__ = __and__

    def __or__(self, o):
        p = self._o(o)
        return NotImplemented if p is None else SBool(z3.Or(self.e, p))
    __ror__ = __or__

    def __xor__(self, o):
        p = self._o(o)
        return NotImplemented if p is None else SBool(z3.Xor(self.e, p))
    __rxor__ = __xor__

    def __invert__(self):
        # numpy semantics for boolean arrays
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        p = self._o(o)
        if p is None:
            if isinstance(o, (int, SInt)):
                return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1) == o
            return False
        return SBool(self.e == p)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r

    def _int(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __lt__(self, o): return self._int() < o
    def __gt__(self, o): return self._int() > o

    def __repr__(self):
        return '<sym bool>'


def _mx(*a):
    return None if any(x is None for x in a) else max(a)


def _mn(*a):
    return None if any(x is None for x in a) else min(a)


def _npint(o):
    """Concrete integer-like -> int, else None."""
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    import numpy as _n
    if isinstance(o, (_n.integer, _n.bool_)):
        return int(o)
    return None


def _npflt(o):
    if isinstance(o, float):
        return o
    import numpy as _n
    if isinstance(o, _n.floating):
        return float(o)
    if isinstance(o, _n.ndarray) and o.ndim == 0 and o.dtype.kind == 'f':
        return float(o)
    return None


def isinf(f):
    return f != f or f in (float('inf'), float('-inf'))


class SInt:
    """A mathematical integer (Python int semantics).  lo/hi: constant bounds if known; tz: known
    number of trailing zero bits."""
    __slots__ = ('e', 'lo', 'hi', 'tz', 'lin')
    def __hash__(self):
        # dict keys: lookups then compare with == and fork.  Only where a check vouches that symbolic and
        # plain integer keys are never mixed in one dict.
        if Ctx.cur is not None and getattr(Ctx.cur, 'hashable', False):
            return 0x5e1f
        return hash(self.__index__())                # case split over a small domain (Unsupported otherwise)
    __array_priority__ = 1000

    def __init__(self, e, lo=None, hi=None, tz=0):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.tz = tz
        self.lin = None

    # lin: the value as c0 + sum(coef * leaf), kept so that digits of a positional sum come out exactly
    def _lin(self):
        if self.lin is not None:
            return self.lin
        if self.lo is not None and self.lo == self.hi:
            return {}, self.lo
        return {self.e.get_id(): (self, 1)}, 0

    def _setlin(self, d, c0):
        if len(d) <= 40:
            self.lin = ({k: v for k, v in d.items() if v[1]}, c0)
        return self

    @staticmethod
    def _fromlin(d, c0):
        r = SInt.of(c0)
        for a, c in d.values():
            r = SInt._add(r, a if c == 1 else SInt._mul(a, SInt.of(c)))
        return r

    @staticmethod
    def of(o):
        if isinstance(o, SInt):
            return o
        if isinstance(o, SBool):
            return o._int()
        i = _npint(o)
        if i is not None:
            tz = 0
            if i:
                tz = (i & -i).bit_length() - 1
            else:
                tz = 10**6
            return SInt(z3.IntVal(i), i, i, tz)
        return None

    def const(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        return None

    # arithmetic
    def _bin(self, o, f):
        p = SInt.of(o)
        if p is None:
            if isinstance(o, SFloat) or _npflt(o) is not None:
                return None
            return NotImplemented
        return f(self, p)

    @staticmethod
    def _add(a, b):
        ca, cb = (a.lo if a.lo == a.hi else None), (b.lo if b.lo == b.hi else None)
        if ca == 0:
            return b
        if cb == 0:
            return a
        r = SInt(a.e + b.e, None if a.lo is None or b.lo is None else a.lo + b.lo,
                 None if a.hi is None or b.hi is None else a.hi + b.hi, min(a.tz, b.tz))
        (da, xa), (db, xb) = a._lin(), b._lin()
        d = dict(da)
        for k, (l, c) in db.items():
            d[k] = (l, c + (d[k][1] if k in d else 0))
        return r._setlin(d, xa + xb)

    @staticmethod
    def _neg(a):
        r = SInt(-a.e, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.tz)
        d, x = a._lin()
        return r._setlin({k: (l, -c) for k, (l, c) in d.items()}, -x)

    @staticmethod
    def _mul(a, b):
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi = min(c), max(c)
        elif a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            lo = a.lo * b.lo
        r = SInt(a.e * b.e, lo, hi, min(a.tz + b.tz, 10**6))
        for x, y in ((a, b), (b, a)):
            if x.lo is not None and x.lo == x.hi:
                d, c0 = y._lin()
                return r._setlin({k: (l, c * x.lo) for k, (l, c) in d.items()}, c0 * x.lo)
        return r

    def __add__(self, o):
        r = self._bin(o, SInt._add)
        return SFloat.of(self) + o if r is None else r
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: SInt._add(a, SInt._neg(b)))
        return SFloat.of(self) - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: SInt._add(b, SInt._neg(a)))
        return o - SFloat.of(self) if r is None else r

    def __mul__(self, o):
        if isinstance(o, (list, str, bytes, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")
        r = self._bin(o, SInt._mul)
        return SFloat.of(self) * o if r is None else r
    __rmul__ = __mul__

    def __neg__(self):
        return SInt._neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        m = None
        if self.lo is not None and self.hi is not None:
            m = max(abs(self.lo), abs(self.hi))
        return SInt(z3.If(self.e >= 0, self.e, -self.e), 0, m)

    def _divmod(self, b):
        """Python floor division by SInt b"""
        a = self
        c = b.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if c > 0:
                if a.lin is not None:
                    d, c0 = a.lin
                    H = {k: (l, x // c) for k, (l, x) in d.items() if x % c == 0}
                    L = {k: (l, x) for k, (l, x) in d.items() if x % c}
                    if H and all(l.lo is not None and l.hi is not None for l, _ in L.values()):
                        lo = c0 % c + sum(min(x * l.lo, x * l.hi) for l, x in L.values())
                        hi = c0 % c + sum(max(x * l.lo, x * l.hi) for l, x in L.values())
                        if lo >= 0 and hi < c:
                            return SInt._fromlin(H, c0 // c), SInt._fromlin(L, c0 % c)
                qd = SInt(a.e / z3.IntVal(c), None if a.lo is None else a.lo // c,
                          None if a.hi is None else a.hi // c)
                if c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    qd.tz = max(0, a.tz - k) if a.tz < 10**6 else a.tz
                rm = SInt(a.e % z3.IntVal(c), 0, c - 1)
                if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < c:
                    rm = SInt(a.e, a.lo, a.hi, a.tz)
                return qd, rm
            qd, rm = SInt._neg(a)._divmod(SInt.of(-c))
            return qd, SInt._neg(rm)
        if ctx().decide(b.e == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ctx().decide(b.e > 0):
            return (SInt(a.e / b.e, 0 if (a.lo is not None and a.lo >= 0) else None,
                         a.hi if (a.lo is not None and a.lo >= 0) else None),
                    SInt(a.e % b.e, 0, None if b.hi is None else b.hi - 1))
        na, nb = -a.e, -b.e
        return SInt(na / nb), SInt(-(na % nb))

    def __floordiv__(self, o):
        r = self._bin(o, lambda a, b: a._divmod(b)[0])
        return SFloat.of(self) // o if r is None else r

    def __rfloordiv__(self, o):
        r = self._bin(o, lambda a, b: b._divmod(a)[0])
        return o // SFloat.of(self) if r is None else r

    def __mod__(self, o):
        r = self._bin(o, lambda a, b: a._divmod(b)[1])
        return SFloat.of(self) % o if r is None else r

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting")
        r = self._bin(o, lambda a, b: b._divmod(a)[1])
        return SFloat.of(o) % SFloat.of(self) if r is None else r

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        p = SInt.of(o)
        if p is not None:
            # CPython int/int is correctly rounded from the exact quotient
            return SFloat._int_div(self, p)
        return SFloat.of(self) / o

    def __rtruediv__(self, o):
        p = SInt.of(o)
        if p is not None:
            return SFloat._int_div(p, self)
        return SFloat.of(o) / SFloat.of(self)

    def __pow__(self, o, mod=None):
        i = _npint(o)
        if i is not None and i >= 0 and mod is None and i <= 8:
            r = SInt.of(1)
            for _ in range(i):
                r = r * self
            return r
        raise Unsupported("power of a symbolic integer")

    def __rpow__(self, o):
        b = SInt.of(o)
        if b is not None and self.lo is not None and self.hi is not None and 0 <= self.lo and self.hi - self.lo <= 256:
            c = b.const()
            if c is not None and c > 0:
                e = z3.IntVal(c ** self.hi)
                for k in range(self.hi - 1, self.lo - 1, -1):
                    e = z3.If(self.e == k, z3.IntVal(c ** k), e)
                return SInt(e, c ** self.lo, c ** self.hi)
        raise Unsupported("symbolic exponent")

    # bits
    def _andc(self, c):
        if c == 0:
            return SInt.of(0)
        if c < 0:
            # x & ~m  = x - (x & m)
            return self - self._andc(~c)
        out = None
        pos = 0
        cc = c
        hi = 0
        while cc:
            if cc & 1:
                n = 0
                while cc & 1:
                    n += 1
                    cc >>= 1
                v = self
                if pos:
                    v = v._divmod(SInt.of(1 << pos))[0]
                v = v._divmod(SInt.of(1 << n))[1]
                v = v * (1 << pos)
                out = v if out is None else out + v
                pos += n
            else:
                cc >>= 1
                pos += 1
        lo_tz = (c & -c).bit_length() - 1
        h = c if self.hi is None or self.lo is None or self.lo < 0 else min(c, self.hi)
        if out.hi is not None:
            h = min(h, out.hi)
        r = SInt(out.e, 0, h, max(lo_tz, self.tz if self.tz < 10**6 else lo_tz))
        r.lin = out.lin
        return r

    @staticmethod
    def _and(a, b):
        cb, ca = b.const(), a.const()
        if cb is not None:
            return a._andc(cb)
        if ca is not None:
            return b._andc(ca)
        for x, y in ((a, b), (b, a)):
            if 0 < x.tz and None not in (y.lo, y.hi) and y.lo >= 0 and y.hi < (1 << min(x.tz, 4096)):
                return SInt.of(0)
            # disjoint bit ranges established by the solver under the path condition
            if 0 < x.tz <= 64 and (y.lo is None or y.hi is None or y.lo < 0 or y.hi >= (1 << x.tz)):
                cx = ctx()
                if cx._check(z3.Or(y.e < 0, y.e >= (1 << x.tz))) == z3.unsat:
                    return SInt.of(0)
        if None not in (a.lo, b.lo) and a.lo >= 0 and b.lo >= 0:
            if b.hi is not None and a.tz >= b.hi.bit_length():
                return SInt.of(0)
            if a.hi is not None and b.tz >= a.hi.bit_length():
                return SInt.of(0)
            if a.hi is not None and b.hi is not None:
                w = max(a.hi.bit_length(), b.hi.bit_length(), 1)
                if w <= 64:
                    e = z3.BV2Int(z3.Int2BV(a.e, w) & z3.Int2BV(b.e, w))
                    return SInt(e, 0, min(a.hi, b.hi))
        raise Unsupported("bitwise and of unbounded symbolic integers")

    def __and__(self, o):
        p = SInt.of(o)
        return NotImplemented if p is None else SInt._and(self, p)
    __rand__ = __and__

    @staticmethod
    def _or(a, b):
        r = a + b - SInt._and(a, b)
        if None not in (a.lo, b.lo) and a.lo >= 0 and b.lo >= 0:
            hi = None
            if a.hi is not None and b.hi is not None:
                hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
                if r.hi is not None:
                    hi = min(hi, r.hi)
            o = SInt(r.e, max(a.lo, b.lo), hi, min(a.tz, b.tz))
            o.lin = r.lin
            return o
        return r

    def __or__(self, o):
        p = SInt.of(o)
        return NotImplemented if p is None else SInt._or(self, p)
    __ror__ = __or__

    def __xor__(self, o):
        p = SInt.of(o)
        if p is None:
            return NotImplemented
        r = self + p - 2 * SInt._and(self, p)
        return r
    __rxor__ = __xor__

    def __invert__(self):
        return SInt.of(-1) - self

    def __lshift__(self, o):
        p = SInt.of(o)
        c = p.const()
        if c is not None:
            r = self * (1 << c)
            return r
        return self * (2 ** p)

    def __rlshift__(self, o):
        return SInt.of(o) * (2 ** self)

    def __rshift__(self, o):
        p = SInt.of(o)
        c = p.const()
        if c is not None:
            return self // (1 << c)
        return self // (2 ** p)

    def __rrshift__(self, o):
        return SInt.of(o) // (2 ** self)

    # comparison
    def _cmp(self, o, f, name):
        p = SInt.of(o)
        if p is not None:
            return SBool(f(self.e, p.e))
        if isinstance(o, SFloat) or _npflt(o) is not None:
            fo = SFloat.of(o)
            if fo is None:
                return NotImplemented
            return SBool(f(z3.ToReal(self.e), fo.e))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, 'eq')
        if r is NotImplemented:
            return False if not hasattr(o, '__array__') else r
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, 'ne')
        if r is NotImplemented:
            return True if not hasattr(o, '__array__') else r
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, 'lt')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, 'le')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, 'gt')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, 'ge')

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        c = self.const()
        if c is not None:
            return c
        cx = ctx()
        # forced value?
        if cx._check() == z3.sat:
            v = cx.solver.model().eval(self.e, True).as_long()
            if cx._check(self.e != v) == z3.unsat:
                return v
        # small domain: case split
        if self.lo is not None and self.hi is not None and self.hi - self.lo <= 64:
            for v in range(self.lo, self.hi):
                if cx.decide(self.e == v):
                    return v
            return self.hi
        raise Unsupported("symbolic integer used as an index")

    def __int__(self):
        if ctx().text and self.const() is None:
            return ctx().int_text(self)
        return self.__index__()

    def __float__(self):
        if ctx().text:
            c = self.const()
            return ctx().float_text(self) if c is None else float(c)
        raise Unsupported("C-level float() of a symbolic integer")

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        a = abs(self)
        if a.hi is None:
            raise Unsupported("bit_length")
        return sum(Ite(a >= (1 << k), 1, 0) for k in range(a.hi.bit_length()))

    def bit_count(self):
        a = abs(self)
        if a.hi is None:
            raise Unsupported("bit_count")
        return sum((a >> k) & 1 for k in range(a.hi.bit_length()))

    def to_bytes(self, length=1, byteorder='big', signed=False):
        n = int(length)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not ((self >= lo) & (self <= hi)):
            raise OverflowError('int too big to convert')
        v = self % (1 << (8 * n)) if signed else self
        b = [(v >> (8 * k)) & 255 for k in range(n)]
        return SBytes(b if byteorder == 'little' else b[::-1])

    # numpy object-array hooks
    def conjugate(self): return self
    def sqrt(self): return SFloat.of(self).sqrt()
    def cos(self): return SFloat.of(self).cos()
    def sin(self): return SFloat.of(self).sin()
    def floor(self): return self
    def ceil(self): return self
    def rint(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __repr__(self):
        return '<sym int>'

    def __format__(self, spec):
        c = self.const()
        if c is None and ctx().text:
            return format(ctx().float_text(self) if spec[-1:] in 'eEfFgG%' and spec else ctx().int_text(self), spec)
        return '<sym>' if c is None else format(c, spec)

    def __str__(self):
        return self.__format__('')

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SBytes(list):
    """bytes, some of them symbolic"""
    def __add__(self, o):
        return SBytes(list(self) + list(o))

    def __radd__(self, o):
        return SBytes(list(o) + list(self))

    def __getitem__(self, k):
        v = list.__getitem__(self, k)
        return SBytes(v) if isinstance(k, slice) else v

    def __mul__(self, n):
        return SBytes(list(self) * n)

    def join(self, parts):
        out = SBytes()
        for k, p in enumerate(parts):
            out = out + (self if k else []) + p
        return out

    @property
    def nbytes(self):
        return len(self)

    def tobytes(self):
        return SBytes(self)


def from_bytes(b, byteorder='big', signed=False):
    b = list(b) if byteorder == 'little' else list(b)[::-1]
    v = 0
    for k, x in enumerate(b):
        v = v + (x << (8 * k))
    if signed and b:
        m = 1 << (8 * len(b))
        v = Ite(SInt.of(v) >= m // 2, SInt.of(v) - m, SInt.of(v))
    return v


U53 = Fraction(1, 2**53)


def _halfulp(M):
    """Upper bound of the rounding error of a double result of magnitude <= M."""
    if M == 0:
        return Fraction(0)
    M = Fraction(M)
    k = 0
    p = Fraction(1)
    while p < M:
        p *= 2
        k += 1
    while p / 2 >= M:
        p /= 2
        k -= 1
    # 2^(k-1) < M <= 2^k : ulp <= 2^(k-53)   (M == 2^k itself is representable)
    return max(Fraction(2) ** (k - 54) if True else 0, Fraction(1, 2**1075))


class SFloat:
    """A double.  e: z3 Real of its exact value; lo/hi: constant Fraction bounds; g: the value is a multiple of 2^-g."""
    __slots__ = ('e', 'lo', 'hi', 'g')
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, e, lo=None, hi=None, isint=False, g=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.g = 0 if isint and g is None else g

    @property
    def isint(self):
        return self.g is not None and self.g <= 0

    @staticmethod
    def _cg(f):
        """granularity of a constant"""
        f = Fraction(f)
        if f == 0:
            return -10**4
        d = f.denominator
        if d & (d - 1):
            return None
        if d > 1:
            return d.bit_length() - 1
        n = abs(f.numerator)
        return -((n & -n).bit_length() - 1)

    @staticmethod
    def of(o):
        if isinstance(o, SFloat):
            return o
        if isinstance(o, SBool):
            o = o._int()
        if isinstance(o, SInt):
            r = SFloat(z3.ToReal(o.e), None if o.lo is None else Fraction(o.lo),
                       None if o.hi is None else Fraction(o.hi), g=-min(o.tz, 10**4))
            return r._round()
        i = _npint(o)
        if i is not None:
            f = Fraction(float(i)) if Ctx.cur is None or Ctx.cur.float_mode != 'real' else Fraction(i)
            return SFloat(qs(f), f, f, g=SFloat._cg(f))
        if isinstance(o, Fraction):
            return SFloat(qs(o), o, o, g=SFloat._cg(o))
        f = _npflt(o)
        if f is not None:
            if isinf(f):
                return None
            fr = Fraction(f)
            return SFloat(qs(fr), fr, fr, g=SFloat._cg(fr))
        return None

    def const(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        return None

    def _round(self, tight=True):
        """Round an exact real result to double (error model)."""
        cx = ctx()
        if cx.float_mode == 'real':
            return self
        M = None
        if self.lo is not None and self.hi is not None:
            M = max(abs(self.lo), abs(self.hi))
        if self.g is not None and M is not None and M <= Fraction(2) ** (53 - self.g):
            return self
        if self.g is not None and -60 < self.g <= 0:
            b = qs(Fraction(2) ** (53 - self.g))
            if cx._check(z3.Or(self.e > b, self.e < -b)) == z3.unsat:
                return self
        if self.lo is not None and self.lo == self.hi:
            f = Fraction(float(self.lo))
            return SFloat(qs(f), f, f, g=SFloat._cg(f))
        key = self.e.get_id()
        if key in cx._rcache:
            return cx._rcache[key][1]
        r = cx.fresh('fl')
        if M is not None:
            h = qs(_halfulp(M))
            cx.axiom(r - self.e <= h)
            cx.axiom(self.e - r <= h)
            rel = None
        u = qs(U53)
        a = z3.If(self.e >= 0, self.e, -self.e)
        cx.axiom(r - self.e <= u * a)
        cx.axiom(self.e - r <= u * a)
        lo = hi = None
        if self.lo is not None:
            lo = Fraction(float(self.lo)) if abs(self.lo) < Fraction(10)**300 else self.lo
            lo = min(lo, self.lo)
        if self.hi is not None:
            hi = Fraction(float(self.hi)) if abs(self.hi) < Fraction(10)**300 else self.hi
            hi = max(hi, self.hi)
        g = None
        if lo is not None and hi is not None and (lo > 0 or hi < 0):
            k = min(abs(lo), abs(hi))
            ex = 0
            while Fraction(2) ** (ex + 1) <= k:
                ex += 1
            while Fraction(2) ** ex > k:
                ex -= 1
            g = 52 - ex
        cx.rounded[r.decl().name()] = (r, self.e, M is not None and M <= 2**53)
        out = SFloat(r, lo, hi, g=g)
        if lo is not None:
            cx.axiom(r >= qs(lo))
        if hi is not None:
            cx.axiom(r <= qs(hi))
        cx._rcache[key] = (self.e, out)
        return out

    # exact helper ops
    def _xadd(a, b):
        return SFloat(a.e + b.e, None if a.lo is None or b.lo is None else a.lo + b.lo,
                      None if a.hi is None or b.hi is None else a.hi + b.hi,
                      g=None if a.g is None or b.g is None else max(a.g, b.g))

    def _xneg(a):
        return SFloat(-a.e, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, g=a.g)

    def _xmul(a, b):
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi = min(c), max(c)
        return SFloat(a.e * b.e, lo, hi, g=None if a.g is None or b.g is None else a.g + b.g)

    @staticmethod
    def _pow2(f):
        """is the constant a power of two (exact scaling)?"""
        if f is None or f == 0:
            return False
        f = abs(f)
        n, d = f.numerator, f.denominator
        return (n & (n - 1)) == 0 and (d & (d - 1)) == 0

    def __add__(self, o):
        if isinstance(o, (SComplex, complex)):
            return SComplex.of(self) + o
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        if p.const() == 0:
            return self
        if self.const() == 0:
            return p
        return SFloat._xadd(self, p)._round()
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SComplex, complex)):
            return SComplex.of(self) - o
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        if p.const() == 0:
            return self
        x = SFloat._xadd(self, SFloat._xneg(p))
        cx = ctx()
        if cx.float_mode != 'real' and p.isint and self.lo is not None and self.hi is not None \
                and self.lo >= 0 and self.hi <= 2**53 and p.const() is None:
            # 0 <= p <= self with p an integer: both lie on the grid ulp(self) <= 1, so the difference is exact
            if cx._check(z3.Or(p.e < 0, p.e > self.e)) == z3.unsat:
                x.lo = max(x.lo, Fraction(0)) if x.lo is not None else Fraction(0)
                return x
        return x._round()

    def __rsub__(self, o):
        if isinstance(o, complex):
            return SComplex.of(o) - self
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        return SFloat._xadd(p, SFloat._xneg(self))._round()

    def __mul__(self, o):
        if isinstance(o, (SComplex, complex)):
            return SComplex.of(self) * o
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        x = SFloat._xmul(self, p)
        if SFloat._pow2(p.const()) or SFloat._pow2(self.const()) or p.const() == 0 or self.const() == 0:
            return x
        return x._round()
    __rmul__ = __mul__

    @staticmethod
    def _xdiv(a, b):
        c = b.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            lo = None if a.lo is None else a.lo / c
            hi = None if a.hi is None else a.hi / c
            if c < 0:
                lo, hi = hi, lo
            return SFloat(a.e / qs(c), lo, hi, False)
        if ctx().decide(b.e == 0):
            raise ZeroDivisionError("float division by zero")
        lo = hi = None
        if b.lo is not None and b.hi is not None and (b.lo > 0 or b.hi < 0) and a.lo is not None and a.hi is not None:
            c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
            lo, hi = min(c), max(c)
        return SFloat(a.e / b.e, lo, hi, False)

    @staticmethod
    def _int_div(a, b):
        fa = SFloat(z3.ToReal(a.e), None if a.lo is None else Fraction(a.lo), None if a.hi is None else Fraction(a.hi), True)
        fb = SFloat(z3.ToReal(b.e), None if b.lo is None else Fraction(b.lo), None if b.hi is None else Fraction(b.hi), True)
        r = SFloat._xdiv(fa, fb)
        return r._round()

    def __truediv__(self, o):
        if isinstance(o, (SComplex, complex)):
            return SComplex.of(self) / o
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        r = SFloat._xdiv(self, p)
        if SFloat._pow2(p.const()):
            if self.g is not None:
                r.g = self.g + SFloat._cg(1 / p.const())
            return r
        return r._round()

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return SComplex.of(o) / self
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        return SFloat._xdiv(p, self)._round()

    def __neg__(self):
        return SFloat._xneg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        m = None
        if self.lo is not None and self.hi is not None:
            m = max(abs(self.lo), abs(self.hi))
        return SFloat(z3.If(self.e >= 0, self.e, -self.e), Fraction(0), m, g=self.g)

    def _floor_int(self):
        if Ctx.cur is not None and Ctx.cur.hints:
            k = Ctx.cur.match_hint(self.e, 0, Fraction(1))
            if k is not None:
                return k
        if Ctx.cur is not None:
            Ctx.cur.int_monotone(self.e)
        return SInt(z3.ToInt(self.e), None if self.lo is None else math.floor(self.lo),
                    None if self.hi is None else math.floor(self.hi))

    def __floordiv__(self, o):
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        cx = ctx()
        if cx.float_mode != 'real':
            c = p.const()
            # exact when both operands are integral and small: floor of the exact quotient
            if not (c is not None and c > 0):
                raise Unsupported("float floor division")
        x = SFloat._xdiv(self, p)
        i = x._floor_int()
        return SFloat(z3.ToReal(i.e), None if i.lo is None else Fraction(i.lo), None if i.hi is None else Fraction(i.hi), True)

    def __rfloordiv__(self, o):
        p = SFloat.of(o)
        return NotImplemented if p is None else p // self

    def __mod__(self, o):
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        x = SFloat._xdiv(self, p)
        i = x._floor_int()
        e = self.e - z3.ToReal(i.e) * p.e
        c = p.const()
        lo = hi = None
        if c is not None and c > 0:
            lo, hi = Fraction(0), c
        r = SFloat(e, lo, hi, g=None if self.g is None or p.g is None else max(self.g, p.g))
        # fmod is exact for same-sign operands; the sign fix-up addition is rounded
        if ctx().float_mode != 'real' and not (c is not None and c > 0 and ((self.lo is not None and self.lo >= 0) or ctx().implied(self.e >= 0))):
            return r._round()
        return r

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting")
        p = SFloat.of(o)
        return NotImplemented if p is None else p % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        i = _npint(o)
        f = _npflt(o)
        if i is None and f is not None and f == int(f):
            i = int(f)
        if i is not None and 0 <= i <= 8:
            if i == 0:
                return SFloat.of(1.0)
            r = self
            for _ in range(i - 1):
                r = r * self
            return r
        if i is not None and -8 <= i < 0:
            return 1.0 / (self ** (-i))
        if f == 0.5:
            return self.sqrt()
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        return uf('pow', SFloat.of(o), self)

    def _cmp(self, o, f):
        if isinstance(o, SInt):
            return SBool(f(self.e, z3.ToReal(o.e)))
        fo = _npflt(o)
        if fo is not None and isinf(fo):
            if fo != fo:
                return SBool(z3.BoolVal(False))
            return SBool(z3.simplify(f(z3.RealVal(0), z3.RealVal(1 if fo > 0 else -1))))
        i = _npint(o)
        if i is not None:
            return SBool(f(self.e, z3.RealVal(i)))
        p = SFloat.of(o)
        if p is None:
            return NotImplemented
        return SBool(f(self.e, p.e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            return False if not hasattr(o, '__array__') else r
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        if r is NotImplemented:
            return True if not hasattr(o, '__array__') else r
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().decide(self.e != 0)

    # conversions used by the symbolic builtins
    def trunc_int(self):
        import math
        lo = None if self.lo is None else math.trunc(self.lo)
        hi = None if self.hi is None else math.trunc(self.hi)
        if Ctx.cur is not None and Ctx.cur.hints:
            k = Ctx.cur.match_hint(self.e, 0, Fraction(1))
            if k is not None and ctx()._check(self.e < 0) == z3.unsat:
                return k
        if Ctx.cur is not None:
            Ctx.cur.int_monotone(self.e)
        if self.lo is not None and self.lo >= 0:
            return SInt(z3.ToInt(self.e), lo, hi)
        return SInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), lo, hi)

    def round_int(self):
        """round half to even"""
        import math
        cx = ctx()
        half = z3.RealVal(1) / 2
        if cx.hints:
            k = cx.match_hint(self.e, Fraction(-1, 2), Fraction(1, 2))
            if k is not None:
                return k
        key = ('round', self.e.get_id())
        if key in cx._rcache:
            e = cx._rcache[key][1]
        else:
            e = cx.fresh('rnd', 'I')
            er = z3.ToReal(e)
            cx.axiom(z3.And(er - half <= self.e, self.e <= er + half))
            cx.axiom(z3.Implies(z3.Or(self.e == er - half, self.e == er + half), e % 2 == 0))
            cx._rcache[key] = (self.e, e)
        return SInt(e, None if self.lo is None else round(self.lo), None if self.hi is None else round(self.hi))

    def __round__(self, n=None):
        if n is None:
            return self.round_int()
        i = _npint(n)
        s = Fraction(10) ** i
        if ctx().hints and i >= 0:
            k = ctx().match_hint(self.e * qs(s), Fraction(-1, 2), Fraction(1, 2), scale=int(s))
            if k is not None and ctx()._check(z3.Or(k.e > 2**53, k.e < -2**53)) == z3.unsat:
                return SFloat(z3.ToReal(k.e), self.lo and Fraction(math.floor(self.lo)), self.hi and Fraction(math.ceil(self.hi)), True)
        v = SFloat(self.e * qs(s), None if self.lo is None else self.lo * s, None if self.hi is None else self.hi * s)
        r = v.round_int()
        out = SFloat(z3.ToReal(r.e) / qs(s), None if r.lo is None else Fraction(r.lo) / s, None if r.hi is None else Fraction(r.hi) / s)
        o = out._round()
        return o

    def __trunc__(self): return self.trunc_int()

    def __floor__(self): return self._floor_int()

    def __ceil__(self):
        return -((-self)._floor_int())

    def is_integer(self):
        return SBool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __int__(self):
        if ctx().text:
            return self.trunc_int().__int__()
        return self.trunc_int().__index__()

    def __float__(self):
        if ctx().text:
            c = self.const()
            return ctx().float_text(self) if c is None else float(c)
        raise Unsupported("C-level float() of a symbolic float")

    # numpy object hooks
    def floor(self):
        i = self._floor_int()
        return SFloat(z3.ToReal(i.e), None if i.lo is None else Fraction(i.lo), None if i.hi is None else Fraction(i.hi), True)

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        i = self.round_int()
        return SFloat(z3.ToReal(i.e), None if i.lo is None else Fraction(i.lo), None if i.hi is None else Fraction(i.hi), True)

    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    def sqrt(self):
        r = uf('sqrt', self)
        cx = ctx()
        if cx.float_mode == 'real':
            cx.axiom(z3.Implies(self.e >= 0, z3.And(r.e * r.e == self.e, r.e >= 0)))
        return r

    def cos(self):
        c = uf('cos', self); s = uf('sin', self)
        ctx().axiom(c.e * c.e + s.e * s.e == 1)
        return c

    def sin(self):
        c = uf('cos', self); s = uf('sin', self)
        ctx().axiom(c.e * c.e + s.e * s.e == 1)
        return s

    def exp(self): return uf('exp', self)
    def log10(self): return uf('log10', self)
    def log(self): return uf('log', self)
    def arctan(self): return uf('atan', self)

    def __repr__(self): return '<sym float>'

    def __format__(self, spec):
        if not ctx().text:
            return '<sym>'
        if spec == '':
            return str(self)
        return format(float(self), spec)

    def __str__(self):
        if not ctx().text:
            return '<sym>'
        return '%.1f' % (float(self) + 0.5) if self.const() is None else str(float(self))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def uf(name, *args):
    f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    ctx().assumptions.add("%s is treated as an uninterpreted real function with the axioms listed in pv/sym.py" % name)
    return SFloat(f(*[SFloat.of(a).e for a in args]))


class SComplex:
    __slots__ = ('re', 'im')
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = SFloat.of(re)
        self.im = SFloat.of(im)

    @staticmethod
    def of(o):
        if isinstance(o, SComplex):
            return o
        if isinstance(o, complex):
            return SComplex(o.real, o.imag)
        import numpy as _n
        if isinstance(o, _n.complexfloating):
            return SComplex(float(o.real), float(o.imag))
        f = SFloat.of(o)
        if f is None:
            return None
        return SComplex(f, 0.0)

    def __add__(self, o):
        p = SComplex.of(o)
        return NotImplemented if p is None else SComplex(self.re + p.re, self.im + p.im)
    __radd__ = __add__

    def __sub__(self, o):
        p = SComplex.of(o)
        return NotImplemented if p is None else SComplex(self.re - p.re, self.im - p.im)

    def __rsub__(self, o):
        p = SComplex.of(o)
        return NotImplemented if p is None else p - self

    def __mul__(self, o):
        p = SComplex.of(o)
        return NotImplemented if p is None else SComplex(self.re * p.re - self.im * p.im, self.re * p.im + self.im * p.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = SComplex.of(o)
        if p is None:
            return NotImplemented
        if p.im.const() == 0:
            return SComplex(self.re / p.re, self.im / p.re)
        d = p.re * p.re + p.im * p.im
        n = self * p.conjugate()
        return SComplex(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        p = SComplex.of(o)
        return NotImplemented if p is None else p / self

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pow__(self, o, mod=None):
        if o == 2:
            return self * self
        raise Unsupported("complex power")

    def conjugate(self):
        return SComplex(self.re, -self.im)
    conj = conjugate

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def __eq__(self, o):
        p = SComplex.of(o)
        if p is None:
            return False
        return (self.re == p.re) & (self.im == p.im)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def __repr__(self): return '<sym complex>'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def is_sym(x):
    return isinstance(x, (SInt, SFloat, SBool, SComplex))


def And(*a):
    out = []
    for x in a:
        t = tobool(x)
        if t is False:
            return SBool(z3.BoolVal(False))
        if t is not True:
            out.append(t)
    return SBool(z3.And(*out)) if out else SBool(z3.BoolVal(True))


def Or(*a):
    out = []
    for x in a:
        t = tobool(x)
        if t is True:
            return SBool(z3.BoolVal(True))
        if t is not False:
            out.append(t)
    return SBool(z3.Or(*out)) if out else SBool(z3.BoolVal(False))


def Not(a):
    t = tobool(a)
    if isinstance(t, bool):
        return SBool(z3.BoolVal(not t))
    return SBool(z3.Not(t))


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    t = tobool(c)
    if t is True:
        return a
    if t is False:
        return b
    ia, ib = SInt.of(a), SInt.of(b)
    if ia is not None and ib is not None:
        return SInt(z3.If(t, ia.e, ib.e), _mn(ia.lo, ib.lo), _mx(ia.hi, ib.hi), min(ia.tz, ib.tz))
    fa, fb = SFloat.of(a), SFloat.of(b)
    if fa is not None and fb is not None:
        return SFloat(z3.If(t, fa.e, fb.e), _mn(fa.lo, fb.lo), _mx(fa.hi, fb.hi), g=None if fa.g is None or fb.g is None else max(fa.g, fb.g))
    raise Unsupported("Ite of non-numeric values")


class X:
    """Exact rational/real arithmetic for specifications (never rounded)."""
    __hash__ = None

    def __init__(self, v):
        if isinstance(v, X):
            self.e = v.e
        elif isinstance(v, SBool):
            self.e = z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
        elif isinstance(v, SInt):
            self.e = z3.ToReal(v.e)
        elif isinstance(v, SFloat):
            self.e = v.e
        elif isinstance(v, z3.ArithRef):
            self.e = z3.ToReal(v) if v.is_int() else v
        else:
            i = _npint(v)
            self.e = qs(i if i is not None else v)

    def _b(self, o, f):
        return X(f(self.e, X(o).e))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __neg__(self): return X(-self.e)
    def __abs__(self): return X(z3.If(self.e >= 0, self.e, -self.e))
    def floor(self): return SInt(z3.ToInt(self.e))
    def __le__(self, o): return SBool(self.e <= X(o).e)
    def __lt__(self, o): return SBool(self.e < X(o).e)
    def __ge__(self, o): return SBool(self.e >= X(o).e)
    def __gt__(self, o): return SBool(self.e > X(o).e)
    def __eq__(self, o): return SBool(self.e == X(o).e)
    def __ne__(self, o): return SBool(self.e != X(o).e)

    def near(self, o, tol):
        d = self - o
        return And(d <= tol, d >= -X(tol))


def _with_arrays(cls):
    """arithmetic of a symbolic number with a numpy array: element by element"""
    def wrap(name, op, swap):
        f = getattr(cls, name)

        def g(self, o, *a):
            if type(o) is np.ndarray:
                return np.frompyfunc((lambda v: op(v, self)) if swap else (lambda v: op(self, v)), 1, 1)(o)
            return f(self, o, *a)
        g.__name__ = name
        setattr(cls, name, g)
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        for p, swap in (('__%s__' % n, False), ('__r%s__' % n, True)):
            if hasattr(cls, p):
                wrap(p, getattr(operator, n), swap)


for _c in (SInt, SFloat, SComplex):
    _with_arrays(_c)
