"""
numpy arrays of fixed-width numbers with symbolic elements: an object-dtype ndarray that remembers the
dtype numpy would give it and applies numpy's wrapping, promotion and casting rules to every element
(contract on numpy integer/float arrays; floats are reals or the engine's rounding model).
"""
import operator
import numpy as np
from pv.sym import SInt, SFloat, SBool, SComplex, Unsupported, is_sym, Ite, ctx
from pv.loader import NpShim, _DtypeFn, _kind, sym_int, sym_float, sym_complex, sym_bool

OPS = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'bitwise_and': operator.and_, 'bitwise_or': operator.or_,
       'bitwise_xor': operator.xor, 'left_shift': operator.lshift, 'right_shift': operator.rshift, 'floor_divide': operator.floordiv,
       'remainder': operator.mod, 'true_divide': operator.truediv, 'divide': operator.truediv, 'negative': operator.neg, 'positive': lambda a: a,
       'invert': operator.invert, 'power': operator.pow, 'absolute': abs, 'square': lambda a: a * a,
       'conjugate': lambda a: a.conjugate(), 'rint': lambda a: SFloat.of(a).rint() if not isinstance(a, (SInt, int)) else a,
       'minimum': lambda a, b: Ite(a < b, a, b) if is_sym(a) or is_sym(b) else min(a, b),
       'maximum': lambda a, b: Ite(a > b, a, b) if is_sym(a) or is_sym(b) else max(a, b)}
FAST = {'rint': lambda a: float(np.rint(a))}
CMP = {'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge}
LOG = {'logical_and': lambda a, b: a & b, 'logical_or': lambda a, b: a | b}


def undt(d):
    if isinstance(d, _DtypeFn):
        d = d.t
    d = {sym_int: np.int64, sym_float: np.float64, sym_complex: np.complex128, sym_bool: np.bool_}.get(d, d) if isinstance(d, type) else d
    return np.dtype(d)


def rng(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


def wrap(v, dt):
    """an integer as numpy stores it in dt"""
    lo, hi = rng(dt)
    if not isinstance(v, SInt):
        v = int(v)
        return (v - lo) % (hi - lo + 1) + lo
    if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
        return v
    r = (v - lo) % (hi - lo + 1) + lo
    return SInt(r.e, lo, hi, min(v.tz, (hi - lo).bit_length() - 1))


def cast(v, src, dt):
    """element of dtype src stored in an array of dtype dt (astype / unsafe casting)"""
    if dt.kind in 'iu':
        if isinstance(v, SBool):
            v = v._int()
        if src is not None and src.kind == 'c':
            raise Unsupported('complex to integer')
        if isinstance(v, (float, np.floating)):
            return int(np.array(v).astype(dt))
        if isinstance(v, SFloat):
            v = SFloat.of(v).trunc_int()
            lo, hi = rng(dt)
            ctx().prove('float to %s conversion is in range' % dt, (v >= lo) & (v <= hi))
            return v
        return wrap(v, dt)
    if dt.kind == 'f':
        if isinstance(v, (SComplex, complex)):
            raise Unsupported('complex to float')
        return SFloat.of(v) if is_sym(v) else float(v)
    if dt.kind == 'c':
        return SComplex.of(v) if is_sym(v) else complex(v)
    if dt.kind == 'b':
        return v
    raise Unsupported('dtype %s' % dt)


def logical(x):
    """dtype of an operand, or a Python scalar standing for its weak type"""
    if isinstance(x, TArr):
        return x.dt
    if isinstance(x, (np.ndarray, np.generic)):
        if x.dtype == object:
            e = x.reshape(-1)[0] if x.size else 0
            return logical(e)
        return x.dtype
    if isinstance(x, (SBool, bool)):
        return np.dtype(bool)
    if isinstance(x, (SInt, int)):
        return 1
    if isinstance(x, (SFloat, float)):
        return 1.0
    if isinstance(x, (SComplex, complex)):
        return 1j
    if isinstance(x, (list, tuple)):
        return logical(np.asarray(x))
    raise Unsupported('operand %s' % type(x).__name__)


def rtype(*ls):
    if all(not isinstance(l, np.dtype) for l in ls):
        return np.result_type(*[np.asarray(l).dtype for l in ls])
    return np.result_type(*ls)


class TArr(np.ndarray):
    def __new__(cls, elems, dt):
        a = np.empty(np.shape(elems) if not is_sym(elems) else (), dtype=object)
        if a.ndim == 0:
            a[()] = elems
        else:
            src = np.asarray(elems, dtype=object)
            a[...] = src
        o = a.view(cls)
        o.dt = np.dtype(dt)
        return o

    @classmethod
    def zeros(cls, shape, dt):
        a = np.empty(shape, dtype=object)
        dt = np.dtype(dt)
        a.fill({'i': 0, 'u': 0, 'f': 0.0, 'c': 0j, 'b': False}[dt.kind])
        o = a.view(cls)
        o.dt = dt
        return o

    def __array_finalize__(self, obj):
        if obj is not None and not hasattr(self, 'dt'):
            self.dt = getattr(obj, 'dt', None)

    @property
    def dtype(self):
        return self.dt if self.dt is not None else np.ndarray.dtype.__get__(self)

    @property
    def itemsize(self):
        return self.dt.itemsize

    def raw(self):
        return self.view(np.ndarray)

    # element access keeps numpy scalar semantics: a 0-d TArr
    def __getitem__(self, k):
        k = _key(k)
        v = np.ndarray.__getitem__(self.raw(), k)
        if isinstance(v, np.ndarray):
            o = v.view(TArr)
            o.dt = self.dt
            return o
        return TArr(v, self.dt)

    def __setitem__(self, k, v):
        k = _key(k)
        if isinstance(v, TArr):
            src = v.dt
            f = np.frompyfunc(lambda e: cast(e, src, self.dt), 1, 1)
            v = f(v.raw())
        elif isinstance(v, (np.ndarray, np.generic)) and v.dtype != object:
            f = np.frompyfunc(lambda e: cast(e, None, self.dt), 1, 1)
            v = f(v.astype(object))
        elif isinstance(v, (list, tuple)):
            v = np.frompyfunc(self._store1, 1, 1)(np.array(v, dtype=object))
        elif isinstance(v, np.ndarray):
            v = np.frompyfunc(self._store1, 1, 1)(v)
        else:
            v = self._store1(v)
        self.raw()[k] = v

    def _store1(self, v):
        if isinstance(v, TArr):
            return cast(v.item0(), v.dt, self.dt)
        if self.dt.kind in 'iu' and isinstance(v, (int, SInt)):
            lo, hi = rng(self.dt)
            ok = (v >= lo) & (v <= hi) if isinstance(v, SInt) else lo <= v <= hi
            if not ok:
                raise OverflowError('Python integer out of bounds for %s' % self.dt)
            return v
        return cast(v, None, self.dt)

    def item0(self):
        return self.raw().reshape(-1)[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        if kw.get('where', True) is not True:
            raise Unsupported('ufunc where')
        raws = [x.raw() if isinstance(x, TArr) else (x.astype(object) if isinstance(x, (np.ndarray, np.generic)) and x.dtype != object else x) for x in inputs]
        n = uf.__name__
        if method == 'reduce' and n in OPS:
            r = np.add.reduce(raws[0], **{k: v for k, v in kw.items() if k in ('axis', 'keepdims')}) if n == 'add' else None
            if r is None:
                raise Unsupported('reduce ' + n)
            dt = self.dt if self.dt.kind != 'b' else np.dtype(int)
            if self.dt.kind in 'iu':
                dt = np.dtype('i8' if self.dt.kind == 'i' else 'u8')
            return _mk(r, dt)
        if method != '__call__':
            raise Unsupported('ufunc method ' + method)
        if n in CMP or n in LOG:
            f = CMP.get(n) or LOG[n]
            r = np.frompyfunc(f, 2, 1)(*raws)
            return _mk(r, np.dtype(bool))
        if n == 'logical_not':
            return _mk(np.frompyfunc(lambda a: ~a if is_sym(a) else not a, 1, 1)(raws[0]), np.dtype(bool))
        if n not in OPS:
            raise Unsupported('ufunc ' + n)
        ls = [logical(x) for x in inputs]
        dt = rtype(*ls)
        if n in ('true_divide', 'divide') and dt.kind in 'iub':
            dt = np.dtype(float)
        if n == 'absolute' and dt.kind == 'c':
            dt = np.dtype('f4' if dt.itemsize == 8 else 'f8')
        if n == 'rint' and dt.kind in 'iu':
            dt = np.dtype(float)
        if dt.kind in 'iu':
            for x, l in zip(inputs, ls):
                if not isinstance(l, np.dtype) and not is_sym(x) and isinstance(x, int) and n not in ('left_shift', 'right_shift'):
                    lo, hi = rng(dt)
                    if not lo <= x <= hi:
                        raise OverflowError('Python integer %d out of bounds for %s' % (x, dt))
        op = OPS[n]

        def f(*a):
            if not any(is_sym(x) for x in a) and n in FAST:
                v = FAST[n](*a)
                return wrap(v, dt) if dt.kind in 'iu' else v
            if dt.kind == 'f' and n not in ('rint', 'absolute'):
                a = [SFloat.of(x) if isinstance(x, SInt) else x for x in a]
            v = op(*a)
            return wrap(v, dt) if dt.kind in 'iu' else v
        r = np.frompyfunc(f, len(raws), 1)(*raws)
        if out is not None:
            o = out[0]
            if not np.can_cast(dt, o.dt, 'same_kind'):
                raise TypeError('cannot cast ufunc output from %s to %s' % (dt, o.dt))
            o.raw()[...] = np.frompyfunc(lambda e: cast(e, dt, o.dt), 1, 1)(r)
            return o
        return _mk(r, dt)

    # numpy defers to scalars of higher priority: symbolic scalars are elements here
    for _n, _u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide), ('floordiv', np.floor_divide), ('mod', np.remainder)):
        exec('def __%s__(self, o, u=_u): return u(self, o)\ndef __r%s__(self, o, u=_u): return u(o, self)' % (_n, _n))
    del _n, _u

    def astype(self, d, *a, **k):
        d = undt(d)
        return _mk(np.frompyfunc(lambda e: cast(e, self.dt, d), 1, 1)(self.raw()), d)

    @property
    def real(self):
        if self.dt.kind != 'c':
            return self
        return _mk(np.frompyfunc(lambda e: e.real, 1, 1)(self.raw()), 'f4' if self.dt.itemsize == 8 else 'f8')

    @property
    def imag(self):
        if self.dt.kind != 'c':
            return TArr.zeros(self.shape, self.dt)
        return _mk(np.frompyfunc(lambda e: e.imag, 1, 1)(self.raw()), 'f4' if self.dt.itemsize == 8 else 'f8')

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    def round(self, n=0, **k):
        if n:
            raise Unsupported('round to %d digits' % n)
        if self.dt.kind in 'iu':
            return self.copy()
        if self.dt.kind == 'c':
            return _mk(np.frompyfunc(lambda e: SComplex(SFloat.of(SComplex.of(e).re).rint(), SFloat.of(SComplex.of(e).im).rint()), 1, 1)(self.raw()), self.dt)
        return np.rint(self)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def copy(self, *a):
        return _mk(self.raw().copy(), self.dt)

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis)

    def tolist(self):
        return self.raw().tolist()

    def __bool__(self):
        return bool(self.item0())

    def __index__(self):
        return self.item0().__index__()

    def __sym_int__(self):
        v = self.item0()
        return v.trunc_int() if isinstance(v, SFloat) else int(v) if not is_sym(v) else v

    def __hash__(self):
        return hash(self.item0())

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is None:
            raise Unsupported('numpy function ' + func.__name__)
        return h(*args, **kwargs)


def _key(k):
    def one(x):
        if isinstance(x, TArr) and x.dt.kind == 'b':
            return np.array([bool(e) for e in x.raw().reshape(-1)], dtype=bool).reshape(x.shape)
        if isinstance(x, TArr):
            return np.array([e.__index__() for e in x.raw().reshape(-1)], dtype=int).reshape(x.shape)
        if isinstance(x, SInt):
            return x.__index__()
        return x
    return tuple(one(x) for x in k) if isinstance(k, tuple) else one(k)


def _mk(r, dt):
    if isinstance(r, np.ndarray):
        o = r.view(TArr)
        o.dt = np.dtype(dt)
        return o
    return TArr(r, dt)


def _cat(arrs, axis=0, **k):
    dt = rtype(*[logical(a) for a in arrs])
    return _mk(np.concatenate([np.asarray(a.raw() if isinstance(a, TArr) else a, dtype=object) for a in arrs], axis=axis), dt)


def _stack(arrs, axis=0, **k):
    dt = rtype(*[logical(a) for a in arrs])
    return _mk(np.stack([np.asarray(a.raw() if isinstance(a, TArr) else a, dtype=object) for a in arrs], axis=axis), dt)


FUNCS = {'concatenate': _cat, 'stack': _stack, 'squeeze': lambda a, axis=None: _mk(np.squeeze(a.raw(), axis), a.dt),
         'round': lambda a, decimals=0, **k: a.round(decimals), 'around': lambda a, decimals=0, **k: a.round(decimals),
         'clip': lambda a, lo=None, hi=None, **k: a.clip(lo, hi), 'real': lambda a: a.real, 'imag': lambda a: a.imag,
         'ravel': lambda a, **k: _mk(a.raw().ravel(), a.dt), 'reshape': lambda a, *s, **k: _mk(np.reshape(a.raw(), *s), a.dt),
         'transpose': lambda a, *s: _mk(np.transpose(a.raw(), *s), a.dt), 'copy': lambda a, **k: a.copy(),
         'sum': lambda a, axis=None, **k: a.sum(axis), 'shape': lambda a: a.shape, 'size': lambda a: a.size, 'ndim': lambda a: a.ndim,
         'where': lambda c, *a: _where(c, *a), 'zeros_like': lambda a, dtype=None, **k: TArr.zeros(a.shape, undt(dtype) if dtype is not None else a.dt)}


def _where(c, *a):
    if not a:
        return np.where(_key(c))
    dt = rtype(*[logical(x) for x in a])
    f = np.frompyfunc(lambda cc, x, y: Ite(cc, x, y) if is_sym(cc) else (x if cc else y), 3, 1)
    return _mk(f(*[x.raw() if isinstance(x, TArr) else x for x in (c,) + a]), dt)


class TNp(NpShim):
    """numpy whose new arrays remember their dtype"""
    def zeros(self, shape, dtype=float, **k):
        return TArr.zeros(shape, undt(dtype))
    empty = zeros

    def ones(self, shape, dtype=float, **k):
        return TArr.zeros(shape, undt(dtype)) + 1

    def zeros_like(self, a, dtype=None, **k):
        return TArr.zeros(np.shape(a), undt(dtype) if dtype is not None else logical(a))
    empty_like = zeros_like

    def arange(self, *a, dtype=None, **k):
        r = np.arange(*a)
        d = undt(dtype) if dtype is not None else r.dtype
        return _mk(r.astype(object), d)

    def array(self, v, dtype=None, **k):
        if isinstance(v, TArr):
            return v.copy() if dtype is None else v.astype(dtype)
        a = np.array(v, dtype=object)
        if a.dtype == object and any(is_sym(x) or isinstance(x, TArr) for x in a.reshape(-1)):
            d = undt(dtype) if dtype is not None else rtype(*[logical(x) for x in a.reshape(-1)])
            o = TArr.zeros(a.shape, d)
            o[...] = a
            return o
        r = np.array(v, dtype=undt(dtype) if dtype is not None else None)
        if r.dtype.kind in 'iufcb':
            return _mk(r.astype(object), r.dtype)
        return r
    asarray = array

    def frombuffer(self, b, dtype=float, **k):
        r = NpShim.frombuffer(self, b, dtype, **k)
        return TArr(r, np.uint8) if r.dtype == object else self.array(r)

    def squeeze(self, a, axis=None):
        return FUNCS['squeeze'](a, axis) if isinstance(a, TArr) else np.squeeze(a, axis)

    def round(self, x, n=0, **k):
        return x.round(n) if isinstance(x, TArr) else NpShim.round(self, x, n)
    around = round

    def clip(self, a, lo, hi, **k):
        return a.clip(lo, hi) if isinstance(a, TArr) else NpShim.clip(self, a, lo, hi)

    def where(self, c, *a):
        return _where(c, *a) if isinstance(c, TArr) or any(isinstance(x, TArr) for x in a) else NpShim.where(self, c, *a)

    def sum(self, a, axis=None, **k):
        return a.sum(axis) if isinstance(a, TArr) else np.sum(a, axis=axis)

    def rint(self, a):
        return np.rint(a) if isinstance(a, TArr) else NpShim.rint(self, a)

    minimum = staticmethod(lambda a, b: np.minimum(a, b))
    maximum = staticmethod(lambda a, b: np.maximum(a, b))
    abs = staticmethod(lambda a: abs(a))
    conj = staticmethod(lambda a: np.conjugate(a) if isinstance(a, np.ndarray) else a.conjugate())


tnp = TNp()
