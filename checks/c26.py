"""C26: arithmetic on frames and their order in time."""
import copy
import operator
import sys
from fractions import Fraction
import numpy as np
from pv import frames as F, views
from pv.sym import X, And, SComplex, SFloat

OPS = {'+': (operator.add, operator.iadd), '-': (operator.sub, operator.isub), '*': (operator.mul, operator.imul), '/': (operator.truediv, operator.itruediv)}
KINDS = ('drx', 'drx8', 'tbx', 'cor', 'vdif')
BASE = 'lsl/reader/base.py:FrameBase.'


class Arr:
    """an array of any shape, by one representative element (numpy arithmetic is element by element); operations in place change this object"""
    class dtype:
        @staticmethod
        def type(v):
            return v
    shape = (7,)

    def __init__(self, e):
        self.e = e

    def _o(self, y):
        return y.e if isinstance(y, Arr) else y

    def __deepcopy__(self, memo):
        return Arr(self.e)
    __copy__ = None

    def copy(self):
        return Arr(self.e)


for _n in ('add', 'sub', 'mul', 'truediv'):
    def _f(self, y, op=getattr(operator, _n)):
        return Arr(op(self.e, self._o(y)))

    def _g(self, y, op=getattr(operator, _n)):
        self.e = op(self.e, self._o(y))
        return self
    setattr(Arr, '__%s__' % _n, _f)
    setattr(Arr, '__i%s__' % _n, _g)


def build(m, kind, tag, data=None):
    if kind in ('drx', 'drx8'):
        return m.Frame(header=m.FrameHeader(drx_id=1, decimation=10, time_offset=0, frame_count=0, second_count=0), payload=m.FramePayload(timetag=tag, tuning_word=5, flags=0, iq=data))
    if kind == 'tbx':
        return m.Frame(header=m.FrameHeader(frame_id=8, frame_count=0, second_count=0, first_chan=3, nstand=64, nchan=12), payload=m.FramePayload(timetag=tag, fDomain=data))
    if kind == 'cor':
        return m.Frame(header=m.FrameHeader(adp_id=2, frame_count=0, second_count=0, first_chan=3, gain=3), payload=m.FramePayload(timetag=tag, navg=5, stand0=1, stand1=2, vis=data))
    if kind == 'vdif':
        return m.Frame(header=m.FrameHeader(is_invalid=0, is_legacy=0, seconds_from_epoch=tag, ref_epoch=40, frame_in_second=0, version=0, nchan=1, frame_length=132, is_complex=0,
                                            bits_per_sample=8, thread_id=0, station_id=1, extended_data_1=0, extended_data_2=0, extended_data_3=0, extended_data_4=0,
                                            sample_rate=8192e3, central_freq=0.0), payload=m.FramePayload(data=data))
    fr = m.Frame(header=m.FrameHeader(beam=1, format=int(kind[6:]), decimation=10, time_offset=0, nints=6),
                 payload=m.FramePayload(timetag=tag, tuning_words=[1, 2], fills=[1] * 4, errors=[0] * 4, saturations=[0] * 4))
    return fr


def products(fmt):
    return ['%s%d' % (p, t) for k, p in enumerate(views.PRODUCTS) if fmt >> k & 1 for t in (0, 1)]


def run(r):
    sys.path.insert(0, '/repo')
    F.install_real()
    r.trust('numpy array arithmetic is element by element', views.TRUST)
    import warnings
    warnings.simplefilter('ignore')

    # ------------------------------------------------------------------ arithmetic
    def same(cx, name, a, b):
        if isinstance(a, SComplex) or isinstance(b, SComplex):
            a, b = SComplex.of(a) if hasattr(SComplex, 'of') else a, SComplex.of(b) if hasattr(SComplex, 'of') else b
            cx.prove(name, And(X(a.re) == X(b.re), X(a.im) == X(b.im)))
        else:
            cx.prove(name, X(a) == X(b))

    def arith(kind, sym, other):
        m = views.load(kind)
        cplx = kind != 'vdif'
        op, iop = OPS[sym]

        def value(cx, n):
            if cplx:
                return SComplex(cx.real_input(n + '_re', -1000, 1000), cx.real_input(n + '_im', -1000, 1000))
            return cx.real_input(n, -1000, 1000)

        def fn(cx):
            a, b = value(cx, 'a'), (value(cx, 'b') if other == 'frame' else cx.real_input('b', -1000, 1000))
            if sym == '/':
                cx.assume((X(b.re) > 0) if isinstance(b, SComplex) else X(b) > 0)
            fa = build(m, kind, 1000, Arr(a))
            y = build(m, kind, 2000, Arr(b)) if other == 'frame' else b
            exp = op(a, b)
            da, db = fa.payload._data, (y.payload._data if other == 'frame' else None)
            s = op(fa, y)
            same(cx, '%s: frame %s %s is the data %s the data' % (kind, sym, other, sym), s.payload._data.e, exp)
            cx.prove('%s: %s of frames makes a new frame of the same kind with the first one\'s time' % (kind, sym),
                     s is not fa and type(s) is type(fa) and s.payload._data is not da and s.header is not fa.header and
                     (s.payload.timetag == 1000 if kind != 'vdif' else s.header.seconds_from_epoch == 1000))
            same(cx, '%s: %s leaves the first operand alone' % (kind, sym), fa.payload._data.e, a)
            if other == 'frame':
                same(cx, '%s: %s leaves the second operand alone' % (kind, sym), y.payload._data.e, b)
                cx.prove('%s: %s leaves the operands\' arrays in place' % (kind, sym), fa.payload._data is da and y.payload._data is db)
            z = iop(fa, y)
            same(cx, '%s: frame %s= %s' % (kind, sym, other), fa.payload._data.e, exp)
            cx.prove('%s: in place operations return the frame' % kind, z is fa)
            if other == 'frame':
                same(cx, '%s: %s= leaves the second operand alone' % (kind, sym), y.payload._data.e, b)

        def rep(i):
            g = lambda n: (complex(float(i[n + '_re'] or 0), float(i[n + '_im'] or 0)) if n + '_re' in i else float(i[n] or 0))
            dt = np.complex64 if cplx else np.float32
            a, b = np.array([g('a')] * 5, dt), g('b')
            return concrete(kind, sym, a, np.array([b] * 5, dt) if other == 'frame' else b, other == 'frame')
        r.contract('%s.py: frame %s %s' % (kind, sym, other), fn, [BASE + '__%s__' % op.__name__, BASE + '__%s__' % iop.__name__], rep)

    def concrete(kind, sym, a, b, frame):
        op, iop = OPS[sym]
        m = views.real(kind)
        fa = build(m, kind, 1000, a.copy())
        y = build(m, kind, 2000, b.copy()) if frame else b
        with np.errstate(all='ignore'):
            exp = op(a, b if frame or isinstance(b, np.ndarray) else a.dtype.type(b))
            close = lambda u, v: u.dtype == v.dtype and np.allclose(u, v, rtol=1e-5, equal_nan=True)
            s = op(fa, y)
            if not close(s.payload.data, exp):
                return '%s frame %s: %r, expected %r' % (kind, sym, s.payload.data[:3], exp[:3])
            if not np.array_equal(fa.payload.data, a) or (frame and not np.array_equal(y.payload.data, b)):
                return '%s frame %s changed an operand' % (kind, sym)
            if s is fa or s.time != fa.time:
                return '%s frame %s lost the header' % (kind, sym)
            z = iop(fa, y)
            if z is not fa or not close(fa.payload.data, exp) or (frame and not np.array_equal(y.payload.data, b)):
                return '%s frame %s= gives %r, expected %r' % (kind, sym, fa.payload.data[:3], exp[:3])

    for kind in ('drx', 'vdif'):                     # one complex and one real kind; the others share FrameBase, and are looked at below
        for sym in OPS:
            for other in ('frame', 'number'):
                arith(kind, sym, other)

    # ------------------------------------------------------------------ spectrometer frames
    def spec(fmt, sym, other):
        m = views.load('drspec')
        op, iop = OPS[sym]
        P = products(fmt)

        def fn(cx):
            a = {p: cx.real_input('a_' + p, -1000, 1000) for p in P}
            b = {p: cx.real_input('b_' + p, -1000, 1000) for p in P} if other == 'frame' else {p: cx.real_input('b', -1000, 1000) for p in P[:1]}
            if other != 'frame':
                b = {p: list(b.values())[0] for p in P}
            if sym == '/':
                for v in b.values():
                    cx.assume(X(v) > 0)
            fa = build(m, 'drspec%d' % fmt, 1000)
            for p in P:
                setattr(fa.payload, p, Arr(a[p]))
            if other == 'frame':
                y = build(m, 'drspec%d' % fmt, 2000)
                for p in P:
                    setattr(y.payload, p, Arr(b[p]))
            else:
                y = list(b.values())[0]
            s = op(fa, y)
            for p in P:
                cx.prove('drspec: frame %s %s is the data %s the data, product by product' % (sym, other, sym), X(getattr(s.payload, p).e) == X(op(a[p], b[p])))
                cx.prove('drspec: %s leaves the first operand alone' % sym, X(getattr(fa.payload, p).e) == X(a[p]))
                if other == 'frame':
                    cx.prove('drspec: %s leaves the second operand alone' % sym, X(getattr(y.payload, p).e) == X(b[p]))
            z = iop(fa, y)
            for p in P:
                cx.prove('drspec: frame %s= %s, product by product' % (sym, other), X(getattr(fa.payload, p).e) == X(op(a[p], b[p])))
                if other == 'frame':
                    cx.prove('drspec: %s= leaves the second operand alone' % sym, X(getattr(y.payload, p).e) == X(b[p]))
            cx.prove('drspec: in place operations return the frame, time kept', z is fa and fa.payload.timetag == 1000 and s is not fa)

        def rep(i):
            a = {p: np.array([float(i['a_' + p] or 0)] * 3, np.float32) for p in P}
            b = {p: np.array([float(i['b_' + p] or 0)] * 3, np.float32) for p in P} if other == 'frame' else float(i['b'] or 0)
            return concrete_spec(fmt, sym, a, b)
        r.contract('drspec.py: format %d frame %s %s' % (fmt, sym, other), fn, ['lsl/reader/drspec.py:Frame.__%s__' % f.__name__ for f in (op, iop)], rep)

    def concrete_frame(m, fmt, d, t):
        f = build(m, 'drspec%d' % fmt, t)
        for p, v in d.items():
            setattr(f.payload, p, v.copy())
        return f

    def concrete_spec(fmt, sym, a, b):
        op, iop = OPS[sym]
        m = views.real('drspec')
        mk = lambda d, t: concrete_frame(m, fmt, d, t)
        fa = mk(a, 1000)
        y = mk(b, 2000) if isinstance(b, dict) else b
        with np.errstate(all='ignore'):
            s = op(fa, y)
            for p in a:
                exp = op(a[p], b[p] if isinstance(b, dict) else np.float32(b))
                if not np.allclose(getattr(s.payload, p), exp, rtol=1e-5, equal_nan=True):
                    return 'drspec format %d frame %s: %s is %r, expected %r' % (fmt, sym, p, getattr(s.payload, p), exp)
                if not np.array_equal(getattr(fa.payload, p), a[p]) or (isinstance(b, dict) and not np.array_equal(getattr(y.payload, p), b[p])):
                    return 'drspec frame %s changed an operand (%s)' % (sym, p)
            iop(fa, y)
            for p in a:
                exp = op(a[p], b[p] if isinstance(b, dict) else np.float32(b))
                if not np.allclose(getattr(fa.payload, p), exp, rtol=1e-5, equal_nan=True):
                    return 'drspec format %d frame %s=: %s' % (fmt, sym, p)
    FMTS = (1, 9, 6, 15, 16, 144, 240)
    for fmt in FMTS:
        for sym in OPS:
            for other in ('frame', 'number'):
                spec(fmt, sym, other)

    # ------------------------------------------------------------------ order in time
    def order(kind):
        m = views.load(kind if not kind.startswith('drspec') else 'drspec')
        lo, hi = views.TAGS if kind != 'vdif' else (1, 15000000)
        if kind == 'vdif':
            m.leap_secs = views.leap_model

        def fn(cx):
            a, b = cx.int_input('a', lo, hi), cx.int_input('b', lo, hi)
            cx.assume(a < b)
            fa, fb = build(m, kind, a), build(m, kind, b)
            N = '%s: ' % kind
            cx.prove(N + 'frames compare by time', bool(fa < fb) and bool(fb > fa) and bool(fa <= fb) and bool(fb >= fa) and bool(fa != fb))
            cx.prove(N + 'frames compare by time (not the other way)', not bool(fb < fa) and not bool(fa > fb) and not bool(fb <= fa) and not bool(fa >= fb) and not bool(fa == fb))

        def rep(i):
            return order_real(kind, int(i['a']), int(i['b']))
        r.contract('%s frames order by time' % kind, fn, [BASE + '__lt__', BASE + '__eq__'], rep)

    def order_real(kind, a, b):
        m = views.real(kind if not kind.startswith('drspec') else 'drspec')
        fa, fb, fc = build(m, kind, a), build(m, kind, b), build(m, kind, a)
        for u, v, x, y in ((fa, fb, a, b), (fb, fa, b, a), (fa, fc, a, a)):
            got = (u < v, u <= v, u == v, u != v, u >= v, u > v)
            exp = (x < y, x <= y, x == y, x != y, x >= y, x > y)
            if got != exp:
                return '%s frames of times %d and %d compare as %r' % (kind, x, y, got)
            t = v.time
            got = (u < t, u <= t, u == t, u != t, u >= t, u > t)
            if got != exp:
                return '%s frame of time %d and timestamp %d compare as %r' % (kind, x, y, got)
    for kind in KINDS + ('drspec9',):
        order(kind)

    # ------------------------------------------------------------------ the real classes
    def cases():
        for kind in KINDS:
            for sym in OPS:
                for other in ('frame', 'int', 'float', 'complex', 'array'):
                    if not (kind == 'vdif' and other == 'complex'):
                        yield ('arith', kind, sym, other)
        for fmt in FMTS:
            for sym in OPS:
                for other in ('frame', 'float', 'int'):
                    yield ('spec', fmt, sym, other)
        for k in range(60):
            yield ('order', (KINDS + ('drspec9',))[k % 6], k)
        for kind in KINDS + ('drspec',):
            yield ('bad', kind)

    def one(c):
        rng = np.random.RandomState(r.rng.randrange(1 << 30))
        if c[0] == 'arith':
            _, kind, sym, other = c
            shape = {'tbx': (4, 8, 2), 'cor': (7, 2, 2)}.get(kind, (9,))
            val = lambda: (rng.randint(-50, 50, shape) + (1j * rng.randint(-50, 50, shape) if kind != 'vdif' else 0)).astype(np.complex64 if kind != 'vdif' else np.float32)
            b = {'frame': val, 'array': val, 'int': lambda: int(rng.randint(1, 9)), 'float': lambda: float(rng.uniform(.5, 9)), 'complex': lambda: complex(2.5, -1.5)}[other]()
            return concrete(kind, sym, val(), b, other == 'frame')
        if c[0] == 'spec':
            _, fmt, sym, other = c
            val = lambda: {p: rng.rand(6).astype(np.float32) + 1 for p in products(fmt)}
            return concrete_spec(fmt, sym, val(), val() if other == 'frame' else 2.5 if other == 'float' else 3)
        if c[0] == 'order':
            kind = c[1]
            a = int(rng.randint(1, 10**6)) + (1451606400 * 196000000 if kind != 'vdif' else 0)
            return order_real(kind, a, a + int(rng.randint(1, 5000) if c[2] % 2 else 1))
        m = views.real(c[1])
        if c[1] == 'drspec':
            mk = lambda fmt, t: concrete_frame(m, fmt, {p: np.ones(3, np.float32) for p in products(fmt)}, t)
            for ops in OPS.values():
                for op in ops:
                    try:
                        op(mk(15, 1000), mk(9, 1000))
                    except RuntimeError:
                        continue
                    return 'spectrometer frames of different products combined'
            return
        f = build(m, c[1], 1000, np.ones(3, np.complex64))
        for y in ('x', None, [1, 2]):
            for op in list(OPS.values()):
                for o in op:
                    try:
                        o(f, y)
                    except TypeError:
                        continue
                    return '%s frame with %r accepted' % (c[1], y)
        if not np.array_equal(f.payload.data, np.ones(3)):
            return 'a refused operand changed the data'
    r.concrete('frames of the real classes', cases(), one, limit_s=60)
