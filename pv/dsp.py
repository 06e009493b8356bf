"""Harness for the numerical extension modules (correlator, spectra, beamforming, gridding, simulation): symbolic arrays in,
arrays of real expressions out.  FFTW, libm and the NumPy constructors are contracts here."""
import itertools
import math
import struct
from fractions import Fraction
import numpy as np
import z3
from . import irx, capi
from .irx import Ptr, NULL, Fl, MemFault, F32, F64, T, toreal, isz, bv
from .sym import Unsupported

TYP = {'i1': (1, 1), 'u1': (2, 1), 'i2': (3, 2), 'i4': (5, 4), 'i8': (7, 8), 'f4': (11, 4), 'f8': (12, 8), 'c8': (14, 8), 'c16': (15, 16), 'b1': (0, 1)}
COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
_ext = {}


def Q(v):
    q = Fraction(v)
    return z3.Q(q.numerator, q.denominator)


def norm(e):
    return z3.simplify(e, som=True)


def twiddle(p, n):
    """(cos, sin) of -2 pi p/n: exact for multiples of a quarter turn, else double precision constants"""
    f = Fraction(p, n) % 1
    t = {Fraction(0): (1, 0), Fraction(1, 4): (0, -1), Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, 1)}.get(f)
    if t:
        return Q(t[0]), Q(t[1])
    return Q(math.cos(2 * math.pi * float(f))), Q(-math.sin(2 * math.pi * float(f)))


_poly = {}


def poly(e):
    """polynomial of a real expression: {sorted tuple of atom ids: coefficient}; anything but + - * and division by a constant is an atom"""
    e = e if isz(e) else Q(e)
    k = e.get_id()
    if k in _poly and _poly[k][0].eq(e):
        return _poly[k][1]
    d = e.decl().kind()
    ch = e.children()
    if z3.is_rational_value(e):
        v = e.as_fraction()
        r = {(): v} if v else {}
    elif d == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) + v
    elif d == z3.Z3_OP_SUB:
        r = dict(poly(ch[0]))
        for c in ch[1:]:
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) - v
    elif d == z3.Z3_OP_UMINUS:
        r = {m: -v for m, v in poly(ch[0]).items()}
    elif d == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch:
            q = poly(c)
            t = {}
            for m1, v1 in r.items():
                for m2, v2 in q.items():
                    m = tuple(sorted(m1 + m2))
                    t[m] = t.get(m, 0) + v1 * v2
            r = t
    elif d == z3.Z3_OP_DIV and list(poly(ch[1])) == [()]:
        v = poly(ch[1])[()]
        r = {m: w / v for m, w in poly(ch[0]).items()}
    elif d == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
        r = {(): Fraction(ch[0].as_long())}
    else:
        r = {(str(k),): Fraction(1)}
        _atoms[str(k)] = e
    r = {m: v for m, v in r.items() if v != 0}
    _poly[k] = (e, r)
    return r


_atoms = {}


def phasor(cx, theta):
    """(cos, sin) of a real expression as a polynomial in the unit phasors of its monomials"""
    out = (Q(1), Q(0))
    for m, v in sorted(poly(theta).items()):
        f = float(v)
        if not m:
            c, s = Q(math.cos(f)), Q(math.sin(f))
        else:
            name = '%.11g*%s' % (abs(f), '*'.join(_atoms[x].sexpr() for x in m))
            c, s = z3.Real('cos[%s]' % name), z3.Real('sin[%s]' % name)
            cx.axiom(c * c + s * s == 1)
            s = s if f > 0 else -s
        out = cmul(out, (c, s))
    return out


def dft(xs):
    """sum_n x[n] exp(-2 pi i n k/N) for complex pairs of real expressions"""
    N = len(xs)
    out = []
    for k in range(N):
        re, im = Q(0), Q(0)
        for n, (a, b) in enumerate(xs):
            c, s = twiddle(n * k, N)
            re = re + (a * c - b * s)
            im = im + (a * s + b * c)
        out.append((re, im))
    return out


def bessel_j1(x):
    """Bessel's integral (the trapezoid rule is exact to rounding for a periodic integrand)"""
    n = 64 + 4 * int(abs(x))
    return sum(math.cos(t - x * math.sin(t)) for t in (2 * math.pi * k / n for k in range(n))) / n


class DspEnv(capi.PyEnv):
    """C library and FFTW contracts"""

    def f_PyImport_ImportModule(self, a):
        self.err = ('ImportError', 'no module')          # wisdom not found: the documented fallback
        return NULL

    def f__import_array(self, a):
        for n in self.ex.mod.globals:
            if n.endswith('PyArray_API'):
                self.ex.put(self.ex.glob(n).o, 0, 8, Ptr(self.ex.mload(Ptr(self.api_var(), 0), irx.PTR).o, 0))
        return 0

    def f_PyErr_WarnEx(self, a):
        self.err = None
        return 0

    def f_PyCallable_Check(self, a):
        return int('call' in self.obj(a[0]).attrs)

    def f_PyObject_CallObject(self, a):
        o = self.obj(a[0]).attrs
        if 'call' not in o:
            raise Unsupported('call of an object')
        return o['call'](self, [x for x in self.obj(a[1]).attrs['items']])

    def f_PyBool_FromLong(self, a):
        return self.new('bool', v=a[0])

    def f_posix_memalign(self, a):
        if not isinstance(a[2], int):
            raise Unsupported('allocation of symbolic size')
        self.ex.mstore(a[0], irx.PTR, Ptr(self.ex.alloc('aligned memory', a[2]), 0))
        return 0

    def f_fftwf_malloc(self, a):
        return Ptr(self.ex.alloc('fftw memory', a[0]), 0)

    f_fftw_malloc = f_fftwf_malloc

    def f_fftwf_free(self, a):
        return self.f_free(a)

    def _plan(self, a, kind):
        rank, n, howmany, inp, inembed, istride, idist, out, onembed, ostride, odist = a[:11]
        if rank != 1:
            raise Unsupported('FFT of rank %r' % rank)
        m = self.ex.mload(n, irx.I32)
        o = self.ex.alloc('fftw plan', 8, kind='plan')
        o.attrs = dict(n=m, howmany=howmany, istride=istride, idist=idist, ostride=ostride, odist=odist, kind=kind, sign=irx.sgn(a[11], 32) if kind == 'c' else -1)
        return Ptr(o, 0)

    def f_fftwf_plan_many_dft(self, a): return self._plan(a, 'c')
    def f_fftwf_plan_many_dft_r2c(self, a): return self._plan(a, 'r')

    def _plan1(self, a, kind):
        o = self.ex.alloc('fftw plan', 8, kind='plan')
        n = a[0]
        o.attrs = dict(n=n, howmany=1, istride=1, idist=n, ostride=1, odist=n, kind=kind, sign=irx.sgn(a[3], 32) if kind == 'c' else -1)
        return Ptr(o, 0)

    def f_fftwf_plan_dft_1d(self, a): return self._plan1(a, 'c')
    def f_fftwf_plan_dft_r2c_1d(self, a): return self._plan1(a, 'r')

    def f_fftwf_destroy_plan(self, a):
        if a[0].o is None or a[0].o.freed:
            raise MemFault('plan destroyed twice')
        a[0].o.freed = True

    def _exec(self, a, kind):
        if a[0].o is None or a[0].o.freed or a[0].o.attrs['kind'] != kind:
            raise MemFault('execution of an invalid plan')
        p = a[0].o.attrs
        ex = self.ex

        def rd(q, k, cplx):
            o = q.off + (8 if cplx else 4) * k
            v = [ex.mload(Ptr(q.o, o + 4 * j), F32) for j in range(2 if cplx else 1)]
            if any(x is irx.UNDEF for x in v):
                raise MemFault('FFT of uninitialised data')
            v = [toreal(x) for x in v]
            return (v[0], v[1]) if cplx else (v[0], Q(0))
        outs = []
        for b in range(p['howmany']):
            xs = [rd(a[1], b * p['idist'] + k * p['istride'], kind == 'c') for k in range(p['n'])]
            ys = dft(xs)
            if p['sign'] == 1:
                ys = [ys[0]] + ys[1:][::-1]
            if kind == 'r':
                ys = ys[:p['n'] // 2 + 1]
            for k, y in enumerate(ys):
                outs.append((b * p['odist'] + k * p['ostride'], y))
        for k, (re, im) in outs:
            ex.mstore(Ptr(a[2].o, a[2].off + 8 * k), F32, Fl(re=re))
            ex.mstore(Ptr(a[2].o, a[2].off + 8 * k + 4), F32, Fl(re=im))

    # -- two-dimensional and real transforms: inputs are polynomials, transformed coefficient by coefficient in double precision
    def f_fftwf_plan_dft_2d(self, a):
        o = self.ex.alloc('fftw plan', 8, kind='plan')
        o.attrs = dict(n=(a[0], a[1]), kind='2', sign=irx.sgn(a[4], 32))
        return Ptr(o, 0)

    def f_fftwf_plan_r2r_1d(self, a):
        o = self.ex.alloc('fftw plan', 8, kind='plan')
        o.attrs = dict(n=a[0], kind='k', inp=a[1], out=a[2], which=a[3])
        return Ptr(o, 0)

    def _reals(self, p, n):
        """{monomial: float array} of n consecutive floats"""
        out = {}
        for k in range(n):
            v = self.ex.mload(Ptr(p.o, p.off + 4 * k), F32)
            if v is irx.UNDEF:
                raise MemFault('FFT of uninitialised data')
            for m, c in ([((), v)] if isinstance(v, float) else poly(toreal(v)).items()):
                if m not in out:
                    out[m] = np.zeros(n)
                out[m][k] = float(c)
        return out

    def _put_reals(self, p, n, d):
        at = _atoms
        ms = sorted(d)
        atom = {m: [at[x] for x in m] for m in ms}
        for k in range(n):
            if not any(ms):
                self.ex.mstore(Ptr(p.o, p.off + 4 * k), F32, float(d[()][k]) if ms else 0.0)
                continue
            e = None
            for m in ms:
                c = float(d[m][k])
                if abs(c) < 1e-18:
                    continue
                t = Q(c)
                for x in atom[m]:
                    t = t * x
                e = t if e is None else e + t
            self.ex.mstore(Ptr(p.o, p.off + 4 * k), F32, 0.0 if e is None else Fl(re=e))

    def f_fftwf_execute(self, a):
        if a[0].o is None or a[0].o.freed or a[0].o.attrs['kind'] != 'k':
            raise MemFault('execution of an invalid plan')
        p = a[0].o.attrs
        if p['which'] != 4:
            raise Unsupported('real transform %r' % p['which'])
        n = p['n']
        d = self._reals(p['inp'], n)
        j, k = np.arange(n), np.arange(n)[:, None]
        M = 2 * np.cos(math.pi * j * (k + 0.5) / n)
        M[:, 0] = 1
        self._put_reals(p['out'], n, {m: M @ v for m, v in d.items()})

    def _exec2(self, a):
        p = a[0].o.attrs
        n = p['n'][0] * p['n'][1]
        d = self._reals(a[1], 2 * n)
        out = {}
        for m, v in d.items():
            z = (v[0::2] + 1j * v[1::2]).reshape(p['n'])
            z = (np.fft.fft2(z) if p['sign'] == -1 else np.fft.ifft2(z) * n).ravel()
            out[m] = np.stack([z.real, z.imag], axis=1).ravel()
        self._put_reals(a[2], 2 * n, out)

    def f_gsl_sf_bessel_I0(self, a):
        if isinstance(a[0], float):
            return float(np.i0(a[0]))
        raise Unsupported('bessel function of a symbolic float')

    def f_gsl_sf_bessel_J1(self, a):
        if isinstance(a[0], float):
            return bessel_j1(a[0])
        raise Unsupported('bessel function of a symbolic float')

    def _lib(self, f, a):
        if all(isinstance(x, float) for x in a):
            return f(*a)
        raise Unsupported('%s of a symbolic float' % f.__name__)

    def f_asin(self, a): return self._lib(math.asin, a)
    def f_acos(self, a): return self._lib(math.acos, a)
    def f_atan2(self, a): return self._lib(math.atan2, a)
    def f_tan(self, a): return self._lib(math.tan, a)
    def f_j1(self, a): return self._lib(bessel_j1, a)

    def f_fftwf_execute_dft(self, a):
        if a[0].o is not None and not a[0].o.freed and a[0].o.attrs['kind'] == '2':
            return self._exec2(a)
        return self._exec(a, 'c')

    def f_fftwf_execute_dft_r2c(self, a): return self._exec(a, 'r')

    # -- libm
    def _un(self, x, f, uf, w):
        if isinstance(x, float):
            v = f(x)
            return irx.f32r(v) if w == 32 else v
        return Fl(re=phasor(self.cx, toreal(x))[0 if uf is COS else 1], w=w)

    def f_sqrt(self, a):
        if isinstance(a[0], float):
            return math.sqrt(a[0])
        s = SQRT(norm(toreal(a[0])))
        self.cx.axiom(z3.And(s >= 0, s * s == toreal(a[0])))
        return Fl(re=s, w=64)

    def f_sqrtf(self, a):
        v = self.f_sqrt(a)
        return irx.f32r(v) if isinstance(v, float) else v

    f_llvm_sqrt_f64, f_llvm_sqrt_f32 = f_sqrt, f_sqrtf

    def f_sin(self, a): return self._un(a[0], math.sin, SIN, 64)
    def f_cos(self, a): return self._un(a[0], math.cos, COS, 64)
    def f_sinf(self, a): return self._un(a[0], math.sin, SIN, 32)
    def f_cosf(self, a): return self._un(a[0], math.cos, COS, 32)

    def f_fabs(self, a):
        if isinstance(a[0], float):
            return abs(a[0])
        r = toreal(a[0])
        return Fl(re=z3.If(r < 0, -r, r), w=64)

    def f_fabsf(self, a):
        v = self.f_fabs(a)
        return v if isinstance(v, float) else Fl(re=v.re, w=32)

    f_llvm_fabs_f32, f_llvm_fabs_f64 = f_fabsf, f_fabs

    def _floor(self, x, f, w):
        if isinstance(x, float):
            return float(f(x))
        raise Unsupported('%s of a symbolic float' % f.__name__)

    def f_floor(self, a): return self._floor(a[0], math.floor, 64)
    def f_ceil(self, a): return self._floor(a[0], math.ceil, 64)
    f_floorf = f_llvm_floor_f32 = f_llvm_floor_f64 = f_floor
    f_ceilf = f_llvm_ceil_f32 = f_llvm_ceil_f64 = f_ceil

    def _pattern(self, n):
        for k, f in (('smax', max), ('smin', min)):
            if n.startswith('llvm.%s.i' % k):
                w = int(n.rsplit('.i', 1)[1])

                def mm(a, f=f, w=w, k=k):
                    if isinstance(a[0], int) and isinstance(a[1], int):
                        return f(irx.sgn(a[0], w), irx.sgn(a[1], w)) & ((1 << w) - 1)
                    x, y = bv(a[0], w), bv(a[1], w)
                    return z3.If(x > y, x, y) if k == 'smax' else z3.If(x < y, x, y)
                return mm
        if n.startswith('llvm.umax.i') or n.startswith('llvm.abs.i'):
            w = int(n.rsplit('.i', 1)[1])

            def um(a):
                if n.startswith('llvm.abs'):
                    if isinstance(a[0], int):
                        return abs(irx.sgn(a[0], w)) & ((1 << w) - 1)
                    return z3.If(a[0] < 0, -a[0], a[0])
                if isinstance(a[0], int) and isinstance(a[1], int):
                    return max(a[0], a[1])
                x, y = bv(a[0], w), bv(a[1], w)
                return z3.If(z3.UGT(x, y), x, y)
            return um
        return super()._pattern(n)

    def _div(self, a, ty):
        p, q, r, s = a
        f = self.ex.fbin
        d = f('fadd', ty, f('fmul', ty, r, r), f('fmul', ty, s, s))
        return [f('fdiv', ty, f('fadd', ty, f('fmul', ty, p, r), f('fmul', ty, q, s)), d),
                f('fdiv', ty, f('fsub', ty, f('fmul', ty, q, r), f('fmul', ty, p, s)), d)]

    def f___divsc3(self, a): return self._div(a, F32)
    def f___divdc3(self, a): return self._div(a, F64)

    def f_pow(self, a):
        if isinstance(a[0], float) and isinstance(a[1], float):
            return math.pow(a[0], a[1])
        if isinstance(a[1], float) and a[1] == int(a[1]) and 0 < a[1] < 6:
            v = a[0]
            for _ in range(int(a[1]) - 1):
                v = self.ex.fbin('fmul', F64, v, a[0])
            return v
        raise Unsupported('pow')

    def lround(self, x, ceil=None):
        """nearest integer of a symbolic real: an integer the path conditions determine"""
        if isinstance(x, float):
            return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1) & (1 << 64) - 1
        r = toreal(x)
        cx = self.cx
        for k in getattr(self, 'round_to', ()):
            if cx._check(z3.Not(z3.And(r > k - Q('1/2'), r < k + Q('1/2')))) == z3.unsat:
                return k & (1 << 64) - 1
        raise Unsupported('rounding of %s' % r)

    def f_lround(self, a): return self.lround(a[0])
    f_lroundf = f_lround

    def round_(self, x):
        if isinstance(x, float):
            return super().round_(x)
        k = self.lround(x)
        return float(irx.sgn(k, 64))

    def _pair(self, a, w):
        """complex argument as passed by the ABI: one vector of two floats or two doubles"""
        if isinstance(a[0], list):
            return a[0]
        return a[:2]

    def _cexp(self, a, w):
        re, im = self._pair(a, w)
        z = isinstance(re, float) and re == 0.0
        if not z and not isinstance(re, float) and z3.is_rational_value(norm(toreal(re))) and norm(toreal(re)).as_fraction() == 0:
            z = True
        if isinstance(im, float) and (z or isinstance(re, float)):
            m = math.exp(re) if not z else 1.0
            return [m * math.cos(im), m * math.sin(im)]
        c, s = (Fl(re=x, w=w) for x in phasor(self.cx, toreal(im)))
        if z:
            return [c, s]
        e = Fl(re=EXP(norm(toreal(re))), w=w)
        ty = F32 if w == 32 else F64
        return [self.ex.fbin('fmul', ty, e, c), self.ex.fbin('fmul', ty, e, s)]

    def f_cexp(self, a): return self._cexp(a, 64)
    def f_cexpf(self, a): return self._cexp(a, 32)

    def _cabs(self, a, w):
        re, im = self._pair(a, w)
        if isinstance(re, float) and isinstance(im, float):
            return math.hypot(re, im)
        x, y = toreal(re), toreal(im)
        s = SQRT(norm(x * x + y * y))
        self.cx.axiom(z3.And(s >= 0, s * s == x * x + y * y))
        return Fl(re=s, w=w)

    def f_cabs(self, a): return self._cabs(a, 64)
    def f_cabsf(self, a): return self._cabs(a, 32)
    f_hypot = f_cabs
    f_hypotf = f_cabsf

    def _mul(self, a, ty):
        p, q, r, s = a
        f = self.ex.fbin
        return [f('fsub', ty, f('fmul', ty, p, r), f('fmul', ty, q, s)), f('fadd', ty, f('fmul', ty, p, s), f('fmul', ty, q, r))]

    def f___mulsc3(self, a): return self._mul(a, F32)
    def f___muldc3(self, a): return self._mul(a, F64)

    def fptosi(self, v, m):
        r = norm(toreal(v))
        if z3.is_rational_value(r):
            return int(r.as_fraction()) & ((1 << m) - 1)
        for k in getattr(self, 'round_to', ()):
            if self.cx._check(z3.Not(z3.And(r >= k, r < k + 1) if k >= 0 else z3.And(r > k - 1, r <= k))) == z3.unsat:
                return k & ((1 << m) - 1)
        raise Unsupported('float to integer of %s' % r)

    def f_PyArray_FromAny(self, a):
        o = self.obj(a[0]).attrs
        if o['type'] == 'ndarray' and isinstance(a[1], Ptr) and a[1].o is not None:
            t = self.obj(a[1]).attrs['typ']
            if capi.NPY[t] != capi.NPY[o['typ']] and (o['typ'], t) in ((11, 12), (14, 15), (2, 12)):
                raise Unsupported('array type conversion')
        return super().f_PyArray_FromAny(a)


class Ext(capi.ExtModule):
    def boot(self, cx):
        from . import irx as _i
        real = capi.PyEnv
        try:
            capi.PyEnv = DspEnv
            return super().boot(cx)
        finally:
            capi.PyEnv = real


def ext(name, files):
    if name not in _ext:
        _ext[name] = Ext(['/repo/' + f for f in files], 'PyInit_' + name)
    return _ext[name]


def real(name, files, libs=()):
    k = 'real ' + name
    if k not in _ext:
        _ext[k] = irx.build_ext(name, ['/repo/' + f for f in files], ['-lfftw3f', '-lm'] + list(libs))
    return _ext[k]


class Session:
    """one symbolic call of a method of an extension module"""

    def __init__(self, cx, e):
        self.cx, self.e = cx, e
        self.env, self.ex = e.boot(cx)

    def array(self, dims, typ, cells):
        """cells: flat list of element values: numbers, z3 reals, bit-vectors; complex: (re, im) pairs"""
        num, size = TYP[typ]
        p = self.env.array(list(dims), num, name='input')
        mem = p.o.attrs['mem']
        k = 0
        for v in cells:
            if typ in ('c8', 'c16'):
                h = size // 2
                for x in v:
                    self.ex.put(mem, k, h, self._f(x, 8 * h))
                    k += h
            else:
                self.ex.put(mem, k, size, self._f(v, 8 * size) if typ in ('f4', 'f8') else v if isz(v) else int(v) & ((1 << 8 * size) - 1))
                k += size
        if k != mem.size:
            raise ValueError('%d bytes for %d' % (k, mem.size))
        return p

    def _f(self, x, w):
        return Fl(re=x, w=w) if isz(x) else float(x)

    def syms(self, name, dims, typ):
        """fresh symbols for every element, registered as inputs"""
        n = int(np.prod(dims)) if dims else 1
        out = []
        for i in range(n):
            if typ in ('c8', 'c16'):
                v = (z3.Real('%s%d.re' % (name, i)), z3.Real('%s%d.im' % (name, i)))
                self.cx.inputs['%s%d.re' % (name, i)], self.cx.inputs['%s%d.im' % (name, i)] = v
            elif typ in ('f4', 'f8'):
                v = z3.Real('%s%d' % (name, i))
                self.cx.inputs['%s%d' % (name, i)] = v
            else:
                v = z3.BitVec('%s%d' % (name, i), 8 * TYP[typ][1])
                self.cx.inputs['%s%d' % (name, i)] = v
            out.append(v)
        return out

    def call(self, method, args, **kw):
        env, ex = self.env, self.ex
        tup = env.new('tuple', items=list(args))
        kwp = env.new('dict', items=kw)
        fn = self.e.methods[method]
        n = len(self.e.mod.funcs[fn].params)
        env.err = None
        live = {id(o): o.attrs['ref'] for o in env.created if 'ref' in o.attrs}
        ret = ex.call(fn, [NULL, tup, kwp][:n])
        self.err = env.err
        return ret

    def values(self, p):
        """(dims, flat list): reals, or (re, im) pairs for complex arrays, ints/bit-vectors for integer arrays"""
        o = self.env.obj(p).attrs
        dims, t, mem = o['dims'], o['typ'], o['mem']
        n = 1
        for d in dims:
            n *= d
        out = []
        for k in range(n):
            if t in (14, 15):
                ty = F32 if t == 14 else F64
                h = ty.n // 8
                v = [self.ex.mload(Ptr(mem, 2 * h * k + h * j), ty) for j in (0, 1)]
                out.append(None if irx.UNDEF in v else tuple(toreal(x) for x in v))
            elif t in (11, 12):
                ty = F32 if t == 11 else F64
                v = self.ex.mload(Ptr(mem, ty.n // 8 * k), ty)
                out.append(None if v is irx.UNDEF else toreal(v))
            else:
                sz = capi.NPY[t][1]
                out.append(self.ex.mload(Ptr(mem, sz * k), T('i', 8 * sz)))
        return dims, out


def value(v):
    """real expression of an integer bit-vector element as the code converts it"""
    return Fl(iv=v).real() if isz(v) and z3.is_bv(v) else v if isz(v) else Q(v)


def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def conj(a): return (a[0], -a[1])


def eq(cx, name, got, spec, info=None):
    if got is None:
        return cx.prove(name + ' (not written)', z3.BoolVal(False), info)
    if isinstance(got, tuple):
        a = eq(cx, name, got[0], spec[0], info)
        return eq(cx, name, got[1], spec[1], info) and a
    spec = spec if isz(spec) else Q(spec)
    if same(got, spec):
        cx.obligations.append({'name': name, 'status': 'discharged', 'how': 'polynomial normal form'})
        return True
    return cx.prove(name, got == spec, info)


TOL = 1e-6


def same(got, spec):
    """equal as polynomials, coefficients compared to 1e-6 of the largest (constants of the code are rounded)"""
    g, s = poly(got), poly(spec)
    big = max([abs(float(v)) for v in s.values()] + [1e-300])
    for m in set(g) | set(s):
        if abs(float(g.get(m, 0) - s.get(m, 0))) > TOL * big:
            return False
    return True


def number(inputs, k, default=0):
    v = inputs.get(k)
    if v is None:
        return default
    try:
        return float(Fraction(str(v)))
    except (ValueError, ZeroDivisionError):
        return default
