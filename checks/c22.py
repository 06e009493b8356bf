"""C22: phase-and-sum beamforming."""
import math
import sys
import numpy as np
import z3
from fractions import Fraction
from pv import dsp
from pv.dsp import Q, cmul, cadd, eq, value
from pv.loader import SymLoader, math_shim
from pv.sym import X, And, SFloat

LEVEL = 'exploration'
FILES = ['lsl/misc/beamformer.cpp']
BOUND = 'array sizes fixed as listed; every value of the samples and coefficients'
INT = ('i1', 'i2', 'i4', 'i8')
DT = dict(i1=np.int8, i2=np.int16, i4=np.int32, i8=np.int64, f4=np.float32, f8=np.float64, c8=np.complex64, c16=np.complex128, ci8=np.int8)
PAT = [([1, 1, 1, 1, 1], [1, 1, 1, 1, 1]), ([1, 0, 1, 0, 1], [0, 1, 0, 1, 0]), ([0, 0, 0, 0, 0], [2, 0, 255, 1, 0]), ([0, 1, 0, 0, 0], [0, 0, 0, 0, 0])]
LIGHT = 299792458


def run(r):
    r.assume('floating point treated as real arithmetic (constants to 1e-6)', 'sizes bounded in the symbolic contracts, larger ones sampled by the battery')
    r.trust('libm, NumPy C API (assumed contracts in pv/dsp.py)')
    bf = dsp.ext('_beamformer', FILES)
    rb = dsp.real('_beamformer', FILES)

    # ------------------------------------------------------------------ the engine
    def engine(typ, coef, dims):
        nS, nC, nT = dims
        sparse = nT > 8

        def go(cx):
            v0, v1 = [v[:nS] for v in PAT[cx.int_input('pattern', 0, len(PAT) - 1).__index__()]]
            s = dsp.Session(cx, bf)
            co = s.syms('c', [nS, nC], coef)
            n = nS * nC * nT
            base = 'i1' if typ == 'ci8' else typ
            raw = s.syms('d', [n * 2] if typ == 'ci8' else [n], base)
            if typ == 'ci8':
                vals = [(value(raw[2 * k]), value(raw[2 * k + 1])) for k in range(n)]
                arr = s.array([nS, nC, nT, 2], 'i1', raw)
            else:
                vals = raw if typ in ('c8', 'c16') else [(value(x) if typ in INT else x, Q(0)) for x in raw]
                arr = s.array(dims, typ, raw)
            ret = s.call('BEngine', [s.array([nS, nC], coef, co), arr, s.array([nS], 'u1', v0), s.array([nS], 'u1', v1)])
            cx.prove('BEngine: returns', z3.BoolVal(ret.o is not None))
            d, got = s.values(ret)
            cx.prove('BEngine: two beams of channels by times', z3.BoolVal(list(d) == [2, nC, nT]))
            for p, v in enumerate((v0, v1)):
                good = [i for i in range(nS) if v[i]]
                for c in range(nC):
                    for t in range(nT):
                        e = (Q(0), Q(0))
                        for i in good:
                            e = cadd(e, cmul(co[i * nC + c], vals[(i * nC + c) * nT + t]))
                        e = tuple(x * Q(Fraction(1, max(1, len(good)))) for x in e)
                        eq(cx, 'BEngine (%s): beam is the mean over the good inputs of coefficient times sample' % typ, got[(p * nC + c) * nT + t], e)

        def rep(i):
            v = [np.array(x[:nS], np.uint8) for x in PAT[int(i.get('pattern') or 0)]]
            g = lambda n, k: complex(dsp.number(i, '%s%d.re' % (n, k)), dsp.number(i, '%s%d.im' % (n, k)))
            co = np.array([g('c', k) for k in range(nS * nC)], DT[coef]).reshape(nS, nC)
            n = nS * nC * nT
            if typ in ('c8', 'c16'):
                d = np.array([g('d', k) for k in range(n)], DT[typ]).reshape(dims)
            elif typ in ('f4', 'f8'):
                d = np.array([dsp.number(i, 'd%d' % k) for k in range(n)], DT[typ]).reshape(dims)
            else:
                b = 8 * np.dtype(DT[typ]).itemsize
                w = [int(i.get('d%d' % k) or 0) for k in range(n * (2 if typ == 'ci8' else 1))]
                d = np.array([x - (1 << b) if x >> (b - 1) & 1 else x for x in w], DT[typ]).reshape(list(dims) + ([2] if typ == 'ci8' else []))
            return compare(co, d, *v)
        r.contract('BEngine: %s data, %s coefficients, %dx%dx%d' % ((typ, coef) + tuple(dims)), go, ['lsl/misc/beamformer.cpp:BEngine', 'lsl/misc/beamformer.cpp:phase_and_sum_' + (
            'complex' if typ in ('c8', 'c16', 'ci8') else 'real')], rep, bounded=BOUND)

    def ref(co, d, v0, v1):
        x = d.astype(np.float64)[..., 0] + 1j * d.astype(np.float64)[..., 1] if d.ndim == 4 else d.astype(np.complex128)
        out = np.zeros((2,) + x.shape[1:], np.complex128)
        for p, v in enumerate((v0, v1)):
            good = np.where(np.asarray(v) != 0)[0]
            if len(good):
                out[p] = np.einsum('ic,ict->ct', co[good].astype(np.complex128), x[good]) / len(good)
        return out

    def compare(co, d, v0, v1):
        got = rb.BEngine(co, d, v0, v1)
        exp = ref(co, d, v0, v1)
        if got.dtype != np.complex64 or got.shape != exp.shape:
            return 'BEngine returns %s %s, expected %s' % (got.dtype, got.shape, exp.shape)
        scale = max(1.0, abs(exp).max(), abs(co).max() * abs(d.astype(np.complex128)).max())
        k = np.unravel_index(abs(got - exp).argmax(), exp.shape)
        if not abs(got - exp).max() <= 2e-4 * scale:
            return 'BEngine (%s, %s): beam %s is %s, expected %s' % (d.dtype, co.dtype, k, got[k], exp[k])

    for typ in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'ci8', 'c8', 'c16'):
        for coef in ('c8', 'c16'):
            engine(typ, coef, (3, 2, 2))
    for typ in ('ci8', 'c8', 'f4'):
        engine(typ, 'c16', (2, 1, 33))             # longer than a block of times
        engine(typ, 'c16', (5, 2, 1))
    engine('i1', 'c8', (2, 1, 65))

    def shapes(cx):
        k = cx.int_input('case', 0, 3).__index__()
        dims, cd, n0, n1 = [((3, 2, 2), (2, 2), 3, 3), ((3, 2, 2), (3, 1), 3, 3), ((3, 2, 2), (3, 2), 2, 3), ((3, 2, 2), (3, 2), 3, 4)][k]
        s = dsp.Session(cx, bf)
        co = s.syms('c', cd, 'c16')
        d = s.syms('d', dims, 'c8')
        ret = s.call('BEngine', [s.array(cd, 'c16', co), s.array(dims, 'c8', d), s.array([n0], 'u1', [1] * n0), s.array([n1], 'u1', [1] * n1)])
        cx.prove('BEngine: sizes that do not match are refused', z3.BoolVal(ret.o is None and s.err is not None))
    r.contract('BEngine: sizes that do not match', shapes, ['lsl/misc/beamformer.cpp:BEngine'], None, bounded='four mismatches')

    # ------------------------------------------------------------------ delays
    sys.path.insert(0, '/repo')
    sys.modules['lsl.misc._beamformer'] = rb
    ld = SymLoader(symbolic={'lsl.misc.beamformer'})
    S = ld.load('lsl.misc.beamformer')
    from lsl.misc import beamformer as RBF

    class Obj:
        def __init__(self, **k):
            self.__dict__.update(k)

    def delays(cx):
        n = 3
        far = cx.int_input('far', 0, 3).__index__()      # which stand (if any) is an outlier
        pos = [[cx.real_input('p%d%s' % (k, a), -500, 500) for a in 'xyz'] for k in range(n)]
        cab = [cx.real_input('cable%d' % k, 0, 1e-6) for k in range(n)]
        az, alt = cx.real_input('az', 0, 360), cx.real_input('alt', 0, 90)
        ants = [Obj(stand=Obj(id=k + 1 if k != far - 1 else 258, xyz=np.array(pos[k], dtype=object), x=pos[k][0], y=pos[k][1], z=pos[k][2]),
                    cable=Obj(delay=lambda f, k=k: cab[k])) for k in range(n)]
        d = S.calc_delay(ants, freq=50e6, azimuth=az, altitude=alt)
        good = [k for k in range(n) if k != far - 1]
        c = [sum(X(pos[k][a]) for k in good) / len(good) for a in range(3)]
        rad = math.pi / 180.0
        raz, ralt = az * math.pi / 180.0, alt * math.pi / 180.0
        u = [X(math_shim.cos(ralt)) * X(math_shim.sin(raz)), X(math_shim.cos(ralt)) * X(math_shim.cos(raz)), X(math_shim.sin(ralt))]
        cx.prove('calc_delay: one delay per antenna', np.shape(d) == (n,))
        for k in range(n):
            e = X(cab[k]) - sum(u[a] * (X(pos[k][a]) - c[a]) for a in range(3)) / LIGHT
            cx.prove('calc_delay: cable delay minus the light travel time along the pointing direction', X(d[k]) == e)

    def rdelays(pos, cab, az, alt, far, freqs):
        n = len(pos)
        ants = [Obj(stand=Obj(id=k + 1 if k != far - 1 else 258, xyz=np.array(pos[k], float), x=pos[k][0], y=pos[k][1], z=pos[k][2]),
                    cable=Obj(delay=lambda f, k=k: cab[k] + 1e-17 * np.asarray(f))) for k in range(n)]
        good = [k for k in range(n) if k != far - 1]
        P = np.array(pos, float)
        P = P - P[good].mean(axis=0)
        a, h = np.radians(az), np.radians(alt)
        u = np.array([np.cos(h) * np.sin(a), np.cos(h) * np.cos(a), np.sin(h)])
        for f in (freqs[0], freqs):
            d = RBF.calc_delay(ants, freq=f, azimuth=az, altitude=alt)
            e = np.array([[cab[k] + 1e-17 * x - P[k].dot(u) / LIGHT for x in freqs] for k in range(n)])
            e = e[:, 0] if f is freqs[0] else e
            if d.shape != e.shape or abs(d - e).max() > 1e-13:
                return 'calc_delay(az=%g, alt=%g) of stands at %r with cable delays %r: %r, expected %r' % (az, alt, np.asarray(pos).tolist(), list(cab), d.tolist(), e.tolist())

    def rep_delays(i):
        f = lambda k: dsp.number(i, k)
        return rdelays([[f('p%d%s' % (k, a)) for a in 'xyz'] for k in range(3)], [f('cable%d' % k) for k in range(3)], f('az'), f('alt'), int(i.get('far') or 0), [50e6, 60e6])
    r.contract('calc_delay', delays, ['lsl/misc/beamformer.py:calc_delay'], rep_delays, bounded='three stands (one of them outside the array or none); every position, cable delay and direction')

    def limits(cx):
        az, alt = cx.real_input('az', -400, 800), cx.real_input('alt', -200, 200)
        ants = [Obj(stand=Obj(id=1, xyz=np.zeros(3)), cable=Obj(delay=lambda f: 0.0))]
        ok = And(az >= 0, az <= 360, alt >= 0, alt <= 90)
        try:
            S.calc_delay(ants, azimuth=az, altitude=alt)
        except ValueError:
            cx.prove('calc_delay: directions on the sky are accepted', ~ok if hasattr(ok, '__invert__') else not ok)
        else:
            cx.prove('calc_delay: directions below the horizon or past a turn are refused', ok)

    def rep_limits(i):
        az, alt = dsp.number(i, 'az'), dsp.number(i, 'alt')
        ants = [Obj(stand=Obj(id=1, xyz=np.zeros(3)), cable=Obj(delay=lambda f: 0.0))]
        ok = 0 <= az <= 360 and 0 <= alt <= 90
        try:
            RBF.calc_delay(ants, azimuth=az, altitude=alt)
        except ValueError:
            return 'calc_delay refuses az=%g alt=%g' % (az, alt) if ok else None
        return None if ok else 'calc_delay accepts az=%g alt=%g' % (az, alt)
    r.contract('calc_delay: range of directions', limits, ['lsl/misc/beamformer.py:calc_delay'], rep_limits)

    # ------------------------------------------------------------------ the real thing
    def cases():
        for k in range(60):
            yield ('engine', k)
        for k in range(40):
            yield ('delay', k)
        for k in range(60):
            yield ('beam', k)

    def one(c):
        rng = np.random.RandomState(r.rng.randrange(1 << 30))
        nS, nC, nT = rng.randint(1, 12), rng.randint(1, 6), [1, 7, 31, 32, 33, 64, 100][rng.randint(7)]
        typ = ['i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'ci8', 'c8', 'c16'][c[1] % 9]

        def sig(nS, nC, nT):
            if typ in ('c8', 'c16'):
                return (rng.randn(nS, nC, nT) + 1j * rng.randn(nS, nC, nT)).astype(DT[typ])
            if typ in ('f4', 'f8'):
                return rng.randn(nS, nC, nT).astype(DT[typ])
            return rng.randint(-100, 100, (nS, nC, nT) + ((2,) if typ == 'ci8' else ())).astype(DT[typ])
        if c[0] == 'engine':
            co = (rng.randn(nS, nC) + 1j * rng.randn(nS, nC)).astype(np.complex64 if c[1] % 2 else np.complex128)
            v = [(rng.rand(nS) < [0.0, 0.5, 1.0][rng.randint(3)]).astype(np.uint8) * rng.randint(1, 255) for _ in (0, 1)]
            d = sig(nS, nC, nT)
            if rng.randint(2):
                d, co = np.asfortranarray(d), np.asfortranarray(co)      # any memory layout
            return compare(co, d, *v)
        pos, cab = rng.uniform(-60, 60, (max(nS, 2), 3)), rng.uniform(0, 1e-6, max(nS, 2))
        az, alt = [0.0, 90.0, 360.0, rng.uniform(0, 360)][rng.randint(4)], [0.0, 90.0, rng.uniform(0, 90)][rng.randint(3)]
        nS = len(pos)
        if c[0] == 'delay':
            return rdelays(pos, cab, az, alt, rng.randint(0, 3), [30e6, 50e6, 80e6])
        if typ == 'ci8':
            return
        pol = rng.randint(0, 2, nS) if c[1] % 4 else np.full(nS, c[1] // 4 % 2)
        stat = np.where(rng.rand(nS) < 0.7, 33, rng.choice([0, 11, 32, 3]))
        ants = [Obj(stand=Obj(id=k + 1, xyz=pos[k]), cable=Obj(delay=lambda f, k=k: cab[k] + 0 * np.asarray(f)), pol=int(pol[k]), combined_status=int(stat[k])) for k in range(nS)]
        multi = bool(rng.randint(2))
        freqs = 30e6 + 1e6 * np.arange(nC) if multi else np.array([49e6])
        d = sig(nS, len(freqs), nT)
        d0 = d.copy()
        got = RBF.phase_and_sum(ants, d if multi else d[:, 0, :], central_freq=(freqs if rng.randint(2) else list(freqs)) if multi else freqs[0], azimuth=az, altitude=alt)
        if not np.array_equal(d, d0):
            return 'phase_and_sum changed its input'
        P = pos - pos.mean(axis=0)
        a, h = np.radians(az), np.radians(alt)
        u = np.array([np.cos(h) * np.sin(a), np.cos(h) * np.cos(a), np.sin(h)])
        dl = cab - P.dot(u) / LIGHT
        ph = np.exp(2j * np.pi * freqs[None, :] * (dl - dl.min())[:, None])
        exp = ref(ph, d, ((pol == 0) & (stat == 33)).astype(int), ((pol == 1) & (stat == 33)).astype(int))
        n0, n1 = ((pol == 0) & (stat == 33)).sum(), ((pol == 1) & (stat == 33)).sum()
        exp = exp[1:] if n0 == 0 else exp[:1] if n1 == 0 else exp
        exp = exp if multi else exp[:, 0, :]
        if got.shape != exp.shape or not abs(got - exp).max() <= 2e-4 * max(1, abs(d.astype(np.complex128)).max()):
            return 'phase_and_sum of %d antennas (%s), az=%g alt=%g: shape %s, %s; expected %s, %s' % (nS, typ, az, alt, got.shape, got.ravel()[:3], exp.shape, exp.ravel()[:3])
    r.concrete('beamforming by the compiled extension', cases(), one, limit_s=60)
