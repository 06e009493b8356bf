"""C17: polarization conversions of visibility data."""
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, X, SComplex, SBool, Or
import z3
from fractions import Fraction

LIN, STK, CIR = ('XX', 'XY', 'YX', 'YY'), ('I', 'Q', 'U', 'V'), ('RR', 'RL', 'LR', 'LL')


def run(r):
    ld = SymLoader(symbolic={'lsl.imaging.utils', 'lsl.misc.beamformer'})
    us = ld.load('lsl.imaging.utils')
    from lsl.imaging import utils as ut, data as dt
    r.assume('floating point treated as real arithmetic (battery: 1e-5 relative on complex64)',
             'numpy element-wise arithmetic acts on every element alike: one symbolic baseline/channel stands for all')

    def build(cx, pols):
        ds = dt.VisibilityDataSet(2450000.5, np.array([1e6]), [(0, 1)], np.zeros((1, 3, 1)))
        v = {}
        for p in pols:
            c = SComplex(cx.real_input(p + 're'), cx.real_input(p + 'im'))
            w = cx.real_input(p + 'w')
            m = cx.bool_input(p + 'm')
            v[p] = (c, w, m)
            mk = lambda x: np.array([[x]], dtype=object)
            ds.append(dt.PolarizationDataSet(p, data=mk(c), weight=mk(w), mask=mk(m)))
        return ds, v

    def ceq(a, re, im):
        a = SComplex.of(a)
        return And(X(a.re) == re, X(a.im) == im)

    def R(v, p): return X(v[p][0].re)
    def I(v, p): return X(v[p][0].im)

    def formulas(kind, v):
        """name -> (re, im, pair)"""
        o = {}
        if kind == 'stokes':
            if 'XX' in v and 'YY' in v:
                o['I'] = (R(v, 'XX') + R(v, 'YY'), I(v, 'XX') + I(v, 'YY'), ('XX', 'YY'))
                o['Q'] = (R(v, 'XX') - R(v, 'YY'), I(v, 'XX') - I(v, 'YY'), ('XX', 'YY'))
            if 'XY' in v and 'YX' in v:
                o['U'] = (R(v, 'XY') + R(v, 'YX'), I(v, 'XY') + I(v, 'YX'), ('XY', 'YX'))
                o['V'] = (-(I(v, 'XY') - I(v, 'YX')), R(v, 'XY') - R(v, 'YX'), ('XY', 'YX'))
        elif kind == 'linear':
            if 'I' in v and 'Q' in v:
                o['XX'] = ((R(v, 'I') + R(v, 'Q')) / 2, (I(v, 'I') + I(v, 'Q')) / 2, ('I', 'Q'))
                o['YY'] = ((R(v, 'I') - R(v, 'Q')) / 2, (I(v, 'I') - I(v, 'Q')) / 2, ('I', 'Q'))
            if 'U' in v and 'V' in v:
                o['XY'] = ((R(v, 'U') + I(v, 'V')) / 2, (I(v, 'U') - R(v, 'V')) / 2, ('U', 'V'))
                o['YX'] = ((R(v, 'U') - I(v, 'V')) / 2, (I(v, 'U') + R(v, 'V')) / 2, ('U', 'V'))
        else:
            if 'I' in v and 'V' in v:
                o['RR'] = (R(v, 'I') + R(v, 'V'), I(v, 'I') + I(v, 'V'), ('I', 'V'))
                o['LL'] = (R(v, 'I') - R(v, 'V'), I(v, 'I') - I(v, 'V'), ('I', 'V'))
            if 'Q' in v and 'U' in v:
                o['RL'] = (R(v, 'Q') - I(v, 'U'), I(v, 'Q') + R(v, 'U'), ('Q', 'U'))
                o['LR'] = (R(v, 'Q') + I(v, 'U'), I(v, 'Q') - R(v, 'U'), ('Q', 'U'))
        return o

    SUB = {'stokes': [LIN, ('XX', 'YY'), ('XY', 'YX'), ('XX', 'YY', 'XY')],
           'linear': [STK, ('I', 'Q'), ('U', 'V'), ('I', 'Q', 'V')],
           'circular': [STK, ('I', 'V'), ('Q', 'U'), ('I', 'U', 'V')]}

    for kind in ('stokes', 'linear', 'circular'):
        def conv(cx, kind=kind):
            pols = SUB[kind][cx.int_input('pols', 0, 3).__index__()]
            ds, v = build(cx, pols)
            before = {p: (getattr(ds, p), getattr(ds, p).data[0, 0], getattr(ds, p).weight[0, 0], getattr(ds, p).mask[0, 0]) for p in pols}
            out = getattr(us, 'convert_to_' + kind)(ds)
            f = formulas(kind, v)
            cx.prove('convert_to_%s: products' % kind, sorted(out.pols) == sorted(f))
            for p, (re, im, pair) in f.items():
                o = getattr(out, p)
                cx.prove('convert_to_%s: %s' % (kind, p), ceq(o.data[0, 0], re, im))
                cx.prove('convert_to_%s: weight of %s is the mean' % (kind, p), X(o.weight[0, 0]) == (X(v[pair[0]][1]) + X(v[pair[1]][1])) / 2)
                mk = o.mask[0, 0]
                cx.prove('convert_to_%s: %s flagged iff either input is' % (kind, p),
                         SBool((mk.e if isinstance(mk, SBool) else z3.BoolVal(bool(mk))) == z3.Or(v[pair[0]][2].e, v[pair[1]][2].e)))
            cx.prove('convert_to_%s: input untouched' % kind, list(ds.pols) == list(pols) and out is not ds and all(
                getattr(ds, p) is before[p][0] and getattr(ds, p).data[0, 0] is before[p][1] and getattr(ds, p).weight[0, 0] is before[p][2]
                and getattr(ds, p).mask[0, 0] is before[p][3] for p in pols))

        def rep(i, kind=kind):
            return chk((kind, {k: (float(v) if not isinstance(v, bool) else v) for k, v in i.items()}))
        r.contract('convert_to_' + kind, conv, ['lsl.imaging.utils.convert_to_' + kind, 'lsl.imaging.data.VisibilityDataSet.copy',
                   'lsl.imaging.data.VisibilityDataSet.append'], rep)

    def roundtrip(cx):
        ds, v = build(cx, LIN)
        out = us.convert_to_linear(us.convert_to_stokes(ds))
        for p in LIN:
            cx.prove('linear -> Stokes -> linear: %s unchanged' % p, ceq(getattr(out, p).data[0, 0], R(v, p), I(v, p)))
    r.contract('linear -> Stokes -> linear', roundtrip, [], lambda i: chk(('stokes', {**{k: float(x) if not isinstance(x, bool) else x for k, x in i.items()}, 'pols': 0})))

    bs = ld.load('lsl.misc.beamformer')
    from lsl.misc import beamformer as rb

    def circ(cx):
        x = SComplex(cx.real_input('xre'), cx.real_input('xim'))
        y = SComplex(cx.real_input('yre'), cx.real_input('yim'))
        iau = bool(cx.bool_input('iau'))
        l, rr = bs.circularize(np.array([x], dtype=object), np.array([y], dtype=object), iau=iau)
        s = 1 if iau else -1
        k = Fraction(2) / Fraction(float(np.sqrt(2)))**2 if False else None
        rt = Fraction(float(np.sqrt(2)))
        cx.prove('circularize: L = (X +/- iY)/sqrt2', ceq(l[0], (X(x.re) - X(y.im) * s) / rt, (X(x.im) + X(y.re) * s) / rt))
        cx.prove('circularize: R = (X -/+ iY)/sqrt2', ceq(rr[0], (X(x.re) + X(y.im) * s) / rt, (X(x.im) - X(y.re) * s) / rt))

    def chk_circ(i):
        x = np.array([complex(i['xre'], i['xim'])])
        y = np.array([complex(i['yre'], i['yim'])])
        l, rr = rb.circularize(x, y, iau=bool(i['iau']))
        s = 1 if i['iau'] else -1
        if abs(l - (x + s * 1j * y) / 2**.5).max() > 1e-6 * (1 + abs(x) + abs(y)).max() or abs(rr - (x - s * 1j * y) / 2**.5).max() > 1e-6 * (1 + abs(x) + abs(y)).max():
            return 'circularize(%r, %r, iau=%r) = %r, %r' % (x, y, i['iau'], l, rr)
    r.contract('circular feeds from linear', circ, ['lsl.misc.beamformer.circularize'],
               lambda i: chk_circ({k: (float(v) if not isinstance(v, bool) else v) for k, v in i.items()}))

    # ---------------------------------------------------------------- real code
    def np_formulas(kind, g):
        o = {}
        if kind == 'stokes':
            if 'XX' in g and 'YY' in g:
                o['I'] = (g['XX'][0] + g['YY'][0], 'XX', 'YY'); o['Q'] = (g['XX'][0] - g['YY'][0], 'XX', 'YY')
            if 'XY' in g and 'YX' in g:
                o['U'] = (g['XY'][0] + g['YX'][0], 'XY', 'YX'); o['V'] = (1j * (g['XY'][0] - g['YX'][0]), 'XY', 'YX')
        elif kind == 'linear':
            if 'I' in g and 'Q' in g:
                o['XX'] = ((g['I'][0] + g['Q'][0]) / 2, 'I', 'Q'); o['YY'] = ((g['I'][0] - g['Q'][0]) / 2, 'I', 'Q')
            if 'U' in g and 'V' in g:
                o['XY'] = ((g['U'][0] - 1j * g['V'][0]) / 2, 'U', 'V'); o['YX'] = ((g['U'][0] + 1j * g['V'][0]) / 2, 'U', 'V')
        else:
            if 'I' in g and 'V' in g:
                o['RR'] = (g['I'][0] + g['V'][0], 'I', 'V'); o['LL'] = (g['I'][0] - g['V'][0], 'I', 'V')
            if 'Q' in g and 'U' in g:
                o['RL'] = (g['Q'][0] + 1j * g['U'][0], 'Q', 'U'); o['LR'] = (g['Q'][0] - 1j * g['U'][0], 'Q', 'U')
        return o

    def verify(kind, pols, g, ds, out):
        f = np_formulas(kind, g)
        if sorted(out.pols) != sorted(f):
            return 'convert_to_%s of %r gives %r' % (kind, pols, out.pols)
        for p, (d, a, b) in f.items():
            o = getattr(out, p)
            sc = 1e-5 * (1 + np.abs(g[a][0]) + np.abs(g[b][0]))
            if o.data.shape != d.shape or np.any(np.abs(o.data - d) > sc):
                return 'convert_to_%s of %r: %s = %r, expected %r' % (kind, pols, p, o.data.ravel()[:4], d.ravel()[:4])
            if np.any(np.abs(o.weight - (g[a][1] + g[b][1]) / 2) > 1e-5 * (1 + g[a][1] + g[b][1])):
                return 'convert_to_%s of %r: weight of %s' % (kind, pols, p)
            if not np.array_equal(o.mask, g[a][2] | g[b][2]):
                return 'convert_to_%s of %r: flags of %s' % (kind, pols, p)
        if out.baselines != ds.baselines or not np.array_equal(out.freq, ds.freq) or not np.array_equal(out.uvw, ds.uvw) or out.jd != ds.jd:
            return 'convert_to_%s changes baselines, frequencies, uvw or time' % kind

    def chk(c):
        kind, i = c
        pols = SUB[kind][int(i['pols'])]
        if 'seed' in i:
            rs = np.random.RandomState(i['seed'])
            nb, nc = i['nb'], i['nc']
            g = {p: ((rs.randn(nb, nc) + 1j * rs.randn(nb, nc)).astype(np.complex64 if i['seed'] % 2 else np.complex128), rs.rand(nb, nc).astype(np.float32), rs.rand(nb, nc) < .3) for p in pols}
        else:
            nb = nc = 1
            g = {p: (np.array([[complex(i[p + 're'], i[p + 'im'])]]), np.array([[i[p + 'w']]]), np.array([[bool(i[p + 'm'])]])) for p in pols}

        def fresh(jd):
            ds = dt.VisibilityDataSet(jd, np.arange(nc) * 1e3 + 1e6, [(0, k) for k in range(nb)], np.ones((nb, 3, nc)))
            for p in pols:
                ds.append(dt.PolarizationDataSet(p, data=g[p][0].copy(), weight=g[p][1].copy(), mask=g[p][2].copy()))
            return ds
        ds = fresh(2450000.5)
        fn = getattr(ut, 'convert_to_' + kind)
        out = fn(ds)
        m = verify(kind, pols, g, ds, out)
        if m:
            return m
        for p in pols:
            q = getattr(ds, p)
            if list(ds.pols) != list(pols) or not (np.array_equal(q.data, g[p][0]) and np.array_equal(q.weight, g[p][1]) and np.array_equal(q.mask, g[p][2])):
                return 'convert_to_%s changed its input %s' % (kind, p)
        multi = fn(dt.VisibilityData([fresh(2450000.5), fresh(2450001.5)]))
        if len(multi) != 2 or multi[0].jd != 2450000.5 or multi[1].jd != 2450001.5:
            return 'convert_to_%s of two integrations' % kind
        for o in multi:
            d0 = fresh(o.jd)
            m = verify(kind, pols, g, d0, o)
            if m:
                return m + ' (several integrations)'
        if kind == 'stokes' and set(pols) >= set(LIN):
            back = ut.convert_to_linear(out)
            for p in LIN:
                sc = 1e-5 * (1 + sum(np.abs(g[q][0]) for q in LIN))
                if np.any(np.abs(getattr(back, p).data - g[p][0]) > sc):
                    return 'linear -> Stokes -> linear changes %s' % p
        for bad in (out,):
            try:
                fn(bad)
            except RuntimeError:
                pass
            else:
                return 'convert_to_%s accepts data that are already converted' % kind
        try:
            one = fresh(2450000.5)
            e = one.copy(include_pols=False)
            e.append(getattr(one, pols[0]))
            fn(e)
        except RuntimeError:
            pass
        else:
            return 'convert_to_%s accepts a single product' % kind
    rng = r.rng

    def cases():
        for k in range(600 if not r.thorough else 10000):
            yield (('stokes', 'linear', 'circular')[k % 3], {'pols': rng.randrange(4), 'seed': rng.randrange(10**6), 'nb': rng.choice([1, 2, 7]), 'nc': rng.choice([1, 3, 16])})
            if k % 5 == 0:
                yield ('circ', dict(xre=rng.uniform(-9, 9), xim=rng.uniform(-9, 9), yre=rng.uniform(-9, 9), yim=rng.uniform(-9, 9), iau=rng.random() < .5))
    r.concrete('conversions on the real code', cases(), lambda c: chk_circ(c[1]) if c[0] == 'circ' else chk(c), limit_s=60)
