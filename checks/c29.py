"""C29: robust statistics and spectral kurtosis."""
import itertools
import math
import sys
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, Or, X, SComplex, SFloat

RB, KU = 'lsl/statistics/robust.py:', 'lsl/statistics/kurtosis.py:'


# ---------------------------------------------------------------------- references, from the definitions
def hsm(v):
    """half-sample mode of sorted values"""
    n = len(v)
    if n == 1:
        return v[0]
    if n == 2:
        return (v[0] + v[1]) / 2
    if n == 3:
        a, b = v[1] - v[0], v[2] - v[1]
        if a < b:
            return (v[0] + v[1]) / 2
        if b < a:
            return (v[1] + v[2]) / 2
        return v[1]
    h = (n + 1) // 2
    best = 0
    for k in range(1, n - h + 1):
        if v[k + h - 1] - v[k] < v[best + h - 1] - v[best]:
            best = k
    return hsm(v[best:best + h])


def mad(d):
    m = np.median(np.abs(d)) / 0.6745
    return m if m >= 1e-20 else np.abs(d).mean() / 0.8


def rstd(x, zero=False):
    """biweight standard deviation"""
    x = np.asarray(x, float).ravel()
    d = x - (0.0 if zero else np.median(x))
    s = mad(d)
    if s < 1e-20:
        return 0.0
    u2 = (d / 6.0 / s) ** 2
    g = u2 <= 1
    if g.sum() < 3:
        raise ValueError('too strange')
    num = (d[g] ** 2 * (1 - u2[g]) ** 4).sum()
    den = ((1 - u2[g]) * (1 - 5 * u2[g])).sum()
    s2 = len(x) * num / (den * (den - 1))
    return math.sqrt(s2) if s2 > 0 else 0.0


def rbiweight(x):
    x = np.asarray(x, float).ravel()
    eps = 0.03 * math.sqrt(0.5 / (len(x) - 1))
    y0 = np.median(x)
    s = rstd(x - y0)
    if s < 1e-20:
        return y0
    for _ in range(25):
        u = np.minimum(((x - y0) / (6 * s)) ** 2, 1)
        w = (1 - u) ** 2
        y0 = (w * x).sum() / w.sum()
        p, s = s, rstd(x - y0, True)
        if s <= 1e-20 or abs(p - s) / p <= eps:
            break
    return y0


def rmean(x, cut):
    x = np.asarray(x, float).ravel()
    m = np.median(x)
    d = np.abs(x - m)
    g = d <= cut * mad(d)
    s = math.sqrt(((x[g] - x[g].mean()) ** 2).sum() / g.sum())
    c = max(cut, 1.0)
    if c <= 4.5:
        s /= -0.15405 + 0.90723 * c - 0.23584 * c ** 2 + 0.020142 * c ** 3
    g = d <= cut * s
    if g.sum() <= 3:
        raise ValueError('too strange')
    return x[g].mean()


def rcheck(x, f, eps, delta, lim=6.0):
    d = x - f
    s = rstd(d, True)
    if s < eps:
        return 0, s, 0.0, 0
    use = np.abs(f) > eps
    fd = 0.0 if use.sum() < 3 else np.median(np.abs(d[use] / f[use]))
    if fd < delta:
        return 0, s, fd, 0
    r = np.minimum(np.abs(d) / (lim * s), 1)
    w = 1 - r ** 2
    return 1, s, fd, int((np.abs(d) / (lim * s) <= 1).sum()), w / w.sum(), r


def run(r):
    sys.path.insert(0, '/repo')
    import warnings
    warnings.simplefilter('ignore')
    ld = SymLoader(symbolic={'lsl.statistics.robust', 'lsl.statistics.kurtosis'})
    rs, ks = ld.load('lsl.statistics.robust'), ld.load('lsl.statistics.kurtosis')
    from lsl.statistics import robust as R, kurtosis as K
    r.assume('floating point treated as real arithmetic in the contracts (the batteries check the doubles)',
             'finite data; at least two values for the biweight mean; fits of more points than coefficients with distinct abscissae')
    r.trust('numpy.sort, median, polynomial.polyfit (least squares) and arithmetic of arrays; scipy.stats.betaprime and scipy.special.erf')

    # ------------------------------------------------------------------ mode
    def mode(cx, n):
        x = [cx.real_input('x%d' % k, -1000, 1000) for k in range(n)]
        for k in range(1, n):
            cx.assume(X(x[k - 1]) <= X(x[k]))
        # given in another order
        o = [x[(3 * k + 1) % n] if n % 3 else x[n - 1 - k] for k in range(n)]
        arr = np.array(o, dtype=object)
        m = rs.mode(arr)
        cx.prove('mode is the half-sample mode', X(m) == X(hsm(x)))
        cx.prove('mode leaves the data alone', all(a is b for a, b in zip(arr, o)))

    def forms(x, fn, ref0, tol=1e-9, what='', steady=True, ints=True):
        """fn(x, **kw) along every axis, with masks and types, against ref of the values; values at a threshold, where rounding decides what the definition gives, are not compared"""
        sc = max(1e-12, np.max(np.abs(x)))

        def ref(v):
            o = ref0(v)
            if steady:
                g = np.random.RandomState(5)
                for _ in range(3):
                    try:
                        q = ref0(v + 1e-12 * sc * g.randn(len(v)))
                    except ValueError:
                        return np.nan
                    if not abs(q - o) <= 0.1 * tol * sc:
                        return np.nan
            return o

        def call(f, *a, **k):
            try:
                return f(*a, **k)
            except ValueError:
                return 'ValueError'

        def same(a, b, t=tol):
            if np.any(b != b) and not isinstance(b, str):
                return True
            if isinstance(a, str) or isinstance(b, str):
                return isinstance(a, str) and isinstance(b, str)
            return np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - b) <= t * sc)
        keep = x.copy()
        got, want = call(fn, x), call(ref, x.ravel())
        if not same(got, want):
            return '%s of %r is %r instead of %r' % (what, x.ravel()[:8], got, want)
        for ax in range(x.ndim):
            for a in (ax, ax - x.ndim):
                w = call(lambda: np.array([ref(v) for v in np.moveaxis(x, ax, -1).reshape(-1, x.shape[ax])]).reshape([s for k, s in enumerate(x.shape) if k != ax]))
                g = call(fn, x, axis=a)
                if not same(g, w):
                    return '%s along axis %d is %r instead of %r' % (what, a, np.asarray(g).ravel()[:4], np.asarray(w).ravel()[:4])
        msk = np.zeros(x.shape, bool)
        msk.ravel()[::5] = True
        y = x.copy()
        y[msk] = 1e9
        if (~msk).sum() > 3:
            g, w = call(fn, np.ma.array(y, mask=msk)), call(ref, x[~msk])
            if not same(g, w):
                return '%s of a masked array is %r instead of %r' % (what, g, w)
        g = call(fn, np.ma.array(x))
        if not same(g, want):
            return '%s of a masked array with nothing masked is %r instead of %r' % (what, g, want)
        i = np.round(x).astype(np.int16)
        g, w = (call(fn, i, dtype=np.float64), call(ref, i.astype(float).ravel())) if ints else (0, 0)
        if not same(g, w):
            return '%s of integers as doubles is %r instead of %r' % (what, g, w)
        if not np.array_equal(x, keep):
            return '%s changes the data' % what

    def data(i):
        g = np.random.RandomState(int(i['seed']))
        n = int(i['n'])
        x = {'normal': g.randn(n), 'tied': np.round(g.randn(n)), 'const': np.full(n, 3.0), 'outlier': g.randn(n) + 1000 * (g.rand(n) < .1), 'skew': g.exponential(size=n),
             'two': np.where(g.rand(n) < .5, 1.0, 2.0), 'cauchy': g.standard_cauchy(n).clip(-1e4, 1e4)}[i['kind']]
        x = float(i['a']) * x + float(i['b'])
        if i.get('shape') == 2 and n % 2 == 0:
            x = x.reshape(2, -1)
        elif i.get('shape') == 3 and n % 6 == 0:
            x = x.reshape(2, 3, -1)
        return x

    def one_mode(i):
        if 'x0' in i:
            x = np.array([float(i['x%d' % k]) for k in range(len([1 for q in i if q[0] == 'x']))])
        else:
            x = data(i)
        return forms(x, R.mode, lambda v: hsm(np.sort(v)), 1e-9, 'mode', False)

    def estimators(i):
        x = data(i)
        e = forms(x, R.std, rstd, 1e-8, 'std') or forms(x, lambda v, **k: R.std(v, zero=True, **k), lambda v: rstd(v, True), 1e-8, 'std about zero')
        if e:
            return e
        if x.size > 2 and x.ndim == 1 and x.size >= 8 and i['kind'] not in ('tied', 'two'):
            e = forms(x, R.biweight_mean, rbiweight, 1e-7, 'biweight_mean', ints=False)
            if e:
                return e
        for cut in (1.5, 3.0, 5.0):
            e = forms(x, lambda v, **k: R.mean(v, cut=cut, **k), lambda v: rmean(v, cut), 1e-8, 'mean with a cut of %g sigma' % cut)
            if e:
                return e

    def resist(i):
        """a tenth of the data can be anything"""
        g = np.random.RandomState(int(i['seed']))
        n = int(i['n'])
        x = g.randn(n)
        k = n // 10
        y = x.copy()
        y[g.permutation(n)[:k]] = float(i['bad']) * (1 + g.rand(k))
        for nm, f, lim in (('mean', R.mean, .5), ('biweight_mean', R.biweight_mean, .5), ('std', R.std, .5)):
            a, b = f(x), f(y)
            if abs(a - b) > lim:
                return '%s goes from %.3g to %.3g when a tenth of %d values is replaced by ~%g' % (nm, a, b, n, float(i['bad']))
            s, t = float(i['a']), float(i['b'])
            c = f(s * y + t)
            w = abs(s) * b if nm == 'std' else s * b + t
            if abs(c - w) > 1e-6 * (abs(w) + abs(t)):
                return '%s of %g*x%+g is %r instead of %r' % (nm, s, t, c, w)

    def quality(i):
        x, g = data(i).ravel(), np.random.RandomState(int(i['seed']) + 1)
        f = x + float(i['a']) * 0.1 * g.randn(x.size) * (g.rand(x.size) < float(i['frac']))
        f[::7] += 5 * float(i['a']) * (i['kind'] == 'outlier')
        for lim in (6.0, 2.0):
            try:
                w = rcheck(x, f, 1e-20, 5e-7, lim)
            except ValueError:
                try:
                    R.checkfit(x, f, 1e-20, 5e-7, bisquare_limit=lim)
                except ValueError:
                    continue
                return 'checkfit accepts a distribution that is too strange'
            o = R.checkfit(x, f, 1e-20, 5e-7, bisquare_limit=lim)
            if o[0] != w[0] or abs(o[1] - w[1]) > 1e-8 * (1 + abs(w[1])) or abs(o[2] - w[2]) > 1e-8 * (1 + abs(w[2])) or o[3] != w[3]:
                return 'checkfit gives %r instead of %r' % (o[:4], w[:4])
            if w[0] and (np.max(np.abs(o[4] - w[4])) > 1e-8 or np.max(np.abs(o[5] - w[5])) > 1e-8):
                return 'checkfit: weights or residuals differ'

    # ------------------------------------------------------------------ fits
    def fits(i):
        g = np.random.RandomState(int(i['seed']))
        n, order = int(i['n']), int(i['order'])
        x = np.sort(g.uniform(-2, 3, n)) * float(i['sx']) + float(i['x0'])
        c = g.uniform(0.5, 2, order + 1) * g.choice([-1, 1], order + 1)
        u = (x - float(i['x0'])) / float(i['sx'])
        # coefficients about x0 in units of sx: compare values, not coefficients
        y = np.polyval(c, u) + float(i['noise']) * g.randn(n)
        z = y.copy()
        nb = int(i['bad'] * n)
        z[g.permutation(n)[:nb]] += 50 * (1 + g.rand(nb))
        perm = g.permutation(n)
        fitters = [('polyfit of order %d' % order, lambda a, b: R.polyfit(a, b, order), None)]
        if order == 1:
            fitters.append(('linefit', R.linefit, None))
            if n > 8:
                fitters.append(('linefit (bisector)', lambda a, b: R.linefit(a, b, bisector=True), None))
        for nm, f, _ in fitters:
            kx, kz = x.copy(), z.copy()
            p = f(x, z)
            if not (np.array_equal(x, kx) and np.array_equal(z, kz)):
                return '%s changes the data' % nm
            if np.shape(p) != (order + 1,):
                return '%s of %d points gives %r' % (nm, n, p)
            want = np.polyval(c, u)
            err = np.max(np.abs(np.polyval(p, x) - want))
            lim = 1e-6 * np.max(np.abs(want)) + 20 * float(i['noise']) if nb == 0 or float(i['noise']) > 0 else None
            if lim is not None and not (nm.endswith(')') and nb) and (n >= 3 * order + 3 or float(i['noise']) == 0) and err > lim:
                return '%s of %d points about %g with noise %g and %d outliers is off by %g' % (nm, n, float(i['x0']), float(i['noise']), nb, err)
            if float(i['noise']) == 0 and nb == 0:
                continue
            # the order of the points does not matter
            q = f(x[perm], z[perm])
            if np.max(np.abs(np.polyval(q, x) - np.polyval(p, x))) > 1e-3 * float(i['noise']) + 1e-6 * np.max(np.abs(want)):
                return '%s depends on the order of the points: %r, %r' % (nm, p, q)
            # masked points are left out
            msk = np.zeros(n, bool)
            msk[1::6] = True
            zz = z.copy()
            zz[msk] = 1e6
            a, b = f(x, np.ma.array(zz, mask=msk)), f(x[~msk], z[~msk])
            if not np.allclose(a, b, rtol=1e-9, atol=1e-12):
                return '%s of masked data is %r, of the data left %r' % (nm, a, b)
            if not np.allclose(f(x, np.ma.array(z)), p, rtol=1e-12, atol=0):
                return '%s of a masked array with nothing masked differs' % nm
            # units
            q = f(x, 4.0 * z + 16.0)
            e = np.array(p) * 4.0
            e[-1] += 16.0
            if nm.endswith(')') is False and np.max(np.abs(np.polyval(q, x) - np.polyval(e, x))) > 0.2 * float(i['noise']) + 1e-6 * np.max(np.abs(want)):
                return '%s does not follow a change of units: %r, %r' % (nm, q, e)

    # ------------------------------------------------------------------ spectral kurtosis
    def sk(cx, cplx):
        ax = [None, 0, 1, -1][int(cx.int_input('axis', 0, 3))]
        N = cx.int_input('N', 1, 1000)
        if cplx:
            v = [[SComplex(cx.real_input('x%d_%d_re' % (a, b), 1, 100), cx.real_input('x%d_%d_im' % (a, b), 1, 100)) for b in range(3)] for a in range(2)]
            pw = [[X(c.re) * X(c.re) + X(c.im) * X(c.im) for c in row] for row in v]
        else:
            v = [[cx.real_input('x%d_%d' % (a, b), 1, 100) for b in range(3)] for a in range(2)]
            pw = [[X(c) for c in row] for row in v]
        arr = np.array(v, dtype=object)
        out = ks.spectral_fft(arr, axis=ax) if cplx else ks.spectral_power(arr, N=N, axis=ax)
        groups = {None: [[(a, b) for a in range(2) for b in range(3)]], 0: [[(a, b) for a in range(2)] for b in range(3)]}.get(ax, [[(a, b) for b in range(3)] for a in range(2)])
        flat = [out] if ax is None else list(out)
        cx.prove('spectral kurtosis: one value for each set', len(flat) == len(groups))
        n1 = X(1) if cplx else X(N)
        for o, gr in zip(flat, groups):
            M = len(gr)
            s1 = s2 = X(0)
            for a, b in gr:
                s1, s2 = s1 + pw[a][b], s2 + pw[a][b] * pw[a][b]
            cx.prove('spectral kurtosis is (MN+1)/(M-1) (M S2/S1^2 - 1) of the M values along the axis', X(o) == (n1 * M + 1) / (M - 1) * (s2 * M / (s1 * s1) - 1))

    def one_sk(i):
        g = np.random.RandomState(int(i.get('seed', 1)))
        if 'x0_0' in i:
            x = np.array([[float(i['x%d_%d' % (a, b)]) for b in range(3)] for a in range(2)])
        elif 'x0_0_re' in i:
            x = np.array([[abs(float(i['x%d_%d_re' % (a, b)]) + 1j * float(i['x%d_%d_im' % (a, b)])) ** 2 for b in range(3)] for a in range(2)])
        else:
            x = g.exponential(size=i['shape']) * 10
        N = int(i.get('N', 1))
        v = np.sqrt(x) * np.exp(2j * np.pi * g.rand(*x.shape))
        for ax in [None] + list(range(-x.ndim, x.ndim)):
            M = x.size if ax is None else x.shape[ax]
            if M < 2:
                continue
            base = M * (x ** 2).sum(axis=ax) / x.sum(axis=ax) ** 2 - 1
            for nm, got, want in (('spectral_power', K.spectral_power(x, N=N, axis=ax), (M * N + 1) / (M - 1) * base), ('spectral_fft', K.spectral_fft(v, axis=ax), (M + 1) / (M - 1) * base)):
                if np.shape(got) != np.shape(want) or np.max(np.abs(got - want)) > 1e-9 * (1 + np.max(np.abs(want))):
                    return '%s of a %r array along axis %r is %r instead of %r' % (nm, x.shape, ax, np.ravel(got)[:3], np.ravel(want)[:3])

    def moments(cx):
        M, N = cx.int_input('M', 2, 10**6), cx.int_input('N', 1, 10**6)
        m, n = X(M), X(N)
        v = n * 2 * (n + 1) * m * m / ((m - 1) * (m * n + 3) * (m * n + 2))
        cx.prove('variance of the spectral kurtosis', X(ks.var(M, N)) == v)
        cx.prove('mean of the spectral kurtosis', X(ks.mean(M, N)) == 1)
        cx.prove('third moment of the spectral kurtosis', X(ks.skew(M, N)) == v * 4 * m * ((n + 4) * m * n - n * 5 - 2) / ((m - 1) * (m * n + 5) * (m * n + 4)))

    def one_moment(i):
        M, N = int(i['M']), int(i['N'])
        v = 2.0 * N * (N + 1) * M ** 2 / ((M - 1) * (M * N + 3) * (M * N + 2))
        s = 4.0 * v * M * ((N + 4) * M * N - 5 * N - 2) / ((M - 1) * (M * N + 5) * (M * N + 4))
        for nm, a, b in (('mean', K.mean(M, N), 1.0), ('var', K.var(M, N), v), ('std', K.std(M, N), math.sqrt(v)), ('skew', K.skew(M, N), s)):
            if abs(a - b) > 1e-9 * abs(b):
                return '%s(%d, %d) is %r instead of %r' % (nm, M, N, a, b)

    def limits(i):
        """the limits cut off the tails of the Pearson type VI distribution with the three moments"""
        from scipy.stats import betaprime
        from scipy.special import erf
        M, N, sg = int(i['M']), int(i['N']), float(i['sigma'])
        before = np.geterr()
        lo, hi = K.get_limits(sg, M, N=N)
        if np.geterr() != before:
            return 'get_limits changes the numpy error handling'
        if not lo < 1 < hi:
            return 'limits (%r, %r) do not hold the mean' % (lo, hi)
        m2, m3 = K.var(M, N), K.skew(M, N)
        rt = math.sqrt(16 * m2 ** 4 + 4 * m3 ** 2 * m2 + m3 ** 2)
        a = (32 * m2 ** 5 - 4 * m3 * m2 ** 3 + 8 * m3 ** 2 * m2 ** 2 + m3 ** 2 * m2 - m3 ** 3 + (8 * m2 ** 3 - m3 * m2 + m3 ** 2) * rt) / m3 ** 3
        b = 3 + 2 * m2 / m3 ** 2 * (4 * m2 ** 2 + rt)
        d = (b - a - 1) / (b - 1)
        mu, va, sk_ = [float(v) for v in betaprime(a, b, loc=d).stats('mvs')]
        if b > 5 and (abs(mu - 1) > 1e-6 or abs(va - m2) > 1e-3 * m2):
            return None
        p = (1 - erf(sg / math.sqrt(2))) / 2
        rv = betaprime(a, b, loc=d)
        with np.errstate(all='ignore'):
            for x, q in ((lo, rv.cdf(lo)), (hi, rv.sf(hi))):
                gauss = abs(abs(x - 1) - sg * math.sqrt(m2)) < 1e-9
                if not gauss and abs(q - p) > 1e-3 * p + 1e-9:
                    return 'the limit %r at %g sigma (M=%d, N=%d) cuts off %.4g of the distribution instead of %.4g' % (x, sg, M, N, q, p)

    def refused(i):
        before = np.geterr()
        try:
            K.get_limits(3.0, int(i['M']), N=int(i['N']))
        except Exception:
            pass
        if np.geterr() != before:
            return 'get_limits leaves the numpy error handling changed when it fails'

    with r.parallel():
        for n in (1, 2, 3, 4, 5, 6):
            r.contract('mode of %d values' % n, lambda cx, n=n: mode(cx, n), functions=[RB + 'mode'], replay=one_mode, bounded='up to six values')
        r.contract('spectral kurtosis of powers', lambda cx: sk(cx, False), functions=[KU + 'spectral_power'], replay=one_sk, bounded='arrays of two by three')
        r.contract('moments of the spectral kurtosis', moments, functions=[KU + 'mean', KU + 'var', KU + 'skew'], replay=one_moment)
    for f in ('biweight_mean', 'mean', 'std', 'checkfit', 'linefit', 'polyfit'):
        r.functions.append(RB + f)
    rg = r.rng
    k = 4 if r.thorough else 1
    kinds = ('normal', 'tied', 'const', 'outlier', 'skew', 'two', 'cauchy')
    dc = lambda n: [dict(seed=rg.randint(1, 10**6), n=rg.choice([4, 5, 6, 7, 8, 9, 12, 18, 31, 60, 200]), kind=rg.choice(kinds), a=rg.choice([1.0, 1.0, 1e-3, 40.0]), b=rg.choice([0.0, 5.0, -300.0]), shape=rg.choice([1, 2, 3])) for _ in range(n)]
    r.concrete('modes', dc(150 * k), one_mode, 30)
    r.concrete('means and deviations', dc(150 * k), estimators, 60)
    r.concrete('resistance to outliers', [dict(seed=rg.randint(1, 10**6), n=rg.choice([20, 50, 301, 1000]), bad=rg.choice([30.0, -1e3, 1e6]), a=rg.choice([2.0, -3.0]), b=rg.choice([0.0, 100.0])) for _ in range(60 * k)], resist, 30)
    r.concrete('quality of fits', [dict(c, frac=rg.choice([0.0, 0.3, 1.0])) for c in dc(100 * k)], quality, 30)
    fc = []
    for o in range(0, 8):
        for _ in range(8 * k):
            fc.append(dict(seed=rg.randint(1, 10**6), n=rg.choice([max(6, o + 3), 12, 40, 200]) if o < 5 else rg.choice([40, 200]), order=o, sx=1.0, x0=rg.choice([0.0, 2.0, -10.0]) if o < 6 else 0.0, noise=rg.choice([0.0, 0.01, 0.1]), bad=0))
    for o in range(0, 4):
        for _ in range(5 * k):
            fc.append(dict(seed=rg.randint(1, 10**6), n=rg.choice([60, 300]), order=o, sx=1.0, x0=rg.choice([0.0, 2.0, -10.0]), noise=0.1, bad=0.05))
    for o in (1, 2, 3):
        fc.append(dict(seed=o, n=12000, order=o, sx=1.0, x0=0.0, noise=0.1, bad=0.02))
    for c in fc:                       # fits with scatter need points to spare
        if c['n'] < 3 * c['order'] + 3:
            c['noise'] = 0.0
    r.concrete('fits', fc, fits, 90)
    r.concrete('kurtosis along every axis', [dict(seed=j, shape=s, N=N) for j, (s, N) in enumerate(itertools.product([(2,), (50,), (5, 40), (40, 5), (1, 9), (3, 4, 5)], (1, 7, 100)))], one_sk, 20)
    r.concrete('kurtosis moments', [dict(M=M, N=N) for M in (2, 3, 10, 300, 10**5) for N in (1, 2, 10, 768)], one_moment, 20)
    r.concrete('kurtosis limits', [dict(M=M, N=N, sigma=s) for M in (10, 100, 300, 3000) for N in (1, 10, 768) for s in (1.0, 3.0, 4.5)], limits, 60)
    r.concrete('kurtosis limits that do not exist', [dict(M=1, N=1), dict(M=0, N=1), dict(M=1, N=10)], refused, 20)


LEVEL = 'exploration'
