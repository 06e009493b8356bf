"""C28: dedispersion."""
import cmath
import contextlib
import math
import sys
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SComplex, SFloat

D = 4148.808            # MHz^2 s / (pc cm^-3)
FN = ['lsl/misc/dedispersion.py:delay', 'lsl/misc/dedispersion.py:incoherent', 'lsl/misc/dedispersion.py:coherent',
      'lsl/misc/dedispersion.py:get_coherent_sample_size', 'lsl/misc/dedispersion.py:_chirp', 'lsl/misc/dedispersion.py:_taper']


def window(f0, bw, dm):
    """samples in a coherent window: twice the delay across the band, rounded up to a power of two, at least 4"""
    s = dm * D * ((1e6 / (f0 - bw / 2)) ** 2 - (1e6 / (f0 + bw / 2)) ** 2) * bw
    p = 1
    while 2 ** p < s:
        p += 1
    return 2 ** (p + 1)


def filt(f0, bw, dm, N, taper):
    f = (f0 + np.fft.fftfreq(N, d=1.0 / bw)) / 1e6
    c = f.mean()
    H = np.exp(-2j * np.pi * D * 1e6 * dm * ((f - c) / c) ** 2 / f)
    if taper:
        H = H / np.sqrt(1 + (np.abs(f - c) / (0.47 * (f.max() - f.min()))) ** 80)
    return H


def blocks(L, N, prev, nxt):
    """the output samples that belong to each window, with the window's first sample, by the documented scheme: the middle half of windows that advance by half a window"""
    out = []
    for i in range(math.ceil(L / (N // 2))):
        a = N // 2 * i
        if (i == 0 and not prev) or (i >= 2 * (L // N) and not nxt):
            continue
        out.append((a, min(a + N // 2, L), a - N // 4))
    return out


def expected(t, x, f0, bw, dm, taper, p, n):
    """numeric reference"""
    N = window(f0, bw, dm)
    H = filt(f0, bw, dm, N, taper)
    L = len(x)
    pad = lambda v: (np.concatenate([p[-N:] if p is not None else np.zeros(N), v, n[:N] if n is not None else np.zeros(N)]), len(p[-N:]) if p is not None else N)
    full, o = pad(x)
    out = np.zeros(L, complex)
    done = np.zeros(L, bool)
    for a, b, s in blocks(L, N, p is not None, n is not None):
        w = full[o + s:o + s + N]
        w = np.concatenate([w, np.zeros(N - len(w))])
        y = np.fft.ifft(np.fft.fft(w) * H)
        out[a:b] = y[N // 4:N // 4 + b - a]
        done[a:b] = True
    return np.where(done, t, 0), out, done


@contextlib.contextmanager
def symbolic_fft():
    """numpy.fft.fft/ifft of object arrays of four values, by the definition (the twiddle factors are 1, -1, i and -i: exact)"""
    keep = np.fft.fft, np.fft.ifft
    W = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}

    def mk(real, sign, norm):
        def f(a, *k, **kw):
            v = np.asarray(a)
            if v.dtype != object:
                return real(a, *k, **kw)
            if len(v) != 4 or k or kw:
                raise NotImplementedError('transform of %d symbolic values' % len(v))
            out = np.empty(4, object)
            for q in range(4):
                s = SComplex(0, 0)
                for j in range(4):
                    c, d = W[sign * q * j % 4]
                    s = s + SComplex.of(v[j]) * SComplex(c, d)
                out[q] = s * norm
            return out
        return f
    np.fft.fft, np.fft.ifft = mk(keep[0], -1, 1), mk(keep[1], 1, 0.25)
    try:
        yield
    finally:
        np.fft.fft, np.fft.ifft = keep


def run(r):
    sys.path.insert(0, '/repo')
    ms = SymLoader(symbolic={'lsl.misc.dedispersion'}).load('lsl.misc.dedispersion')
    from lsl.misc import dedispersion as dd
    import warnings
    warnings.simplefilter('ignore')
    r.assume('floating point treated as real arithmetic in the contracts (the batteries check the doubles)',
             'frequencies positive, dispersion measures not negative, channels of a waterfall at least two, delays below 2**31 integrations, buffers of a quarter window or more')
    r.trust('numpy.fft computes the discrete Fourier transform; numpy.roll, sort and slicing of arrays')

    # ------------------------------------------------------------------ delay
    def delays(cx):
        n = 1 + int(cx.int_input('n', 0, 2))
        f = [cx.real_input('f%d' % k, 10**7, 10**9) for k in range(n)]
        dm = cx.real_input('dm', 0, 1000)
        arr = np.array(f, dtype=object)
        out = ms.delay(arr, dm)
        inv = [1 / (X(v) / 10**6) for v in f]
        if n == 1:
            cx.prove('delay of one frequency is relative to infinite frequency', X(out) == X(dm) * X(SFloat.of(D)) * inv[0] * inv[0])
        else:
            cx.prove('delay: one value for each frequency', len(out) == n)
            top = 0
            for k in range(1, n):
                if f[k] > f[top]:
                    top = k
            for k in range(n):
                cx.prove('delay is relative to the highest frequency', X(out[k]) == X(dm) * X(SFloat.of(D)) * (inv[k] * inv[k] - inv[top] * inv[top]))
        cx.prove('delay leaves the frequencies alone', all(a is b for a, b in zip(arr, f)))

    def one_delay(i):
        n = 1 + int(i.get('n', 2))
        f = np.array([float(i['f%d' % k]) for k in range(n)])
        dm = float(i['dm'])
        g = f.copy()
        want = dm * D * ((1e6 / f) ** 2 - ((1e6 / f.max()) ** 2 if n > 1 else 0))
        for form in (f, list(f), f[0] if n == 1 else tuple(f)):
            o = np.atleast_1d(dd.delay(form, dm))
            if o.shape != (n,) or np.max(np.abs(o - want)) > 1e-9 * max(1e-9, np.max(np.abs(want)), dm * D * (1e6 / f.max()) ** 2):
                return 'delay(%r, %r) is %r instead of %r' % (form, dm, o, want)
        if not np.array_equal(f, g):
            return 'delay changes the frequencies'

    # ------------------------------------------------------------------ incoherent
    FR = [30e6, 50e6, 40e6]
    NT = 4

    def incoherent(cx):
        fill = bool(cx.bool_input('fill'))
        w = np.array([[cx.real_input('w%d_%d' % (a, b), -1000, 1000) for b in range(3)] for a in range(NT)], dtype=object)
        keep = w.copy()
        fv = cx.real_input('fv', -1000, 1000)
        # delays of up to six integrations
        dm = cx.real_input('dm', 0, 2)
        ti = 1.0
        out = ms.incoherent(np.array(FR), w, ti, dm, **(dict(boundary='fill', fill_value=fv) if fill else {}))
        cx.prove('incoherent: shape', out.shape == w.shape)
        hi = max(FR)
        for c, f in enumerate(FR):
            s = D * 1e12 * (1 / f ** 2 - 1 / hi ** 2) / ti
            alt = []
            for e in range(0, int(2 * s) + 2):
                off = X(dm) * X(SFloat.of(s)) - e
                alt.append(And(off <= X(SFloat.of(0.5 + 1e-9)), off >= X(SFloat.of(-0.5 - 1e-9)),
                               *[X(out[t, c]) == (X(fv) if fill and t >= NT - e else X(keep[(t + e) % NT, c])) for t in range(NT)]))
            cx.prove('incoherent: channel moved earlier by its delay to the nearest integration%s' % (', the end filled' if fill else ', wrapping around'), Or(*alt))
        cx.prove('incoherent leaves the waterfall alone', all(w[a, b] is keep[a, b] for a in range(NT) for b in range(3)))

    def one_incoherent(i):
        g = np.random.RandomState(int(i.get('seed', 1)))
        nt = int(i.get('nt', NT))
        if 'w0_0' in i:
            w = np.array([[float(i['w%d_%d' % (a, b)]) for b in range(3)] for a in range(NT)])
            f, ti, dm, fv, fill = np.array(FR), 1.0, float(i['dm']), float(i['fv']), bool(i['fill'])
        else:
            nc = int(i['nc'])
            f = g.permutation(np.linspace(20e6, 20e6 + nc * 1e6, nc))
            w = g.randn(nt, nc).astype(i.get('dtype', float))
            ti, dm, fv, fill = float(i['ti']), float(i['dm']), -7.0, bool(i['fill'])
        keep = w.copy()
        o = dd.incoherent(f, w, ti, dm, **(dict(boundary='fill', fill_value=fv) if fill else {}))
        if o.shape != w.shape or not np.array_equal(w, keep):
            return 'incoherent changes the data it is given or their shape'
        nt = len(w)
        for c in range(w.shape[1]):
            s = dm * D * 1e12 * (1 / f[c] ** 2 - 1 / f.max() ** 2) / ti
            if abs(s % 1 - 0.5) < 1e-6:
                continue
            d = int(math.floor(s + 0.5))
            want = np.array([fv if fill and t >= nt - d else w[(t + d) % nt, c] for t in range(nt)])
            if not np.allclose(o[:, c], want, rtol=1e-6):
                return 'incoherent at %.3f MHz, a delay of %.3f integrations, gives %r for %r' % (f[c] / 1e6, s, o[:6, c], w[:6, c])
        if not fill:
            n = dd.incoherent(f, w, ti, dm, boundary='fill')
            for c in range(w.shape[1]):
                d = int(math.floor(dm * D * 1e12 * (1 / f[c] ** 2 - 1 / f.max() ** 2) / ti + 0.5))
                if d < nt and np.isnan(n[:, c]).sum() not in (d, d + 1):
                    return 'incoherent fills %d integrations with NaN for a delay of %d' % (np.isnan(n[:, c]).sum(), d)
            try:
                dd.incoherent(f, w, ti, dm, boundary='mirror')
            except ValueError:
                return
            return 'incoherent accepts an unknown boundary'

    # ------------------------------------------------------------------ coherent
    F0, BW, DM4 = 38e6, 1e5, 0.0012

    def coherent(cx, taper):
        assert window(F0, BW, DM4) == 4
        L = 4 + int(cx.int_input('L', 0, 4))
        prev, nxt = bool(cx.bool_input('prev')), bool(cx.bool_input('next'))
        mk = lambda n, k: np.array([SComplex(cx.real_input('%s%d_re' % (n, j), -1, 1), cx.real_input('%s%d_im' % (n, j), -1, 1)) for j in range(k)], dtype=object)
        tm = lambda n, k: np.array([cx.real_input('%s%d' % (n, j), -10**6, 10**6) for j in range(k)], dtype=object)
        x, t = mk('x', L), tm('t', L)
        p, pt, n, nt = mk('p', 2), tm('pt', 2), mk('n', 4), tm('nt', 4)
        kw = {}
        if prev:
            kw.update(previous_time=pt, previous_data=p)
        if nxt:
            kw.update(next_time=nt, next_data=n)
        kx, kt = list(x), list(t)
        with symbolic_fft():
            ot, od = ms.coherent(t, x, F0, BW, DM4, taper=taper, enable_caching=False, **kw)
        cx.prove('coherent: one sample and time for each given', len(od) == L and len(ot) == L)
        H = filt(F0, BW, DM4, 4, taper)
        # impulse response of the filter
        h = [sum(H[q] * cmath.exp(2j * math.pi * q * m / 4) for q in range(4)) / 4 for m in range(4)]
        at = lambda k: (kx[k] if 0 <= k < L else (p[k + 2] if -2 <= k < 0 and prev else n[k - L] if L <= k < L + 4 and nxt else 0))
        zero = set(range(L))
        for a, b, s in blocks(L, 4, prev, nxt):
            for k in range(a, b):
                zero.discard(k)
                re = im = 0
                for j in range(4):
                    v = at(s + j)
                    if isinstance(v, int):
                        continue
                    c = h[(k - s - j) % 4]
                    cr, ci = X(SFloat.of(c.real)), X(SFloat.of(c.imag))
                    re, im = re + X(v.re) * cr - X(v.im) * ci, im + X(v.re) * ci + X(v.im) * cr
                e = 1e-9
                o = SComplex.of(od[k])
                tol = X(SFloat.of(e))
                cx.prove('coherent: a sample is its window filtered with the chirp', And(X(o.re) - re <= tol, re - X(o.re) <= tol, X(o.im) - im <= tol, im - X(o.im) <= tol))
                cx.prove('coherent: times stay with their samples', X(ot[k]) == X(kt[k]))
        for k in zero:
            o = SComplex.of(od[k])
            cx.prove('coherent: samples without the neighbours they need are zero', And(X(o.re) == 0, X(o.im) == 0, X(ot[k]) == 0))
        cx.prove('coherent leaves the data alone', all(a is b for a, b in zip(x, kx)) and all(a is b for a, b in zip(t, kt)))

    def one_coherent(i, taper=None):
        if 'x0_re' in i:
            L = 4 + int(i['L'])
            c = lambda n, k: np.array([float(i['%s%d_re' % (n, j)]) + 1j * float(i['%s%d_im' % (n, j)]) for j in range(k)])
            v = lambda n, k: np.array([float(i['%s%d' % (n, j)]) for j in range(k)])
            return cmp_coherent(c('x', L), v('t', L), F0, BW, DM4, taper, (c('p', 2), v('pt', 2)) if i['prev'] else None, (c('n', 4), v('nt', 4)) if i['next'] else None, complex)
        g = np.random.RandomState(int(i['seed']))
        f0, bw, dm, taper = float(i['f0']), float(i['bw']), float(i['dm']), bool(i['taper'])
        N = window(f0, bw, dm)
        if dd.get_coherent_sample_size(f0, bw, dm) != N:
            return 'get_coherent_sample_size(%r, %r, %r) is %r instead of %r' % (f0, bw, dm, dd.get_coherent_sample_size(f0, bw, dm), N)
        if N > 8192:
            return
        L = N + int(i['extra'] * N)
        T = 3 * N + L
        x = g.randn(T) + 1j * g.randn(T)
        t = 5.0 + np.arange(T) / bw
        sl = slice(N, N + L)
        dt = np.complex64 if i['single'] else complex
        return cmp_coherent(x[sl], t[sl], f0, bw, dm, taper, (x[:N], t[:N]) if i['prev'] else None, (x[N + L:], t[N + L:]) if i['next'] else None, dt)

    def cmp_coherent(x, t, f0, bw, dm, taper, p, n, dt):
        x = x.astype(dt)
        kw = {}
        if p is not None:
            kw.update(previous_data=p[0].astype(dt), previous_time=p[1])
        if n is not None:
            kw.update(next_data=n[0].astype(dt), next_time=n[1])
        kx = x.copy()
        wt, wd, done = expected(t, x.astype(complex), f0, bw, dm, taper, p and p[0], n and n[0])
        tol = (1e-4 if dt == np.complex64 else 1e-9) * max(1e-9, np.max(np.abs(x)))
        for cache in (False, True, True):
            ot, od = dd.coherent(t, x, f0, bw, dm, taper=taper, enable_caching=cache, **kw)
            if od.dtype != x.dtype or od.shape != x.shape:
                return 'coherent gives %s %r for %s %r' % (od.dtype, od.shape, x.dtype, x.shape)
            if not np.array_equal(ot, wt):
                return 'coherent: the times of samples %r are %r instead of %r' % (np.nonzero(ot != wt)[0][:4], ot[ot != wt][:4], wt[ot != wt][:4])
            if np.max(np.abs(od - wd)) > tol:
                k = int(np.argmax(np.abs(od - wd)))
                return 'coherent: sample %d of %d is %r instead of %r (window %d, %s)' % (k, len(x), od[k], wd[k], window(f0, bw, dm), kw.keys())
        if not np.array_equal(x, kx):
            return 'coherent changes the data it is given'

    def physics(i):
        """what the filter does to a tone: moved earlier by its delay relative to the middle of the band"""
        f0, bw, dm = float(i['f0']), float(i['bw']), float(i['dm'])
        N = window(f0, bw, dm)
        if N > 16384:
            return
        L = 4 * N
        x = np.zeros(L, complex)
        k0 = 2 * N
        x[k0 + N // 4] = 1.0              # lies in one window for all the samples that come out of it
        ot, od = dd.coherent(np.arange(L) / bw, x, f0, bw, dm)
        y = od[k0 - N // 2:k0 + N]
        # sum over the windows that see the impulse
        H = np.fft.fft(np.roll(np.concatenate([y, np.zeros(4 * N - len(y))]), -(N // 2 + N // 4)))
        f = np.fft.fftfreq(4 * N, d=1 / bw)
        sel = np.argsort(f)
        f, H = f[sel], H[sel]
        mid = np.abs(f) < 0.3 * bw
        ph = np.unwrap(np.angle(H[mid]))
        gd = -np.diff(ph) / (2 * np.pi * np.diff(f[mid]))          # group delay in seconds
        fm = (f[mid][1:] + f[mid][:-1]) / 2 + f0
        want = -dm * D * ((1e6 / fm) ** 2 - (1e6 / f0) ** 2)
        sm = max(3, len(gd) // 16)
        k = np.ones(sm) / sm
        a, b = np.convolve(gd, k, 'valid'), np.convolve(want, k, 'valid')
        lim = 0.1 * np.max(np.abs(want)) + 1.0 / bw
        if np.max(np.abs(a - b)) > lim:
            j = int(np.argmax(np.abs(a - b)))
            return 'coherent delays the signal by %g s where the dispersion delay to take out is %g s' % (a[j], b[j])

    def seam(i):
        """a long observation in pieces, each with its neighbours as buffers, is the whole"""
        g = np.random.RandomState(int(i['seed']))
        f0, bw, dm = float(i['f0']), float(i['bw']), float(i['dm'])
        N = window(f0, bw, dm)
        if N > 4096:
            return
        P = N * int(i['k']) + (N // 2 if i['half'] else 0)
        x = g.randn(4 * P) + 1j * g.randn(4 * P)
        t = np.arange(4 * P) / bw
        whole = dd.coherent(t, x, f0, bw, dm)
        for c in (1, 2):
            s = slice(c * P, c * P + P)
            b, a = slice((c - 1) * P, c * P), slice((c + 1) * P, (c + 2) * P)
            o = dd.coherent(t[s], x[s], f0, bw, dm, previous_time=t[b], previous_data=x[b], next_time=t[a], next_data=x[a])
            if not np.array_equal(o[0], whole[0][s]) or np.max(np.abs(o[1] - whole[1][s])) > 1e-9:
                k = int(np.argmax(np.abs(o[1] - whole[1][s])))
                return 'coherent in pieces of %d samples (window %d): sample %d is %r instead of %r' % (P, N, k, o[1][k], whole[1][s][k])

    def refuses(i):
        x = np.zeros(int(i['L']), complex)
        try:
            dd.coherent(np.arange(len(x)), x, 38e6, 1e5, 5.0)
        except RuntimeWarning:
            return
        return 'coherent accepts fewer samples than a window'

    with r.parallel():
        r.contract('dispersion delay', delays, functions=FN[:1], replay=one_delay)
        r.contract('incoherent dedispersion', incoherent, functions=FN[:2], replay=one_incoherent, bounded='waterfalls of four integrations and three channels, delays of up to six integrations')
        for tp in (False, True):
            r.contract('coherent dedispersion%s' % (', tapered' if tp else ''), lambda cx, tp=tp: coherent(cx, tp), functions=FN[2:], replay=lambda i, tp=tp: one_coherent(i, tp),
                       bounded='windows of four samples, four to eight samples of data')
    rg = r.rng
    k = 4 if r.thorough else 1
    dms = lambda: rg.choice([0.0, 1e-6, 0.05, 0.09, 0.5, 1.7, 5.0, 12.455])
    cases = []
    for _ in range(60 * k):
        cases.append(dict(n=rg.randint(0, 2), dm=rg.choice([0.0, 3.5, 12.455, 900.0]), **{'f%d' % j: rg.uniform(1e7, 2e9) for j in range(3)}))
    r.concrete('delays', cases, one_delay, 20)
    cases = [dict(seed=rg.randint(1, 10**6), nt=rg.choice([1, 2, 7, 30]), nc=rg.choice([2, 3, 8]), ti=rg.choice([0.04, 0.5, 1.0, 7.0]), dm=dms(), fill=rg.random() < .5, dtype=rg.choice(['f4', 'f8', 'c16'])) for _ in range(150 * k)]
    r.concrete('waterfalls', cases, one_incoherent, 30)
    cases = []
    for _ in range(160 * k):
        cases.append(dict(seed=rg.randint(1, 10**6), f0=rg.choice([38e6, 49e6, 74e6]), bw=rg.choice([2e4, 1e5, 2.5e5]), dm=dms(), taper=rg.random() < .3, prev=rg.random() < .5, next=rg.random() < .5,
                          extra=rg.choice([0, 0, 0.25, 0.5, 0.75, 1, 1.3, 1.9, 2, 2.6]), single=rg.random() < .3))
    r.concrete('streams', cases, one_coherent, 60)
    cases = [dict(f0=a, bw=b, dm=c) for a in (38e6, 74e6) for b in (1e5, 2.5e5) for c in (1.0, 5.0, 12.455, 30.0)]
    r.concrete('group delays', cases, physics, 30)
    cases = [dict(seed=rg.randint(1, 10**6), f0=f0, bw=1e5, dm=dm, k=kk, half=h) for f0 in (38e6, 74e6) for dm in (0.05, 0.5, 5.0) for kk in (1, 2) for h in (False, True)]
    r.concrete('pieces', cases, seam, 30)
    r.concrete('too little data', [dict(L=v) for v in (0, 1, 100)], refuses, 10)


LEVEL = 'exploration'
