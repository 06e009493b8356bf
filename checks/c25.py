"""C25: gridded imaging: the gridder, and the images and coordinates made from gridded data."""
import sys
import numpy as np
import z3
from pv import dsp

LEVEL = 'exploration'
FILES = ['lsl/imaging/gridder.cpp']
BOUND = 'grid sizes and (u,v,w) positions as listed; every value of the visibilities and weights'
FNS = ['lsl/imaging/gridder.cpp:' + f for f in ('WProjection', 'compute_gridding', 'compute_planes', 'w_projection_kernel', 'kaiser_bessel_1d_kernel_filler', 'compute_kernel_correction')]
NEAR = 0.15             # the gridder interpolates: relative accuracy of one visibility in the inner half of the image


def lm(n, res):
    """direction cosines of the pixels of an unshifted image: north is up, east is to the left"""
    k = np.arange(n)
    k = np.where(k > n // 2, k - n, k)
    M, L = np.meshgrid(k / n / res, -k / n / res, indexing='ij')
    return L, M, k


def response(u, v, w, n, res):
    """the image of one visibility of 1: the Fourier component it measures (NaN beyond the horizon)"""
    L, M, _ = lm(n, res)
    R = 1 - L ** 2 - M ** 2
    return np.exp(-2j * np.pi * (u * L + v * M + w * (np.sqrt(np.where(R > 0, R, np.nan)) - 1))) / n ** 2


def inner(n, res):
    L, M, k = lm(n, res)
    a, b = np.meshgrid(k, k, indexing='ij')
    return (np.hypot(a, b) <= n / 4) & (L ** 2 + M ** 2 < 0.9)


# (size, resolution, u, v, w): the w are far enough apart that every value has its own plane
GRIDS = [(12, 0.5, [1.2, -0.3], [0.4, 1.0], [0.0, 0.0]),
         (12, 0.5, [2.25], [-1.75], [0.0]),
         (10, 1.0, [-3.1, 0.0, 4.2], [2.2, 0.0, -4.7], [-2.0, 0.0, 3.0]),
         (11, 0.5, [1.3, 1.3], [-0.6, 0.6], [-4.0, 4.0]),
         (8, 0.25, [0.9, -0.9], [0.26, -0.26], [0.5, 0.5]),
         (12, 1.0, [2.3, -1.4], [0.7, 3.1], [4.0, 4.2]),
         (9, 1.0, [-25.3, 40.0], [17.7, -31.2], [1.0, 1.0])]


def run(r):
    r.assume('FFTW computes the DFT, GSL the Bessel functions; floating point treated as real arithmetic (constants to 1e-6); one thread (the battery runs the OpenMP build)',
             'the positions of the visibilities are concrete in the symbolic contracts; larger images and other positions are sampled by the battery')
    r.trust('FFTW plan/execute, GSL, libm, NumPy C API (assumed contracts in pv/dsp.py); aipy.img.ImgW (base class)')
    G = dsp.ext('_gridder', FILES)
    rg = dsp.real('_gridder', FILES, ['-lgsl', '-lgslcblas'])

    def real_case(n, res, u, v, w, dt, seed):
        g = np.random.RandomState(seed)
        N = len(u)
        o = np.argsort(w, kind='stable')
        u, v, w = (np.array(x, float)[o] for x in (u, v, w))
        vis = (g.randn(N) + 1j * g.randn(N)).astype(dt)
        wg = (g.rand(N) + 0.5).astype(dt)
        uv, bm, kc = rg.WProjection(u, v, w, vis, wg, float(n * res), float(res), 0.1)
        if uv.shape != (n, n) or bm.shape != (n, n) or kc.shape != (n, n):
            return 'WProjection: shapes %s %s %s for %d pixels' % (uv.shape, bm.shape, kc.shape, n)
        ok = inner(n, res)
        for what, plane, x in (('visibilities', uv, vis), ('weights', bm, wg)):
            e = sum(x[k] * response(u[k], v[k], w[k], n, res) for k in range(N))
            d = abs(np.fft.ifft2(plane) / kc - e)[ok].max() * n ** 2
            if not d <= NEAR * abs(x).sum() + 1e-9:
                return 'WProjection: the image of %d %s (u=%s v=%s w=%s, %d pixels at %g) is off by %.3g of %.3g' % (N, what, u[:4], v[:4], w[:4], n, res, d, abs(x).sum())

    def planes(cx, s, n, res, u, v, w, typ='c8', tag=''):
        """(responses of the visibilities, responses of the weights, correction) of one call"""
        N = len(u)
        vis, wg = s.syms('d' + tag, [N], typ), s.syms('g' + tag, [N], typ)
        f = lambda x: s.array([N], 'f8', [float(y) for y in x])
        ret = s.call('WProjection', [f(u), f(v), f(w), s.array([N], typ, vis), s.array([N], typ, wg)], uvSize=float(n * res), uvRes=float(res), wRes=0.1)
        cx.prove('WProjection: returns', z3.BoolVal(ret.o is not None and s.err is None))
        out = []
        items = s.env.obj(ret).attrs['items']
        for it, syms in ((items[0], vis), (items[1], wg)):
            d, vals = s.values(it)
            cx.prove('WProjection: planes of the size of the grid', z3.BoolVal(list(d) == [n, n] and None not in vals))
            keys = {}
            for k, (a, b) in enumerate(syms):
                for c, x in enumerate((a, b)):
                    keys[next(iter(dsp.poly(x)))] = (k, c)
            A = np.zeros((N, 2, n * n), complex)
            lin = True
            for p, (re, im) in enumerate(vals):
                for x, unit in ((re, 1), (im, 1j)):
                    for m, cf in dsp.poly(x).items():
                        if m in keys:
                            A[keys[m][0], keys[m][1], p] += unit * float(cf)
                        elif abs(float(cf)) > 1e-9:
                            lin = False
            cx.prove('WProjection: the uv plane is a linear function of the visibilities alone, the beam plane of the weights alone', z3.BoolVal(lin))
            big = abs(A).max() + 1e-30
            cx.prove('WProjection: multiplying a visibility by i multiplies its response by i', z3.BoolVal(bool(abs(A[:, 1] - 1j * A[:, 0]).max() < 1e-6 * big)))
            out.append(A[:, 0].reshape(N, n, n))
        d, kc = s.values(items[2])
        cx.prove('WProjection: correction of the size of the grid', z3.BoolVal(list(d) == [n, n] and None not in kc))
        out.append(np.array([float(x.as_fraction()) for x in map(dsp.norm, kc)]).reshape(n, n))
        return out

    def near(a, b, tol=1e-5):
        return z3.BoolVal(bool(abs(a - b).max() <= tol * (abs(b).max() + 1e-30)))

    def grid(case, typ):
        n, res, u, v, w = case

        def go(cx):
            s = dsp.Session(cx, G)
            planes(cx, s, 6, 1.0, [0.5], [0.25], [0.0], tag='first')      # an image of another size first
            A, B, kc = planes(cx, s, n, res, u, v, w, typ)
            cx.prove('WProjection: weights are gridded as visibilities are', near(B, A))
            ok = inner(n, res)
            for k in range(len(u)):
                e = response(u[k], v[k], w[k], n, res)
                img = np.fft.ifft2(A[k]) / kc
                cx.prove('WProjection: the image of a visibility is the Fourier component it measures (inner half of the image)',
                         z3.BoolVal(bool(abs(img - e)[ok].max() <= NEAR / n ** 2)), 'visibility %d: %.3g' % (k, abs(img - e)[ok].max() * n ** 2))
            for k in range(len(u)):
                alone = planes(cx, s, n, res, u[k:k + 1], v[k:k + 1], w[k:k + 1], typ, tag='alone%d.' % k)
                cx.prove('WProjection: what a visibility adds does not depend on the others', near(alone[0][0], A[k], 1e-5 if len(set(w)) == 1 or min(np.diff(sorted(set(w)))) > 0.4 else 0.1))
            du, dv = 3, -2
            sh = planes(cx, s, n, res, [x + du * res for x in u], [x + dv * res for x in v], [0.0] * len(u), typ, tag='moved')[0]
            base = planes(cx, s, n, res, u, v, [0.0] * len(u), typ, tag='base')[0]
            cx.prove('WProjection: moving a visibility by whole pixels moves its response by as many', near(sh, np.roll(base, (-dv, du), axis=(1, 2))))
            cj = planes(cx, s, n, res, [-x for x in u], [-x for x in v], [-x for x in w][::1], typ, tag='conj')[0] if len(set(w)) == 1 else None
            if cj is not None:
                for k in range(len(u)):
                    a, b = np.fft.ifft2(A[k]), np.fft.ifft2(cj[k])
                    cx.prove('WProjection: the conjugate point has the conjugate image', z3.BoolVal(bool((abs(b - a.conj())[ok]).max() <= 1e-3 / n ** 2)))

        def rep(i):
            return real_case(n, res, u, v, w, np.complex64 if typ == 'c8' else np.complex128, 0)
        r.contract('WProjection %dx%d at %g, %d visibilities, %s' % (n, n, res, len(u), typ), go, FNS, rep, bounded=BOUND)

    def bad(cx):
        k = cx.int_input('which', 0, 3).__index__()
        N = [3] * 5
        N[k + 1] = 2
        s = dsp.Session(cx, G)
        ret = s.call('WProjection', [s.array([N[0]], 'f8', [0.0] * N[0]), s.array([N[1]], 'f8', [0.0] * N[1]), s.array([N[2]], 'f8', [0.0] * N[2]),
                                     s.array([N[3]], 'c8', s.syms('d', [N[3]], 'c8')), s.array([N[4]], 'c8', s.syms('g', [N[4]], 'c8'))], uvSize=6.0, uvRes=1.0, wRes=0.1)
        cx.prove('WProjection: arrays of different lengths are refused', z3.BoolVal(ret.o is None and s.err is not None))

    with r.parallel():
        for c in GRIDS:
            grid(c, 'c8')
        grid(GRIDS[0], 'c16')
        r.contract('WProjection: arrays of different lengths', bad, FNS[:1], None, bounded='four mismatches')

    # ------------------------------------------------------------------ the compiled gridder
    def gridder(c):
        n, res, N, far, wk, dt, seed = c
        g = np.random.RandomState(seed)
        u, v = (g.uniform(-far, far, N) * n * res for _ in 'uv')
        if wk == 'flat':
            w = np.zeros(N)
        elif wk == 'planes':
            w = g.choice([-9.0, -4, -1, 0, 1, 4, 9], N) * min(1.0, n * res / 40)
        else:                           # as many planes as visibilities
            w = np.sign(np.arange(N) - N // 2) * ((np.arange(N) - N // 2) * 0.11) ** 2
        return real_case(n, res, u, v, w, dt, seed)

    def gcases():
        for k, (n, res) in enumerate([(64, 0.5), (160, 0.5), (32, 1.0), (50, 0.25), (33, 0.5), (16, 2.0)]):
            for N, far, wk in ((1, 0.4, 'flat'), (7, 0.4, 'flat'), (40, 0.4, 'planes'), (25, 2.5, 'flat'), (30, 1.2, 'planes')):
                yield n, res, N, far, wk, np.complex64 if (k + N) % 2 else np.complex128, r.seed * 1000 + k * 10 + N
        yield 16, 1.0, 1400, 0.4, 'many', np.complex64, r.seed
        if r.thorough:
            for k in range(40):
                yield r.rng.choice([20, 48, 81, 128]), r.rng.choice([0.25, 0.5, 1.0]), r.rng.randint(1, 100), r.rng.choice([0.3, 0.49, 1.7]), r.rng.choice(['flat', 'planes']), np.complex64, r.rng.randint(0, 9999)
    r.concrete('WProjection: images of gridded data are the Fourier sum', gcases(), gridder)

    # ------------------------------------------------------------------ images from data sets
    sys.path.insert(0, '/repo')
    sys.modules['lsl.imaging._gridder'] = rg
    if 'lsl.sim._simfast' not in sys.modules:
        sys.modules['lsl.sim._simfast'] = dsp.real('_simfast', ['lsl/sim/simfast.cpp'], ['-lgsl', '-lgslcblas'])
    import ephem
    from astropy.coordinates import SkyCoord, ICRS, FK5, AltAz
    from astropy.time import Time
    from astropy.wcs.utils import wcs_to_celestial_frame
    from astropy import units as un
    from lsl import astro
    from lsl.imaging import utils as U
    from lsl.imaging.data import VisibilityData, VisibilityDataSet, PolarizationDataSet
    from lsl.common.stations import lwa1
    from lsl.sim import vis as V
    for f in ('build_gridded_image', 'ImgWPlus.image', 'ImgWPlus.bm_image', 'ImgWPlus._gen_img', 'ImgWPlus.wcs', 'ImgWPlus.__iadd__', 'get_image_radec', 'get_image_azalt', 'plot_gridded_image'):
        r.functions.append('lsl/imaging/utils.py:' + f)
    aa = V.build_sim_array(lwa1, lwa1.antennas[0:8:2], np.array([40e6, 60e6]), jd=2458000.7, force_flat=True)
    src = V.RadioFixedBody(1.0, 0.6, name='src')

    def dset(seed, jd=2458000.7, nbl=6, nchan=3, far=15.0, pols=('XX', 'YY'), wmax=0.0):
        g = np.random.RandomState(seed)
        bls = [(i, j) for i in range(9) for j in range(i + 1, 9)][:nbl]
        uvw = g.uniform(-far, far, (nbl, 3, nchan))
        uvw[:, 2, :] = g.choice([-1.0, 0, 1], (nbl, nchan)) * wmax
        ds = VisibilityDataSet(jd, np.arange(nchan) * 1e6 + 50e6, bls, uvw, antennaarray=aa, phase_center=src)
        for p in pols:
            ds.append(PolarizationDataSet(p, data=(g.randn(nbl, nchan) + 1j * g.randn(nbl, nchan)).astype(np.complex64), weight=(g.rand(nbl, nchan) + 0.5).astype(np.float32)))
        return ds

    def fourier(sets, pol, chan, n, res, what='data', taper=(0, 0)):
        e = np.zeros((n, n))
        tot = 0.0
        for ds in sets:
            p = getattr(ds, pol)
            for b in range(len(ds.baselines)):
                for c in (range(ds.freq.size) if chan is None else chan):
                    u, v, w = ds.uvw[b, :, c]
                    x = complex(getattr(p, what)[b, c])
                    for t, q in zip(taper, (u, v)):
                        if t > 0:
                            x *= np.exp(np.log(0.3) * (q / t) ** 2)
                    e = e + 2 * (x * response(u, v, w, n, res)).real
                    tot += 2 * abs(x)
        return e, tot

    def snap(im):
        return im.uv.copy(), [b.copy() for b in im.bm], im.kern_corr.copy()

    def images(c):
        size, res, sets, pol, chan, wmax = c['size'], c['res'], c['sets'], c['pol'], c['chan'], c['wmax']
        n = int(round(size / res))
        S = [dset(c['seed'] + k, jd=2458000.7 + k / 100.0, far=size * 0.4, wmax=wmax) for k in range(sets)]
        data = S[0] if sets == 1 and not c.get('list') else VisibilityData(list(S))
        before = [(s.uvw.copy(), s.XX.data.copy(), s.XX.weight.copy()) for s in S]
        kw = dict(im_size=n, im_res=np.degrees(2 * np.arcsin(1 / size / 2))) if c.get('im') else dict(size=size, res=res)
        if c.get('into'):
            im = None
            for s in S:
                im = U.build_gridded_image(s, pol=pol, chan=chan, im=im, **kw)
        elif c.get('add'):
            im = U.build_gridded_image(S[0], pol=pol, chan=chan, **kw)
            for s in S[1:]:
                im += U.build_gridded_image(s, pol=pol, chan=chan, **kw)
        else:
            im = U.build_gridded_image(data, pol=pol, chan=chan, **kw)
        for s, (a, b, d) in zip(S, before):
            if not (np.array_equal(a, s.uvw) and np.array_equal(b, s.XX.data) and np.array_equal(d, s.XX.weight)):
                return 'gridding changes the data set (%s)' % (c,)
        ok = inner(n, res)
        kept = snap(im)
        if abs(im.size - size) > 1e-9 * size or abs(im.res - res) > 1e-9 or im.shape != (n, n):
            return 'an image of size %r, resolution %r, for %r, %r' % (im.size, im.res, size, res)
        ch = slice(None) if chan is None else np.atleast_1d(chan)
        tot = [0, 0]
        for s in S:
            p = getattr(s, pol)
            u, v, w = (np.concatenate([x, -x]) for x in (s.uvw[:, k, ch].ravel() for k in range(3)))
            x, g = p.data[:, ch].ravel(), p.weight[:, ch].ravel()
            x, g = np.concatenate([x, x.conj()]), np.concatenate([g, g]).astype(np.complex64)
            o = np.argsort(w, kind='stable')
            a, b, kc = rg.WProjection(u[o], v[o], w[o], x[o], g[o], float(im.size), float(im.res), 0.1)
            tot = [tot[0] + a, tot[1] + b]
        for what, a, b in (('uv plane', kept[0], tot[0]), ('weights', kept[1][0], tot[1]), ('correction', kept[2], kc)):
            if not np.allclose(a, b, rtol=1e-3, atol=1e-4 * abs(b).max()):
                return 'the gridded %s is not that of the visibilities and their conjugates: off by %.3g of %.3g (%s)' % (what, abs(a - b).max(), abs(b).max(), c)
        cl = None if chan is None else list(np.atleast_1d(chan))
        for what, get in (('data', lambda **k: im.image(**k)), ('weight', lambda **k: im.bm_image(**k)[0]), ('weight', lambda **k: im.bm_image(term=0, **k))):
            for taper in ((0.0, 0.0), (size / 5, 0.0), (0.0, size / 6), (size / 4, size / 7)):
                e, tot = fourier(S, pol, cl, n, res, what, taper)
                got = get(taper=taper)
                if got.shape != (n, n):
                    return 'an image of %s pixels, expected %d on a side' % (got.shape, n)
                d = abs(got - e)[ok].max() * n ** 2
                if not d <= (NEAR if not any(taper) else 2 * NEAR) * tot:
                    return '%s image (%s, taper %s) is off by %.3g of %.3g' % (what, c, taper, d, tot)
        # weighting: cell by cell of the gridded data, which stays as it is
        W = kept[1][0].real
        for what, get, plane in (('image', im.image, kept[0]), ('bm_image', lambda **k: im.bm_image(term=0, **k), kept[1][0])):
            for wt, rb in (('natural', 0.0), ('uniform', 0.0), ('briggs', 0.0), ('briggs', -1.0), ('briggs', 2.0), ('natural', 0.0), ('uniform', 0.0)):
                for cen in ((0, 0), (n // 2, n // 2), (3, n - 2)):
                    with np.errstate(all='ignore'):
                        got = get(center=cen, weighting=wt, robust=rb)
                        f = {'natural': np.ones_like(W), 'uniform': 1 / W, 'briggs': 1 / (1 + W * 25 * 10.0 ** (-2 * rb) * W.sum() / (W ** 2).sum())}[wt]
                    f = np.where((W == 0) & (wt != 'natural'), 0, f)
                    e = np.fft.ifft2(plane * f).real / kept[2]
                    e = np.roll(e, (-cen[0], -cen[1]), axis=(0, 1))
                    soft = 1e-5 * (abs(plane) * np.abs(f - f ** 2)).sum() / n ** 2 / abs(kept[2]).min() if wt == 'briggs' else 0.0      # weights near -1/S2
                    if not np.allclose(got, e, rtol=1e-3, atol=1e-4 * abs(e).max() + soft):
                        return '%s with %s weighting (robust %g) centered on %s differs by %.3g' % (what, wt, rb, cen, abs(got - e).max())
        now = snap(im)
        if not (np.array_equal(now[0], kept[0]) and np.array_equal(now[1][0], kept[1][0]) and np.array_equal(now[2], kept[2])):
            return 'making an image changes the gridded data'
        try:
            im.image(weighting='other')
            return 'an unknown weighting is accepted'
        except ValueError:
            pass
        last = S[0] if c.get('add') else S[-1]
        if im.mjd != last.mjd or im.phase_center is not last.phase_center:
            return 'time or phase center of the image: %s' % im.mjd

    def icases():
        k = r.seed * 100
        for size, res in ((32, 0.5), (30, 0.75), (80, 0.5)):
            for c in (dict(sets=1), dict(sets=1, pol='YY', chan=[0, 2]), dict(sets=3, list=True), dict(sets=3, into=True, chan=1), dict(sets=2, add=True, wmax=2.0), dict(sets=1, im=True, chan=[1])):
                if size == 80 and c['sets'] == 1 and not c.get('im'):
                    continue
                k += 10
                yield dict(dict(size=size, res=res, pol='XX', chan=None, wmax=0.0, seed=k), **c)
    r.concrete('build_gridded_image and ImgWPlus: images, weighting, tapers', icases(), images, limit_s=400)

    def refused(k):
        ds = dset(5)
        im = U.build_gridded_image(ds, size=32, res=0.5)
        for what, f, exc in (('polarization', lambda: U.build_gridded_image(ds, pol='XY'), RuntimeError),
                             ('image size', lambda: U.build_gridded_image(ds, size=40, res=0.5, im=im), ValueError),
                             ('image resolution', lambda: U.build_gridded_image(ds, size=32, res=1.0, im=im), ValueError),
                             ('w resolution', lambda: U.build_gridded_image(ds, size=32, res=0.5, wres=0.2, im=im), ValueError),
                             ('data', lambda: U.build_gridded_image([1, 2]), TypeError), ('image', lambda: U.build_gridded_image(ds, im=3), TypeError),
                             ('sum of sizes', lambda: im.__iadd__(U.build_gridded_image(ds, size=16, res=0.5)), ValueError)):
            try:
                f()
                return 'a wrong %s is accepted' % what
            except exc:
                pass
    r.concrete('build_gridded_image: wrong arguments are refused', [0], refused)

    # ------------------------------------------------------------------ coordinates
    def coords(c):
        kind, ra, dec, mjd, size, res = c
        n = int(round(size / res))
        im = U.ImgWPlus(size=size, res=res, wres=0.1)
        t = Time(mjd, format='mjd', scale='utc')
        here = FK5(equinox=t)
        if kind == 'equ_posn':
            im.phase_center = astro.equ_posn(ra, dec)
            want = FK5(ra=ra * un.deg, dec=dec * un.deg, equinox='J2000').transform_to(here)
        elif kind == 'icrs':
            im.phase_center = ICRS(ra=ra * un.deg, dec=dec * un.deg)
            want = im.phase_center.transform_to(here)
        elif kind == 'fk5':
            im.phase_center = FK5(ra=ra * un.deg, dec=dec * un.deg, equinox='J1980')
            want = im.phase_center.transform_to(here)
        elif kind == 'sky':
            im.phase_center = SkyCoord(ra=ra * un.deg, dec=dec * un.deg, frame='icrs')
            want = im.phase_center.transform_to(here)
        else:
            b = ephem.FixedBody()
            b._ra, b._dec, b._epoch = np.radians(ra), np.radians(dec), ephem.J2000
            o = ephem.Observer()
            o.date = t.utc.datetime
            b.compute(o)
            im.phase_center = b
            want = FK5(ra=float(b.ra) * un.rad, dec=float(b.dec) * un.rad, equinox=t)
        for bad in ('mjd', 'phase_center'):
            if bad == 'mjd':
                try:
                    im.wcs
                    return 'coordinates without a time'
                except RuntimeError:
                    pass
        im.mjd = t if kind in ('icrs', 'fk5') else mjd
        if abs(im.mjd - mjd) > 1e-9:
            return 'mjd set to %s reads %s' % (mjd, im.mjd)
        im.antennaarray = aa
        R, D = U.get_image_radec(im)
        L, M, k = lm(n, res)
        L, M = np.roll(L, (n // 2, n // 2), (0, 1)), np.roll(M, (n // 2, n // 2), (0, 1))
        ce = n // 2
        a0, d0 = want.ra.rad, want.dec.rad
        if abs(np.exp(1j * R[ce, ce]) - np.exp(1j * a0)) * np.cos(d0) > 1e-6 or abs(D[ce, ce] - d0) > 1e-6:
            return 'the center of the image is at (%g, %g), the phase center at (%g, %g) (%s)' % (R[ce, ce], D[ce, ce], a0, d0, kind)
        l = np.cos(D) * np.sin(R - a0)
        m = np.sin(D) * np.cos(d0) - np.cos(D) * np.sin(d0) * np.cos(R - a0)
        edge = np.roll(abs(k) * 2 == n, n // 2)           # half of the band: either sign
        vis = (L ** 2 + M ** 2 < 0.95) & ~edge[:, None] & ~edge[None, :]
        if not np.isfinite(R[vis]).all():
            return 'pixels above the horizon have no coordinates'
        if max(abs(l - L)[vis].max(), abs(m - M)[vis].max()) > 2e-4 + 2e-5 * n / size:
            return 'pixel coordinates are off by %.3g, %.3g in direction cosine (%s)' % (abs(l - L)[vis].max(), abs(m - M)[vis].max(), c)
        with np.errstate(all='ignore'):
            if np.isfinite(R[L ** 2 + M ** 2 > 1.01]).any():
                return 'pixels beyond the horizon have coordinates'
        fr = wcs_to_celestial_frame(im.wcs)
        if not isinstance(fr, FK5) or abs(fr.equinox.jyear - t.jyear) > 1e-3:
            return 'the coordinates are labelled %r' % fr
        R2, D2 = U.get_image_radec(im, shifted=False)
        if not (np.array_equal(R2, np.roll(R, (n // 2, n // 2), (0, 1)), equal_nan=True) and np.array_equal(D2, np.roll(D, (n // 2, n // 2), (0, 1)), equal_nan=True)):
            return 'unshifted coordinates are not the shifted ones rolled'
        az, alt = U.get_image_azalt(im)
        q = FK5(ra=R[vis] * un.rad, dec=D[vis] * un.rad, equinox=t).transform_to(AltAz(location=aa.earth_location, obstime=t))
        if max(abs(np.exp(1j * az[vis]) - np.exp(1j * q.az.rad))[abs(q.alt.rad) < 1.5].max(initial=0), abs(alt[vis] - q.alt.rad).max()) > 1e-6:
            return 'azimuth and altitude do not belong to the right ascension and declination'

    def ccases():
        for k, kind in enumerate(('equ_posn', 'icrs', 'fk5', 'sky', 'body')):
            for ra, dec in ((10.0, 34.0), (299.87, 40.73), (180.0, -20.0)):
                for size, res in ((16, 0.5), (40, 1.0)) if kind in ('sky', 'body') else ((15, 0.6), (13.5, 0.5), (14.5, 0.5), (17, 1)):
                    yield kind, ra, dec, 57000.25 + 1000 * k + ra, size, res
    r.concrete('ImgWPlus.wcs, get_image_radec, get_image_azalt', ccases(), coords, limit_s=300)

    # ------------------------------------------------------------------ a source appears where it is
    def source(c):
        jd, size, res, off = c
        A = V.build_sim_array(lwa1, [a for a in lwa1.antennas if a.pol == 0][:90:3], np.array([70e6, 72e6]), jd=jd, force_flat=True)
        A.set_jultime(jd)
        ra, dec = float(A.sidereal_time()) + off[0], float(A.lat) + off[1]
        body = V.RadioFixedBody(ra, dec, jys=10.0, index=0, epoch=A.date)
        ds = V.build_sim_data(A, {'s': body}, jd=jd, pols=['xx'], flat_response=True)
        im = U.build_gridded_image(ds, size=size, res=res, pol='XX')
        n = im.shape[0]
        img = im.image(center=(n // 2, n // 2))
        R, D = U.get_image_radec(im)
        body.compute(A)
        l = np.cos(D) * np.sin(R - float(body.ra))
        m = np.sin(D) * np.cos(float(body.dec)) - np.cos(D) * np.sin(float(body.dec)) * np.cos(R - float(body.ra))
        up = np.where(np.isfinite(R), img, -np.inf)
        y, x = np.unravel_index(up.argmax(), up.shape)
        if not max(abs(l[y, x]), abs(m[y, x])) <= 1.6 / size:
            return 'a source %s from the zenith appears (%.3g, %.3g) away in direction cosine (pixels of %.3g)' % (off, l[y, x], m[y, x], 1 / size)
        b = im.bm_image(term=0, center=(n // 2, n // 2))
        pk = img.max() / b.max()
        if not abs(pk - 10.0) < 2.0:
            return 'a source of 10 Jy peaks at %.3g' % pk
    r.concrete('a simulated source appears at its coordinates with its flux', [(2458000.7, 80, 0.5, (0.0, 0.0)), (2458000.9, 80, 0.5, (0.3, -0.2)), (2458001.1, 60, 0.5, (-0.35, 0.25)), (2457000.1, 80, 0.5, (0.25, 0.3))], source, limit_s=300)
