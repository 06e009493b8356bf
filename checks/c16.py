"""C16: uvw geometry."""
import math
import numpy as np
from fractions import Fraction
from pv.loader import SymLoader
from pv.sym import And, X, SFloat
import z3

C = 299792458


def run(r):
    ld = SymLoader(symbolic={'lsl.correlator.uvutils'})
    uvs = ld.load('lsl.correlator.uvutils')
    from lsl.correlator import uvutils as uv
    from lsl.common import stations as st
    from lsl import astro
    import ephem
    from astropy.coordinates import Angle, EarthLocation
    import astropy.units as u

    r.assume('floating point treated as real arithmetic (the battery checks the doubles to 1e-9 relative)',
             'sin and cos uninterpreted: the identities are proved as polynomial identities in sin/cos of the same arguments')

    class Site:
        pass

    def mk(cx, n):
        a = st.Antenna(n + 1, stand=st.Stand(n + 1, 0, 0, 0))
        for k in 'xyz':
            setattr(a.stand, k, cx.real_input('%s%d' % (k, n), -10**5, 10**5))
        return a

    def trig(x):
        x = SFloat.of(x)
        return X(x.sin()), X(x.cos())

    def project(a1, a2, HA, dec, lat):
        E, N, U = (X(getattr(a1.stand, k)) - X(getattr(a2.stand, k)) for k in 'xyz')
        sl, cl = trig(lat)
        sh, ch = trig(HA * 15.0 * np.pi / 180)
        sd, cd = trig(dec * np.pi / 180)
        # source direction, and the east and north axes on the sky there, in (E, N, U)
        w = (-cd * sh, cl * sd - sl * cd * ch, sl * sd + cl * cd * ch)
        uu = (ch, -(sl * sh), cl * sh)
        vv = (sd * sh, cl * cd + sl * sd * ch, sl * cd - cl * sd * ch)
        return [a[0] * E + a[1] * N + a[2] * U for a in (uu, vv, w)]

    def single(cx):
        ants = [mk(cx, i) for i in range(2)]
        HA = cx.real_input('HA', -24, 24)
        dec = cx.real_input('dec', -90, 90)
        site = Site()
        site.lat = cx.real_input('lat', -2, 2)
        f = cx.real_input('f0', 10**6, 10**9)
        out = uvs.compute_uvw([(ants[0], ants[1])], HA=HA, dec=dec, freq=f, site=site)
        p = project(ants[0], ants[1], HA, dec, site.lat)
        for k in range(3):
            cx.prove('compute_uvw of one baseline: %s' % 'uvw'[k], X(out[0, k, 0]) == p[k] * X(f) / C)

    def geo(cx):
        ants = [mk(cx, i) for i in range(3)]
        HA = cx.real_input('HA', -24, 24)
        dec = cx.real_input('dec', -90, 90)
        site = Site()
        site.lat = cx.real_input('lat', -2, 2)
        f = [cx.real_input('f0', 10**6, 10**9), cx.real_input('f1', 10**6, 10**9)]
        auto = bool(cx.bool_input('auto'))
        pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)] if auto else [(0, 1), (0, 2), (1, 2)]
        out = uvs.compute_uvw(ants, HA=HA, dec=dec, freq=list(f), site=site, include_auto=auto)
        cx.prove('compute_uvw: shape', out.shape == (len(pairs), 3, 2))
        sel = [(ants[2], ants[0])]
        out2 = uvs.compute_uvw(sel, HA=HA, dec=dec, freq=f[1], site=site)
        cx.prove('compute_uvw: shape (explicit baselines)', out2.shape == (1, 3, 1))
        for b, (i, j) in enumerate(pairs):
            p = project(ants[i], ants[j], HA, dec, site.lat)
            for k in range(3):
                for m in range(2):
                    cx.prove('compute_uvw: %s is the projected separation in wavelengths' % 'uvw'[k],
                             X(out[b, k, m]) == p[k] * X(f[m]) / C)
        p = project(ants[2], ants[0], HA, dec, site.lat)
        for k in range(3):
            cx.prove('compute_uvw: %s (explicit baselines)' % 'uvw'[k], X(out2[0, k, 0]) == p[k] * X(f[1]) / C)

    def proj(E, N, U, H, d, lat):
        sl, cl, sh, ch, sd, cd = math.sin(lat), math.cos(lat), math.sin(H), math.cos(H), math.sin(d), math.cos(d)
        w = (-cd * sh, cl * sd - sl * cd * ch, sl * sd + cl * cd * ch)
        uu = (ch, -sl * sh, cl * sh)
        vv = (sd * sh, cl * cd + sl * sd * ch, sl * cd - cl * sd * ch)
        return np.array([a[0] * E + a[1] * N + a[2] * U for a in (uu, vv, w)])

    def chk(i):
        ants = []
        for n in range(3):
            ants.append(st.Antenna(n + 1, stand=st.Stand(n + 1, *[float(i['%s%d' % (k, n)]) for k in 'xyz'])))
        HA, dec, lat = float(i['HA']), float(i['dec']), float(i['lat'])
        site = Site()
        site.lat = lat
        f = [float(i['f0']), float(i['f1'])]
        form = i.get('form', 0)
        H, d = HA, dec
        if form == 1:
            H, d = Angle(HA, 'hourangle'), Angle(dec, 'deg')
        elif form == 2:
            H, d = ephem.hours(HA * math.pi / 12), ephem.degrees(dec * math.pi / 180)
        elif form == 3 and abs(lat) < 1.57:
            site = EarthLocation.from_geodetic(20 * u.deg, lat * u.rad)
            lat = site.lat.rad
        elif form == 4:
            H, d = astro.deg_to_hms(HA * 15 % 360), astro.deg_to_dms(dec)
        auto = bool(i.get('auto'))
        pairs = [(a, b) for a in range(3) for b in range(a + (0 if auto else 1), 3)]
        tol = 1e-9 if form != 4 else 1e-6
        scale = max(1.0, max(abs(float(i['%s%d' % (k, n)])) for k in 'xyz' for n in range(3)))
        forms = [(f, (len(pairs), 3, 2)), (np.array(f), (len(pairs), 3, 2)), (f[0], (len(pairs), 3, 1)),
                 (np.array([[f[0], f[1]], [f[1], f[0]]]), (len(pairs), 3, 2, 2))]
        for ff, shp in forms:
            out = uv.compute_uvw(ants, HA=H, dec=d, freq=ff, site=site, include_auto=auto)
            if out.shape != shp:
                return 'compute_uvw of shape %r instead of %r' % (out.shape, shp)
            for b, (p, q) in enumerate(pairs):
                e = proj(*[getattr(ants[p].stand, k) - getattr(ants[q].stand, k) for k in 'xyz'], HA * math.pi / 12, dec * math.pi / 180, lat)
                want = np.multiply.outer(e, np.atleast_1d(np.array(ff))) / C
                if np.max(np.abs(out[b] - want)) > tol * scale * max(f) / C:
                    return 'compute_uvw baseline %r at HA=%r h dec=%r lat=%r: %r instead of %r' % ((p, q), HA, dec, lat, out[b].tolist(), want.tolist())
        one = uv.compute_uvw([(ants[2], ants[1])], HA=H, dec=d, freq=f[0], site=site)
        two = uv.compute_uvw([(ants[1], ants[2])], HA=H, dec=d, freq=f[0], site=site)
        if not np.array_equal(one, -two):
            return 'compute_uvw is not antisymmetric in the antennas'
        # track: every point lies on the ellipse the projected baseline sweeps
        tr = uv.compute_uv_track(ants, dec=d if form in (0, 1, 2) else dec, freq=f[0], site=site)
        if tr.shape != (3, 2, 512):
            return 'compute_uv_track shape %r' % (tr.shape,)
        for b, (p, q) in enumerate([(0, 1), (0, 2), (1, 2)]):
            E, N, U = [getattr(ants[p].stand, k) - getattr(ants[q].stand, k) for k in 'xyz']
            Xc, Yc, Z = -math.sin(lat) * N + math.cos(lat) * U, E, math.cos(lat) * N + math.sin(lat) * U
            s = f[0] / C
            R = math.hypot(Xc, Yc) * s
            dr = dec * math.pi / 180
            uu, vv = tr[b]
            if np.max(np.abs(uu)) > R * (1 + 1e-9) + 1e-9 or abs(np.max(uu) - R) > 1e-9 * (1 + R) or abs(np.min(uu) + R) > 1e-9 * (1 + R):
                return 'compute_uv_track: u range of baseline %r' % ((p, q),)
            res = (vv - Z * s * math.cos(dr))**2 - math.sin(dr)**2 * np.maximum(R**2 - uu**2, 0)
            if np.max(np.abs(res)) > 1e-6 * max(1.0, (scale * s)**2):
                return 'compute_uv_track: baseline %r is off its ellipse' % ((p, q),)
            h1, h2 = (vv[:256] - Z * s * math.cos(dr)) * np.sign(math.sin(dr)), (vv[256:] - Z * s * math.cos(dr)) * np.sign(math.sin(dr))
            if np.min(h1) < -1e-6 * scale * s or np.max(h2) > 1e-6 * scale * s:
                return 'compute_uv_track: halves of baseline %r' % ((p, q),)
    def chk1(i):
        i = dict(i, x2=0.0, y2=0.0, z2=1.0, f1=5e7)
        return chk(i)
    r.contract('uvw of one baseline at one frequency', single, ['lsl.correlator.uvutils.compute_uvw'], chk1)
    r.contract('uvw of antenna lists and frequency arrays', geo, ['lsl.correlator.uvutils.compute_uvw', 'lsl.correlator.uvutils.get_baselines',
               'lsl.common.stations.Stand.__sub__'], chk, bounded='list lengths 3 (antennas) and 2 (frequencies); all coordinates, angles and frequencies symbolic')
    r.trust('Antenna/Stand equality and construction of lsl.common.stations')

    # station matrices
    sst = [st.lwa1, st.lwasv, st.lwana]

    def chk_st(c):
        k, lat = c
        if k == 'mat':
            s = st.LWAStation('T', lat, -100.0, 1000.0)
            A, B = s.eci_transform_matrix, s.eci_inverse_transform_matrix
            if np.max(np.abs(A @ B - np.eye(3))) > 1e-12 or np.max(np.abs(B @ A - np.eye(3))) > 1e-12:
                return 'the station matrices at latitude %r are not inverse to each other' % lat
            l = math.radians(lat)
            if np.max(np.abs(A @ [0, 0, 1] - [math.cos(l), 0, math.sin(l)])) > 1e-9 or np.max(np.abs(A @ [1, 0, 0] - [0, 1, 0])) > 1e-12 \
                    or np.max(np.abs(A @ [0, 1, 0] - [-math.sin(l), 0, math.cos(l)])) > 1e-9:
                return 'the station matrix at latitude %r does not map east/north/up to the equatorial frame' % lat
        else:
            la, lo, h = c[1]
            x, y, z = st.geo_to_ecef(math.radians(la), math.radians(lo), h)
            a, e2 = 6378137.0, 0.00669437999014
            n = a / math.sqrt(1 - e2 * math.sin(math.radians(la))**2)
            want = ((n + h) * math.cos(math.radians(la)) * math.cos(math.radians(lo)), (n + h) * math.cos(math.radians(la)) * math.sin(math.radians(lo)), (n * (1 - e2) + h) * math.sin(math.radians(la)))
            if max(abs(p - q) for p, q in zip((x, y, z), want)) > 1e-3:
                return 'geo_to_ecef(%r) = %r, expected %r' % (c[1], (x, y, z), want)
            b = st.ecef_to_geo(x, y, z)
            if abs(b[0] - math.radians(la)) > 1e-9 or abs(math.sin(b[1] - math.radians(lo))) > 1e-9 or abs(b[2] - h) > 1e-3:
                return 'ecef_to_geo(geo_to_ecef(%r)) = %r' % (c[1], b)
    rng = r.rng

    def cases():
        for k in range(400 if not r.thorough else 6000):
            big = rng.choice([10.0, 100.0, 1e5])
            d = {'%s%d' % (a, n): rng.uniform(-big, big) for a in 'xyz' for n in range(3)}
            if k % 7 == 0:
                d.update(z0=0.0, z1=0.0, z2=0.0)
            d.update(HA=rng.choice([rng.uniform(-12, 12), 0.0, 6.0, -6.0]), dec=rng.choice([rng.uniform(-90, 90), 34.07, 0.0, 90.0, -30.0]),
                     lat=rng.choice([rng.uniform(-1.5, 1.5), 0.0, 0.6]), f0=rng.choice([10e6, 49e6, 74e6, 88e6]), f1=rng.uniform(1e7, 1e8),
                     auto=rng.random() < .5, form=k % 5)
            yield ('uvw', d)
        for k in range(60):
            yield ('mat', rng.uniform(-90, 90))
            yield ('geo', (rng.uniform(-89, 89), rng.uniform(-180, 180), rng.uniform(0, 4000)))
    r.concrete('uvw, tracks and station frames on the real code', cases(), lambda c: chk(c[1]) if c[0] == 'uvw' else chk_st(c), limit_s=90)
