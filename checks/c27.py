"""C27: simulated visibilities: the fast simulator, and the data sets built, shifted and perturbed with it."""
import math
import sys
import numpy as np
import z3
from pv import dsp
from pv.dsp import bessel_j1

LEVEL = 'exploration'
FILES = ['lsl/sim/simfast.cpp']
BOUND = 'antenna positions, directions and sizes as listed; every value of the flux densities'
FNS = ['lsl/sim/simfast.cpp:FastVis', 'lsl/sim/simfast.cpp:compute_visibility']
LIGHT = 299792458.0


def axes(s):
    """(u, v, w) axes, equatorial, of the direction s: w along s, u towards east, v towards north"""
    s = np.asarray(s, float)
    u = np.cross([0, 0, 1.0], s)
    u /= np.linalg.norm(u)
    return np.array([u, np.cross(s, u), s])


def hadec(ha, dec):
    return np.array([math.cos(dec) * math.cos(ha), -math.cos(dec) * math.sin(ha), math.sin(dec)])


def azel(lat, az, el):
    """equatorial unit vector of a direction given in degrees from north through east, above the horizon"""
    az, el = math.radians(az), math.radians(el)
    e, n, u = math.cos(el) * math.sin(az), math.cos(el) * math.cos(az), math.sin(el)
    return np.array([-math.sin(lat) * n + math.cos(lat) * u, e, math.cos(lat) * n + math.sin(lat) * u])


def fall(shape, u, v):
    """visibility of a uniform elliptical disc"""
    a, b, th = shape
    if a == 0 or b == 0:
        return 1.0
    x = 2 * math.pi * math.hypot(a * (u * math.cos(th) - v * math.sin(th)), b * (u * math.sin(th) + v * math.cos(th)))
    return 1.0 if x == 0 else 2 * bessel_j1(x) / x


def coefficients(pos, bls, freq, srcs, lat, pc, chans, resolve):
    """uvw (nBL, 3, nChan) and the response (nBL, nChan, nSrc) to a unit flux density"""
    P = axes(azel(lat, *pc))
    uvw = np.zeros((len(bls), 3, len(freq)))
    resp = np.zeros((len(bls), len(freq), len(srcs)), complex)
    for b, (i, j) in enumerate(bls):
        d = np.array(pos[i]) - np.array(pos[j])
        for c in chans:
            uvw[b, :, c] = P @ d * freq[c]
            for k, (ha, dec, shape) in enumerate(srcs):
                u, v, w = axes(hadec(ha, dec)) @ d * freq[c]
                resp[b, c, k] = np.exp(2j * np.pi * (w - uvw[b, 2, c])) * (fall(shape, u, v) if resolve else 1.0)
    return uvw, resp


POS = [(0.0, 0.0, 0.0), (31.5, -120.25, 14.0), (-77.0, 260.5, 301.25), (150.0, 3.0, -95.5)]
SRC = [(0.3, 0.5, (0.0, 0.0, 0.0)), (-1.1, 0.9, (0.02, 0.007, 0.4)), (0.7, -0.3, (0.01, 0.03, -1.2))]
CASES = [  # name, antennas, baselines, channels, sources, latitude, (az, el), (first, last), flux type, resolve, 2-D frequencies
    ('three antennas', 3, [(0, 1), (0, 2), (1, 2)], [0.04, 0.055, 0.08], 2, 0.6, (0.0, 90.0), (0, -1), 'f8', 0, False),
    ('resolved', 4, [(3, 1), (2, 0)], [0.04, 0.07], 3, 0.6, (77.0, 40.0), (0, -1), 'f4', 1, True),
    ('complex flux', 2, [(1, 0), (0, 0), (1, 1), (0, 1)], [0.05, 0.06], 3, -0.4, (200.0, 61.0), (0, -1), 'c16', 1, False),
    ('channels', 3, [(0, 2), (2, 1)], [0.02, 0.03, 0.04, 0.05], 1, 0.59, (300.0, 25.0), (1, 2), 'c8', 0, True),
    ('one channel', 3, [(0, 2), (2, 1)], [0.02, 0.03, 0.04], 1, 0.59, (10.0, 85.0), (2, 2), 'f8', 1, False),
    ('first channel', 2, [(0, 1)], [0.02, 0.03, 0.04], 2, 0.59, (10.0, 85.0), (0, 0), 'f8', 0, False),
    ('no baselines', 2, [], [0.02], 1, 0.59, (10.0, 85.0), (0, -1), 'f8', 0, False),
    ('one frequency', 4, [(0, 3), (1, 3), (2, 3)], [0.088], 2, 1.1, (180.0, 90.0), (0, -1), 'f4', 1, True)]


def run(r):
    r.assume('floating point treated as real arithmetic in the contracts (constants to 1e-6); one thread (the battery runs the OpenMP build)',
             'antenna positions and directions are concrete in the symbolic contracts, sampled more widely by the battery; all antennas share one beam and bandpass (as documented)')
    r.trust('GSL, libm, NumPy C API (assumed contracts in pv/dsp.py, pv/capi.py); aipy (antennas, sources, ephemeris), astropy')
    S = dsp.ext('_simfast', FILES)
    rs = dsp.real('_simfast', FILES, ['-lgsl', '-lgslcblas'])
    DT = dict(f4=np.float32, f8=np.float64, c8=np.complex64, c16=np.complex128)

    class Ant:
        def __init__(self, p):
            self.pos = np.array(p, float)

    class Arr:
        def __init__(self, pos, freq, lat, two):
            self.ants, self.lat = [Ant(p) for p in pos], lat
            self.freq = np.array([freq] if two else freq, float)

        def __len__(self):
            return len(self.ants)

        def __getitem__(self, k):
            return self.ants[k]

        def get_afreqs(self):
            return self.freq.copy()

    def fast(pos, bls, freq, srcs, lat, pc, ch, typ, resolve, two, seed):
        g = np.random.RandomState(seed)
        aa = Arr(pos, freq, lat, two)
        F = g.randn(len(srcs), len(freq)) * 10
        if typ in ('c8', 'c16'):
            F = F + 1j * g.randn(*F.shape)
        F = F.astype(DT[typ])
        aa._cache = {'s_ha': np.array([s[0] for s in srcs]), 's_dec': np.array([s[1] for s in srcs]), 'jys': F, 's_shp': tuple(np.array([s[2][k] for s in srcs]) for k in range(3))}
        keep = [aa._cache['s_ha'].copy(), F.copy()]
        uvw, vis = rs.FastVis(aa, bls, ch[0], ch[1], pc[0], pc[1], resolve_src=bool(resolve))
        chans = range(ch[0], len(freq) if ch[1] < ch[0] else ch[1] + 1)
        U, R = coefficients(pos, bls, freq, srcs, lat, pc, chans, resolve)
        V = np.einsum('bcs,sc->bc', R, F)
        tot = abs(F).sum() + 1e-9
        if uvw.shape != U.shape or vis.shape != V.shape or uvw.dtype != np.float64 or vis.dtype != np.complex64:
            return 'FastVis: results %s %s for %d baselines and %d channels' % (uvw.shape, vis.shape, len(bls), len(freq))
        if U.size and abs(uvw - U).max() > 1e-6 * (1 + abs(U).max()):
            return 'FastVis: uvw off by %.3g for the phase center %s, latitude %g' % (abs(uvw - U).max(), pc, lat)
        if V.size and not abs(vis - V).max() <= 1e-5 * tot + 1e-7 * tot * (1 + abs(U).max()):
            return 'FastVis: visibilities off by %.3g of %.3g (%s, resolve %r, channels %s)' % (abs(vis - V).max(), tot, typ, resolve, ch)
        if not (np.array_equal(keep[0], aa._cache['s_ha']) and np.array_equal(keep[1], F)):
            return 'FastVis changes its arguments'

    def contract(case):
        name, nA, bls, freq, nS, lat, pc, ch, typ, resolve, two = case
        pos, srcs = POS[:nA], SRC[:nS]

        def go(cx):
            s = dsp.Session(cx, S)
            env = s.env
            num = lambda k: env.pyint(k & (1 << 64) - 1, 64, True)
            F = s.syms('S', [nS, len(freq)], typ)
            vec = lambda x: s.array([len(x)], 'f8', [float(y) for y in x])
            ants = [env.new('antenna', fields={'pos': vec(p)}) for p in pos]
            cache = {'s_ha': vec([x[0] for x in srcs]), 's_dec': vec([x[1] for x in srcs]), 'jys': s.array([nS, len(freq)], typ, F),
                     's_shp': s.array([3, nS], 'f8', [float(x[2][k]) for k in range(3) for x in srcs])}
            aa = env.new('array', items=ants, fields={'lat': env.new('float', v=float(lat)), '_cache': env.new('dict', items=cache)},
                         methods={'get_afreqs': lambda *a: s.array(([1] if two else []) + [len(freq)], 'f8', [float(x) for x in freq]), '__len__': lambda *a: num(nA)})
            bl = env.new('list', items=[env.new('tuple', items=[num(i), num(j)]) for i, j in bls], methods={'__len__': lambda *a: num(len(bls))})
            ret = s.call('FastVis', [aa, bl, ch[0], ch[1] & (1 << 64) - 1, float(pc[0]), float(pc[1])], resolve_src=resolve)
            cx.prove('FastVis: returns', z3.BoolVal(ret.o is not None and s.err is None))
            items = env.obj(ret).attrs['items']
            d1, uvw = s.values(items[0])
            d2, vis = s.values(items[1])
            cx.prove('FastVis: uvw and visibilities for every baseline and channel', z3.BoolVal(list(d1) == [len(bls), 3, len(freq)] and list(d2) == [len(bls), len(freq)] and None not in uvw and None not in vis))
            chans = range(ch[0], len(freq) if ch[1] < ch[0] else ch[1] + 1)
            U, R = coefficients(pos, bls, freq, srcs, lat, pc, chans, resolve)
            got = np.array([float(x.as_fraction()) for x in map(dsp.norm, uvw)]).reshape(U.shape) if U.size else U
            cx.prove('FastVis: uvw are the projections of the baseline for the phase center', z3.BoolVal(not U.size or bool(abs(got - U).max() <= 1e-6 * (1 + abs(U).max()))), 'baselines %s' % (bls,))
            for b in range(len(bls)):
                for c in range(len(freq)):
                    re, im = dsp.Q(0), dsp.Q(0)
                    for k in range(nS):
                        f = F[k * len(freq) + c]
                        f = f if isinstance(f, tuple) else (f, dsp.Q(0))
                        x = complex(R[b, c, k])
                        re, im = re + dsp.Q(x.real) * f[0] - dsp.Q(x.imag) * f[1], im + dsp.Q(x.real) * f[1] + dsp.Q(x.imag) * f[0]
                    for what, a, e in (('real', vis[b * len(freq) + c][0], re), ('imaginary', vis[b * len(freq) + c][1], im)):
                        # coefficients to 2e-6 of a unit response (zenith is 1e-8 rad off in the code)
                        p, q = dsp.poly(a), dsp.poly(e)
                        ok = all(abs(float(p.get(m, 0) - q.get(m, 0))) <= 2e-5 for m in set(p) | set(q))
                        cx.prove('FastVis: %s part is the sum over the sources of flux density times phase, relative to the phase center' % what, z3.BoolVal(ok), 'baseline %s channel %d' % (bls[b], c))
            for n, v in cache.items():
                cx.prove('FastVis: the simulation cache is left as it was', z3.BoolVal(env.obj(v).attrs['ref'] == 1), n)

        def rep(i):
            return fast(pos, bls, freq, srcs, lat, pc, ch, typ, resolve, two, 1)
        r.contract('FastVis: ' + name, go, FNS, rep, bounded=BOUND)

    def bad(cx):
        k = cx.int_input('which', 0, 8).__index__()
        s = dsp.Session(cx, S)
        env = s.env
        num = lambda k: env.pyint(k, 64, True)
        z = lambda *d: s.array(list(d), 'f8', [0.1] * int(np.prod(d)))
        cache = {'s_ha': z(2), 's_dec': z(3 if k == 0 else 2), 'jys': z(*((3, 2) if k == 1 else (2, 3) if k == 2 else (2, 2))), 's_shp': z(*((2, 2) if k == 3 else (3, 4) if k == 4 else (3, 2)))}
        if k >= 5:
            del cache[('s_ha', 's_dec', 'jys', 's_shp')[k - 5]]
        aa = env.new('array', items=[env.new('antenna', fields={'pos': z(3)})], fields={'lat': env.new('float', v=0.5), '_cache': env.new('dict', items=cache)},
                     methods={'get_afreqs': lambda *a: z(2), '__len__': lambda *a: num(1)})
        bl = env.new('list', items=[], methods={'__len__': lambda *a: num(0)})
        ret = s.call('FastVis', [aa, bl, 0, (1 << 64) - 1, 0.0, 90.0])
        cx.prove('FastVis: a cache that is incomplete or of mismatched sizes is refused', z3.BoolVal(ret.o is None and s.err is not None), 'case %d' % k)

    with r.parallel():
        for c in CASES:
            contract(c)
        r.contract('FastVis: refusals', bad, FNS[:1], None, bounded='nine mismatches')

    def fcases():
        g = np.random.RandomState(r.seed)
        for k in range(400 if r.thorough else 60):
            nA, nC, nS = g.randint(1, 7), g.randint(1, 7), g.randint(1, 6)
            pos = g.uniform(-300, 300, (nA, 3))
            bls = [tuple(int(x) for x in g.randint(0, nA, 2)) for _ in range(g.randint(0, 12))]
            srcs = [(g.uniform(-3, 3), g.uniform(-1.4, 1.4), tuple(g.choice([0, 1]) * g.uniform(0.001, 0.05, 2)) + (g.uniform(-2, 2),)) for _ in range(nS)]
            a = int(g.randint(0, nC))
            ch = [(0, -1), (a, int(g.randint(a, nC))), (a, -1)][g.randint(0, 3)]
            yield pos, bls, sorted(g.uniform(0.01, 0.09, nC)), srcs, g.uniform(-1.3, 1.3), (g.uniform(0, 360), g.choice([90.0, g.uniform(-30, 89)])), ch, g.choice(['f4', 'f8', 'c8', 'c16']), g.randint(0, 2), bool(g.randint(0, 2)), k
    r.concrete('FastVis: the sum over the sources', fcases(), lambda c: fast(*c))

    # ------------------------------------------------------------------ data sets
    sys.path.insert(0, '/repo')
    sys.modules['lsl.sim._simfast'] = rs
    import aipy
    import logging
    logging.disable(logging.CRITICAL)
    from astropy.coordinates import SkyCoord, ICRS, FK5
    from astropy import units as un
    from lsl.common.stations import lwa1
    from lsl.imaging.data import VisibilityData, VisibilityDataSet, PolarizationDataSet
    from lsl.sim import vis as V
    for f in ('build_sim_array', 'build_sim_data', '__build_sim_data', 'shift_data', 'add_baseline_noise', 'Antenna.bm_response', 'Antenna.get_beam_shape', 'Beam.response', 'Beam2DGaussian.response', 'BeamAlm.response',
              'AntennaArray.sim', 'AntennaArray.gen_uvw_fast', 'AntennaArray.get_baseline_fast', 'AntennaArray.gen_phs_fast', 'RadioFixedBody.from_astropy', 'RadioFixedBody.astropy'):
        r.functions.append('lsl/sim/vis.py:' + f)
    X = [a for a in lwa1.antennas if a.pol == 0]

    def gauss(top, pol, sx, sy):
        """response (aipy: square root of a Gaussian); the widths are east-west and north-south for X, turned by 90 degrees for Y"""
        e, n, _ = top
        a, b = (e, n) if pol == 'x' else (n, e)
        return math.exp(-0.25 * ((math.asin(a) / sx) ** 2 + (math.asin(b) / sy) ** 2))

    def scene(aa, seed, nS=4):
        g = np.random.RandomState(seed)
        lst = float(aa.sidereal_time())
        out = {}
        for k in range(nS):
            out['s%d' % k] = V.RadioFixedBody(lst + g.uniform(-0.8, 0.8), g.uniform(-0.1, 1.3), name='s%d' % k, jys=g.uniform(1, 20), index=g.uniform(-1, 0.5), mfreq=0.05, srcshape=(0.02, 0.01, 0.7) if k % 2 else (0., 0., 0.))
        ra, dec = aa.radec_of(g.uniform(0, 6.2), math.radians(2.0))
        out['low'] = V.RadioFixedBody(float(ra), float(dec), name='low', epoch=aa.date, jys=30.0, index=0.0, mfreq=0.05)
        out['down'] = V.RadioFixedBody(lst + 2.9, -0.5, name='down', jys=1000.0)
        return out

    def sim(c):
        k, beam, jds, pols, chan, pc, flat, resolve, bl, nf, call = c
        jd0 = 2457800.25 + 33.3 * k
        ants = X[k % 7::23][:5]
        freq = np.linspace(30e6, 80e6, nf) if nf > 1 else np.array([55e6])
        given = {0: freq, 1: freq / 1e9, 2: list(freq), 3: freq.astype(np.int64)}[k % 4]
        kw = {'flat': dict(force_flat=True), 'gauss': dict(force_gaussian=(70.0, 95.0)), 'round': dict(force_gaussian=80.0), 'alm': {}}[beam]
        aa = V.build_sim_array(lwa1, ants, given, jd=jd0, **kw)
        if not np.allclose(np.ravel(aa.get_afreqs()) * 1e9, freq, rtol=1e-9):
            return 'frequencies of the array %s for %s' % (aa.get_afreqs(), given)
        if list(aa.get_stands()) != [a.stand.id for a in ants]:
            return 'stands of the array'
        if call == 'again':                 # another simulation first
            V.build_sim_data(aa, scene(aa, 99), pols=['yy', 'xx'], jd=jd0 - 0.1, flat_response=not flat)
        srcs = scene(aa, k + r.seed)
        band = np.ones(nf)
        if k % 3 == 1:                      # a bandpass
            band = np.linspace(0.5, 1.7, nf)
            for a in aa.ants:
                a.amp = band
                a.update()
        jd = [jd0 + 0.004 * q for q in range(jds)]
        if pc == 'body':
            center = V.RadioFixedBody(float(aa.sidereal_time()) + 0.35, 0.45, name='pc')
        elif pc == 'sky':
            center = SkyCoord(float(aa.sidereal_time()) * un.rad, 50 * un.deg, frame='icrs')
        else:
            center = 'z'
        bls = None if bl is None else [tuple(b) for b in bl]
        out = V.build_sim_data(aa, srcs, pols=list(pols), jd=jd[0] if jds == 1 and k % 2 else jd, chan=chan, phase_center=center, baselines=bls, flat_response=flat, resolve_src=resolve)
        sets = [out] if jds == 1 else list(out)
        if not isinstance(out, VisibilityDataSet if jds == 1 else VisibilityData) or len(sets) != jds:
            return 'a simulation of %d times gives %r' % (jds, out)
        want = bls if bls is not None else [(i, j) for i in range(5) for j in range(i + 1, 5)]
        xyz = np.array([a.stand.xyz for a in ants])
        ch = range(nf) if chan is None else range(chan[0], chan[-1] + 1)
        sx, sy = [math.radians(x) / (2 * math.sqrt(2 * math.log(2))) for x in ((70.0, 95.0) if beam == 'gauss' else (80.0, 80.0))]
        # what belongs to one polarization belongs to no other
        for ds in sets:
            for n in range(1, len(pols)):
                for m in range(n):
                    if np.shares_memory(getattr(ds, pols[n].upper()).data, getattr(ds, pols[m].upper()).data):
                        return 'polarizations %s and %s of a simulation share their data (flat_response=%r)' % (pols[n], pols[m], flat)
        for ds, t in zip(sets, jd):
            if abs(ds.jd - t) * 86400 > 0.01 or list(map(tuple, ds.baselines)) != want or not np.allclose(ds.freq, freq, rtol=1e-9) or list(ds.pols) != [p.upper() for p in pols]:
                return 'time, baselines, frequencies or polarizations: %s %s %s %s' % (ds.jd, ds.baselines, ds.freq, ds.pols)
            ob = V.build_sim_array(lwa1, ants, freq, jd=t, force_flat=True)
            dirs = {}
            for n, s in srcs.items():
                q = V.RadioFixedBody(s._ra, s._dec, epoch=s._epoch, jys=s._jys, index=s.index, mfreq=s.mfreq)
                q.compute(ob)
                dirs[n] = np.array([math.sin(q.az) * math.cos(q.alt), math.cos(q.az) * math.cos(q.alt), math.sin(q.alt)])
            if pc == 'z':
                p = np.array([0, 0, 1.0])
            else:
                q = center if pc == 'body' else V.RadioFixedBody(center.ra.rad, center.dec.rad)
                q = V.RadioFixedBody(q._ra, q._dec)
                q.compute(ob)
                p = np.array([math.sin(q.az) * math.cos(q.alt), math.cos(q.az) * math.cos(q.alt), math.sin(q.alt)])
                if abs(float(ds.phase_center._dec) - float(q._dec)) > 1e-6:
                    return 'phase center of the data set'
            lat = float(ob.lat)
            M = np.array([[0, -math.sin(lat), math.cos(lat)], [1, 0, 0], [0, math.cos(lat), math.sin(lat)]])
            A = axes(M @ p)
            for b, (i, j) in enumerate(want):
                d = M @ (xyz[i] - xyz[j]) / LIGHT
                for n in ch:
                    e = A @ d * freq[n]
                    if abs(ds.uvw[b, :, n] - e).max() > 2e-4 * (1 + abs(e).max()):
                        return 'uvw %s, expected %s (baseline %d, channel %d, phase center %s)' % (ds.uvw[b, :, n], e, b, n, pc)
                    for pol in pols:
                        v, tot = 0, 0
                        for m, s in srcs.items():
                            if dirs[m][2] < 0:
                                continue
                            x = s._jys * (freq[n] / 1e9 / s.mfreq) ** s.index * (1 if flat else band[n] ** 2)
                            if not flat and beam in ('gauss', 'round'):
                                x *= math.sqrt(gauss(dirs[m], pol[0], sx, sy) * gauss(dirs[m], pol[1], sx, sy))
                            elif not flat and beam == 'alm':
                                x *= math.sqrt(np.ravel(aa[0].bm_response(dirs[m], pol=pol[0]))[n] * np.ravel(aa[0].bm_response(dirs[m], pol=pol[1]))[n])
                            uv = axes(M @ dirs[m]) @ d * freq[n]
                            v += x * np.exp(2j * np.pi * (uv[2] - e[2])) * (fall(s.srcshape, uv[0], uv[1]) if resolve else 1)
                            tot += x
                        got = getattr(ds, pol.upper()).data[b, n]
                        if not abs(got - v) <= 0.01 * tot + 1e-3:
                            return 'visibility %s, expected %s (baseline %s, channel %d, %s, beam %s, flat %r, resolve %r, phase center %s, call %s)' % (got, v, (i, j), n, pol, beam, flat, resolve, pc, call)
            for n in set(range(nf)) - set(ch):
                if abs(getattr(ds, pols[0].upper()).data[:, n]).max() != 0:
                    return 'channels outside the range are simulated'
        aa.set_asp_filter('none')
        V.build_sim_data(aa, srcs, pols=['xx'], jd=jd0)             # a simulated array can be simulated again

    def scases():
        P4 = ('xx', 'yy', 'xy', 'yx')
        L = [('flat', 1, P4, None, 'z', True, False, None, 3, ''), ('flat', 2, P4, None, 'z', False, True, None, 2, 'again'), ('gauss', 1, P4, None, 'z', False, False, None, 2, 'again'),
             ('gauss', 3, ('yx', 'xx', 'xy'), None, 'body', False, True, None, 2, ''), ('round', 1, ('yy',), [1, 2], 'body', False, False, [(3, 1), (0, 4), (2, 2)], 4, ''),
             ('gauss', 1, ('yy', 'xx'), None, 'sky', True, True, [(0, 1), (4, 3)], 3, 'again'), ('flat', 2, ('xx', 'yy'), [0], 'sky', False, False, [(1, 0)], 3, ''),
             ('alm', 2, ('yy', 'xx', 'yx'), None, 'z', False, False, [(0, 2), (1, 4)], 2, ''), ('flat', 1, ('xx',), None, 'body', True, True, None, 1, 'again'), ('flat', 3, P4, None, 'z', True, False, [(0, 1)], 2, '')]
        for k, c in enumerate(L * (4 if r.thorough else 1)):
            yield (k,) + c
    r.concrete('build_sim_data: visibilities of the sources above the horizon', scases(), sim, limit_s=400)

    # ------------------------------------------------------------------ the horizon
    def rising(c):
        target, east, dec = c
        aa = V.build_sim_array(lwa1, [a for a in lwa1.antennas if a.pol == 0][:30:10], np.array([50e6, 60e6]), jd=2458000.7, force_flat=True)
        aa.set_jultime(2458000.7)
        lst = float(aa.sidereal_time())

        def alt(h):
            s = V.RadioFixedBody(lst - h, dec, jys=10.0, index=0, name='s', epoch=aa.date)
            s.compute(aa)
            t = s.get_crds(crdsys='top', ncrd=3)
            return float(t[2]) / math.sqrt(sum(float(q) ** 2 for q in t)), s
        a, b = 0.0, math.pi
        for _ in range(50):
            m = (a + b) / 2
            if alt(-m if east else m)[0] > math.sin(target):
                a = m
            else:
                b = m
        z, s = alt(-a if east else a)
        if abs(z - math.sin(target)) > 1e-5:
            return None
        up = V.RadioFixedBody(lst, 0.6, jys=10.0, index=0, name='z', epoch=aa.date)
        one = V.build_sim_data(aa, {'z': up}, pols=['xx'], jd=2458000.7, flat_response=True).XX.data
        two = V.build_sim_data(aa, {'s': s, 'z': up}, pols=['xx'], jd=2458000.7, flat_response=True).XX.data
        d = np.abs(two - one)
        want = 10.0 if target > 0 else 0.0
        if np.max(np.abs(d - want)) > 0.1:
            return 'a source at an altitude of %.2f degrees adds %.3g Jy instead of %g' % (math.degrees(target), d.max(), want)
    r.concrete('build_sim_data: sources near the horizon', [(t, e, q) for t in (-0.3, -0.05, -0.01, -0.003, 0.001, 0.003, 0.01, 0.05, 0.3) for e in (True, False) for q in (0.1, -0.4)], rising, limit_s=120)

    # ------------------------------------------------------------------ shifts and noise
    def shift(c):
        k, pc, n = c
        jd0 = 2457900.25 + 20.7 * k
        ants = X[k::31][:4]
        freq = np.array([40e6, 60e6])
        aa = V.build_sim_array(lwa1, ants, freq, jd=jd0, force_flat=True)
        center = V.RadioFixedBody(float(aa.sidereal_time()) + 0.2, 0.4, name='pc') if pc == 'body' else 'z'
        src = scene(aa, k)
        jd = [jd0 + 0.03 * q for q in range(n)]
        data = V.build_sim_data(aa, src, pols=['xx', 'yy'], jd=jd, phase_center=center)
        a2 = V.build_sim_array(lwa1, X[k + 40::17][:4], freq, jd=jd0 + (0.2 if k % 2 else 0), force_flat=True)
        keep = [(d.uvw.copy(), d.XX.data.copy()) for d in ([data] if n == 1 else data)]
        out = V.shift_data(data, a2)
        if abs(a2.get_jultime() - (jd0 + (0.2 if k % 2 else 0))) > 1e-6:
            return 'shift_data moves the array to another time'
        for q, (d, o) in enumerate(zip([data] if n == 1 else data, [out] if n == 1 else out)):
            if not (np.array_equal(d.uvw, keep[q][0]) and np.array_equal(d.XX.data, keep[q][1])) or np.shares_memory(d.uvw, o.uvw) or np.shares_memory(d.XX.data, o.XX.data):
                return 'shift_data changes the original'
            if not np.array_equal(o.XX.data, d.XX.data) or not np.array_equal(o.YY.data, d.YY.data) or list(o.baselines) != list(d.baselines):
                return 'shift_data changes the visibilities'
            a2.set_jultime(jd[q])
            e = V.build_sim_data(a2, src, pols=['xx'], jd=jd[q], phase_center=center)
            if abs(o.uvw - e.uvw).max() > 2e-4 * (1 + abs(e.uvw).max()):
                return 'shifted uvw of integration %d of %d off by %.3g of %.3g (%s)' % (q, n, abs(o.uvw - e.uvw).max(), abs(e.uvw).max(), pc)
    r.concrete('shift_data: uvw of the new array at the time of each integration', [(k, pc, n) for k, (pc, n) in enumerate([('z', 1), ('body', 1), ('body', 3), ('z', 2), ('body', 2)])], shift)

    def noise(c):
        k, sefd, tint, bw, eff, sub, n = c
        np.random.seed(r.seed * 100 + k)
        nf = 6000
        freq = np.arange(nf) * 25e3 + 20e6
        bls = [(i, j) for i in range(4) for j in range(i, 4)] if sub is None else [(i, j) for i in sub for j in sub if i < j]
        sets = []
        for q in range(n):
            ds = VisibilityDataSet(2457900.25 + q, freq, list(bls), np.zeros((len(bls), 3, nf)))
            for p in ('XX', 'YY'):
                ds.append(PolarizationDataSet(p, data=np.full((len(bls), nf), 3 - 2j, dtype=np.complex128)))
            sets.append(ds)
        data = sets[0] if n == 1 else VisibilityData(sets)
        out = V.add_baseline_noise(data, sefd, tint, efficiency=eff, **({} if bw is None else dict(bandwidth=bw)))
        nant = sorted(set(x for b in bls for x in b))
        per = dict(zip(nant, [sefd] * len(nant) if np.isscalar(sefd) else sefd))
        rows = []
        for d, o in zip(sets, [out] if n == 1 else out):
            for p in ('XX', 'YY'):
                if not (getattr(d, p).data == 3 - 2j).all():
                    return 'add_baseline_noise changes the original'
                x = getattr(o, p).data - (3 - 2j)
                for b, (i, j) in enumerate(bls):
                    s = math.sqrt(per[i] * per[j]) / eff / math.sqrt(2 * (25e3 if bw is None else bw) * tint)
                    for part in (x[b].real, x[b].imag):
                        if abs(part.std() / s - 1) > 0.07 or abs(part.mean()) > 0.08 * s:
                            return 'noise of baseline %s is %.4g about %.4g, expected %.4g (%s)' % ((i, j), part.std(), part.mean(), s, c)
                        rows.append(part / s)
        R = np.corrcoef(np.array(rows))
        np.fill_diagonal(R, 0)
        if abs(R).max() > 0.1:
            return 'noise is correlated between baselines, polarizations, parts or integrations (%.2g)' % abs(R).max()

    def wrong(k):
        ds = VisibilityDataSet(2457900.25, np.array([50e6]), [(0, 1)], np.zeros((1, 3, 1)))
        ds.append(PolarizationDataSet('XX', data=np.zeros((1, 1), np.complex64)))
        aa = V.build_sim_array(lwa1, X[:3], [40e6], jd=2457900.25, force_flat=True)
        for what, f, exc in (('bandwidth of one channel', lambda: V.add_baseline_noise(ds, 10.0, 1.0), RuntimeError), ('number of SEFDs', lambda: V.add_baseline_noise(ds, [10.0] * 3, 1.0, bandwidth=1e6), RuntimeError),
                             ('data for noise', lambda: V.add_baseline_noise([1], 10.0, 1.0), TypeError), ('data to shift', lambda: V.shift_data([1], aa), TypeError),
                             ('phase center', lambda: V.build_sim_data(aa, scene(aa, 1), phase_center='q'), ValueError),
                             ('sources', lambda: V.build_sim_data(aa, {'a': V.RadioFixedBody(float(aa.sidereal_time()) + 3.0, -0.5, jys=1.0)}), RuntimeError)):
            try:
                f()
                return 'a wrong %s is accepted' % what
            except exc:
                pass
    r.concrete('add_baseline_noise: the noise of each baseline', [(0, 5000.0, 5.0, None, 1.0, None, 1), (1, [100.0, 2000.0, 500.0, 9000.0], 0.1, 1e6, 0.8, None, 2), (2, 4000.0, 2.0, None, 0.5, (1, 3, 6), 1),
                                                                 (3, [10.0, 1000.0, 90.0], 1.0, 5e4, 1.0, (2, 7, 9), 2)], noise)
    r.concrete('simulation: wrong arguments are refused', [0], wrong)

    # ------------------------------------------------------------------ beams, coordinates and the reference simulator
    def beams(c):
        kind, pol = c
        aa = V.build_sim_array(lwa1, X[:2], np.array([40e6, 70e6]), jd=2457900.25, **{'flat': dict(force_flat=True), 'gauss': dict(force_gaussian=(60.0, 100.0)), 'alm': {}}[kind])
        g = np.random.RandomState(3)
        az, alt = g.uniform(0, 2 * np.pi, (3, 4)), g.uniform(0.1, 1.5, (3, 4))
        top = np.array([np.sin(az) * np.cos(alt), np.cos(az) * np.cos(alt), np.sin(alt)])
        R3 = np.asarray(aa[0].bm_response(top, pol=pol))
        R2 = np.asarray(aa[1].bm_response(top[:, 1, :], pol=pol))
        if R3.shape != (2, 3, 4) or R2.shape != (2, 4):
            return 'beam responses of shape %s, %s' % (R3.shape, R2.shape)
        for i in range(3):
            for j in range(4):
                one = np.ravel(aa[0].bm_response(top[:, i, j], pol=pol))
                e = one if kind == 'alm' else np.ones(2) if kind == 'flat' else np.full(2, gauss(top[:, i, j], pol, *[math.radians(x) / (2 * math.sqrt(2 * math.log(2))) for x in (60.0, 100.0)]))
                if not np.allclose(one, e, rtol=1e-6) or not np.allclose(R3[:, i, j], one, rtol=1e-6) or (i == 1 and not np.allclose(R2[:, j], one, rtol=1e-6)):
                    return '%s beam, %s: %s, expected %s' % (kind, pol, R3[:, i, j], e)
        if kind == 'gauss':
            S3 = aa[0].get_beam_shape(pol=pol)
            for a, h in ((0, 0), (10, 45), (270, 20), (359, 89), (90, 5)):
                t = [math.sin(math.radians(a)) * math.cos(math.radians(h)), math.cos(math.radians(a)) * math.cos(math.radians(h)), math.sin(math.radians(h))]
                if S3.shape != (360, 90, 2) or not np.allclose(S3[a, h], np.ravel(aa[0].bm_response(t, pol=pol)), rtol=1e-6):
                    return 'beam shape at azimuth %d, altitude %d' % (a, h)
    r.concrete('beams: every point by itself, Y is X turned by 90 degrees', [(k, p) for k in ('flat', 'gauss', 'alm') for p in 'xy'], beams, limit_s=200)

    def fastpaths(k):
        aa = V.build_sim_array(lwa1, X[k::37][:4], np.array([40e6, 70e6, 80e6]), jd=2457900.25 + k, **(dict(force_flat=True) if k % 2 else dict(force_gaussian=80.0)))
        srcs = scene(aa, k)
        ds = V.build_sim_data(aa, srcs, pols=['xx'], jd=aa.get_jultime())
        body = srcs['s0']
        body.compute(aa)
        for i, j in ((0, 1), (2, 0), (3, 1)):
            for s in ('z', 'e', 'r', body):
                if not np.allclose(aa.get_baseline_fast(i, j, src=s), aa.get_baseline(i, j, src=s), atol=1e-6) or not np.allclose(aa.gen_uvw_fast(i, j, src=s), aa.gen_uvw(i, j, src=s), atol=1e-6) \
                        or not np.allclose(np.squeeze(aa.gen_uvw_fast(i, j, src=s, w_only=True)), np.squeeze(aa.gen_uvw(i, j, src=s)[2]), atol=1e-6):
                    return 'gen_uvw_fast for %r differs from gen_uvw' % (s,)
        if k % 2:
            for b, (i, j) in enumerate(ds.baselines):
                got = aa.sim(j, i)         # aipy's sense of a baseline is the other one
                e = ds.XX.data[b] * np.exp(2j * np.pi * ds.uvw[b, 2])
                if not np.allclose(got, e, atol=0.01 * abs(aa._cache['jys']).sum()):
                    return 'AntennaArray.sim gives %s, the fast simulator %s' % (got, e)
        for pos in (ICRS(10 * un.deg, 20 * un.deg), FK5(200 * un.deg, -30 * un.deg, equinox='J2000'), SkyCoord(300 * un.deg, 80 * un.deg, frame='icrs')):
            q = V.RadioFixedBody.from_astropy(pos, name='q', jys=3.0)
            t = pos.transform_to(ICRS())
            if q._jys != 3.0 or q.src_name != 'q' or SkyCoord(float(q._ra) * un.rad, float(q._dec) * un.rad, frame=FK5(equinox='J2000')).separation(SkyCoord(t)).arcsec > 0.2:
                return 'from_astropy of %r' % pos
    r.concrete('fast coordinates and the reference simulator', range(4), fastpaths)
