"""C24: visibility files (FITS-IDI, AIPS FITS-IDI, extended FITS-IDI, UVFITS, measurement set, virtual writer) read back as written."""
import copy
import itertools
import logging
import os
import pickle
import signal
import sys
import time
import tempfile
import types
import warnings
import numpy as np
from pv.loader import SymLoader
from pv.runner import scratch
from pv.sym import And, Or, Not, X

LEVEL = 'exploration'
W = 'lsl.writer.'
C = 299792458.0


def stub_extensions():
    """the compiled extensions are not used by what is checked here; they only have to be importable"""
    for name, attr in (('lsl.imaging._gridder', 'WProjection'), ('lsl.sim._simfast', 'FastVis')):
        if name not in sys.modules:
            m = types.ModuleType(name)
            setattr(m, attr, None)
            sys.modules[name] = m


def parallel_cases(cases, check, workers=8, limit_s=420):
    """results of check on every case (a message or None), computed in forked processes; a process that dies or hangs is that case's failure"""
    cases = list(cases)
    base = os.path.join(scratch(), 'res')
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                with open('%s%d' % (base, k), 'wb') as f:
                    for n in range(k, len(cases), workers):
                        pickle.dump((n, check(cases[n])), f)
                        f.flush()
            finally:
                os._exit(0)
        pids[k] = pid
    end = time.time() + limit_s
    late = set()
    while pids and time.time() < end:
        for k, pid in list(pids.items()):
            if os.waitpid(pid, os.WNOHANG)[0]:
                del pids[k]
        time.sleep(.05)
    for k, pid in pids.items():
        late.add(k)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    out = {}
    for k in range(workers):
        try:
            with open('%s%d' % (base, k), 'rb') as f:
                while True:
                    n, m = pickle.load(f)
                    out[n] = m
        except (OSError, EOFError, pickle.UnpicklingError):
            pass
        first = [n for n in range(k, len(cases), workers) if n not in out]
        if first:
            if k not in late:
                out[first[0]] = 'the process ended abnormally'
            elif first[0] == k:
                out[first[0]] = 'no answer in %d s' % limit_s
    return [(c, out[n]) for n, c in enumerate(cases) if n in out]


# ---- the oracle: what is written, from first principles ------------------------------------------------
class Written:
    pass


def make_antennas(ids):
    from lsl.common import stations
    src = [a for a in stations.lwa1.antennas if a.pol == 0]
    out = []
    for k, i in enumerate(ids):
        a = copy.deepcopy(src[(7 * k + 3) % len(src)])
        a.stand.id = int(i)
        a.stand._parent = src[0].stand._parent
        out.append(a)
    return out


def make_source(name, ra, dec):
    import ephem
    s = ephem.FixedBody()
    s._ra, s._dec, s._epoch, s.name = ephem.hours(ra), ephem.degrees(dec), ephem.J2000, name
    return s


def direction(source, t, el):
    """unit vector to the phase center in ITRS axes, and its J2000 position"""
    from astropy.coordinates import AltAz, ITRS, FK5
    from astropy import units as u
    if source == 'z':
        c = AltAz(az=0 * u.deg, alt=90 * u.deg, location=el, obstime=t)
    else:
        c = FK5(source[1] * u.rad, source[2] * u.rad, equinox='J2000')
    it = c.transform_to(ITRS(obstime=t, location=el))
    v = np.array([np.cos(it.spherical.lat.rad) * np.cos(it.spherical.lon.rad), np.cos(it.spherical.lat.rad) * np.sin(it.spherical.lon.rad), np.sin(it.spherical.lat.rad)])
    f = c.transform_to(FK5(equinox='J2000')) if source == 'z' else c
    return v, (f.ra.rad, f.dec.rad)


def uvw_of(xyz1, xyz2, s, freq):
    """(u, v, w) in wavelengths of the baseline from antenna 2 to antenna 1 for the direction s"""
    b = (np.asarray(xyz1) - np.asarray(xyz2)) / C
    e = np.cross([0, 0, 1.], s)
    e = e / np.linalg.norm(e)
    n = np.cross(s, e)
    return np.outer([b @ e, b @ n, b @ s], freq)


STOKES = {'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8, 'RR': -1, 'LL': -2, 'RL': -3, 'LR': -4, 'I': 1, 'Q': 2, 'U': 3, 'V': 4}


def write_case(c, fn):
    """write the file of a case; what was written"""
    import random
    from datetime import datetime, timezone
    from lsl import astro
    from lsl.common import stations
    from lsl.writer import fitsidi, uvfits, measurementset, virtual
    from astropy.time import Time
    rng = random.Random(c['seed'])
    g = np.random.RandomState(c['seed'])
    o = Written()
    st = stations.lwa1
    o.ants = make_antennas(c['ids'])
    o.xyz = {a.stand.id: np.array([float(x.to('m').value) for x in (a.stand.earth_location.x, a.stand.earth_location.y, a.stand.earth_location.z)]) for a in o.ants}
    o.el = st.earth_location
    cls = {'idi': fitsidi.Idi, 'aips': fitsidi.Aips, 'ext': fitsidi.ExtendedIdi, 'uv': uvfits.Uv, 'ms': measurementset.Ms, 'virtual': virtual.VirtualWriter}[c['fmt']]
    t0 = c['t0']
    ref = {'unix': t0, 'int': int(t0), 'str': datetime.fromtimestamp(int(t0), tz=timezone.utc).strftime('%Y-%m-%dT%H:%M:%S'),
           'frac': datetime.fromtimestamp(int(t0), tz=timezone.utc).strftime('%Y-%m-%d %H:%M:%S') + '.25',
           'dt': datetime.fromtimestamp(t0, tz=timezone.utc), 'astropy': Time(t0, format='unix', scale='utc')}[c['ref']]
    w = cls(fn, ref_time=ref) if c['fmt'] != 'virtual' else cls(ref_time=ref)
    fr0 = np.arange(c['nchan']) * c['width'] + c['f0']
    o.freq = np.concatenate([fr0 + b * c['step'] for b in range(c['nband'])])

    def setup(what):
        if what == 'stokes':
            w.set_stokes(list(c['pols']))
        elif what == 'freq':
            for b in range(c['nband']):
                w.set_frequency(fr0 + b * c['step'])
        else:
            w.set_geometry(st, o.ants)
    todo = ['stokes', 'freq', 'geom']
    if c['fmt'] == 'virtual':
        todo = todo[1:]
    rng.shuffle(todo)
    for x in todo:
        setup(x)
    n = len(o.ants)
    bls = [(o.ants[i], o.ants[j]) for i in range(n) for j in range(i if c['auto'] else i + 1, n)]
    if c['flip']:
        bls = [b if rng.random() < .5 else b[::-1] for b in bls]
    o.times = [t0 + d for d in c['dt']]
    o.sets = []
    jobs = []
    fixed = list(range(len(bls)))
    rng.shuffle(fixed)
    for k, t in enumerate(o.times):
        src = c['sources'][k]
        mine = [b for b in bls if rng.random() < .7] or bls[:1] if c['subset'] else list(bls)
        rec = dict(t=t, source=src, data={}, weight={}, bls=[(a.stand.id, b.stand.id) for a, b in mine])
        for p in c['pols']:
            order = list(range(len(mine)))
            if c['order'] == 'each':
                rng.shuffle(order)
            elif c['order'] == 'time':
                random.Random(c['seed'] + k).shuffle(order)
            elif c['order'] == 'fixed':
                random.Random(c['seed']).shuffle(order)
            v = (g.randn(len(mine), len(o.freq)) + 1j * g.randn(len(mine), len(o.freq))).astype(np.complex64)
            wg = (1 + g.rand(len(mine), len(o.freq))).astype(np.float32) if c['weights'] == 'all' or c['weights'] == 'some' and rng.random() < .5 else None
            for q, k2 in enumerate(order):
                key = rec['bls'][k2]
                rec['data'][p, key] = v[q].copy()
                rec['weight'][p, key] = wg[q].copy() if wg is not None else np.ones(len(o.freq), dtype=np.float32)
            jobs.append((t, [mine[q] for q in order], v, wg, p, src))
        o.sets.append(rec)
    if c['shuffle_sets']:
        rng.shuffle(jobs)
    bodies = {}
    for t, b, v, wg, p, src in jobs:
        body = 'z'
        if src != 'z':
            body = bodies.setdefault(src[0], make_source(*src))
            obs = st.get_observer()
            import ephem
            obs.date = ephem.Date(astro.unix_to_utcjd(t) - astro.DJD_OFFSET)
            body.compute(obs)
        when = astro.unix_to_taimjd(t)
        if c['when'] == 'astropy':
            when = Time(when, format='mjd', scale='tai')
        elif c['when'] == 'utc':
            when = Time(when, format='mjd', scale='tai').utc
        w.add_data_set(when, c['int'], b, v, **({} if c['fmt'] == 'ms' else dict(weights=wg)), pol=p if not c['numeric'] or c['fmt'] in ('ms', 'virtual') else STOKES[p], source=body)
    o.writer = w
    if c['fmt'] != 'virtual':
        w.write()
        w.close()
    return o


def read_problem(c, fn):
    """what is wrong with the file of case c when it is read back (None: nothing)"""
    from lsl import astro
    from lsl.imaging import utils
    from lsl.imaging.data import VisibilityDataSet, VisibilityData
    from astropy.time import Time
    o = write_case(c, fn)
    fmt = c['fmt']
    if fmt == 'virtual':
        r = o.writer
        stands = [a.stand.id for a in o.ants]
    else:
        r = utils.CorrelatedData(fn)
        stands = list(r.stands)
        want = sorted(c['ids'])
        if sorted(int(s) for s in stands) != want:
            return 'stands %s, written %s' % (sorted(stands), want)
        if fmt != 'ms':
            for a in r.antennas:
                w = [x for x in o.ants if x.stand.id == a.stand.id][0]
                if max(abs(a.stand.x - w.stand.x), abs(a.stand.y - w.stand.y), abs(a.stand.z - w.stand.z)) > 1e-2:
                    return 'stand %d is at (%.3f, %.3f, %.3f), written at (%.3f, %.3f, %.3f)' % (a.stand.id, a.stand.x, a.stand.y, a.stand.z, w.stand.x, w.stand.y, w.stand.z)
        if r.integration_count != len(o.times):
            return '%d integrations, written %d (%s)' % (r.integration_count, len(o.times), getattr(r, '_times', None))
        if r.total_baseline_count != sum(len(s['bls']) for s in o.sets) * (c['nband'] if fmt == 'ms' else 1):
            return 'total baseline count %d' % r.total_baseline_count
    if len(r.freq) != len(o.freq) or np.abs(r.freq - o.freq).max() > 2e-7 * c['width'] * c['nchan'] + 1e-3:
        return 'frequencies %s, written %s' % (r.freq, o.freq)
    sets = sorted(o.sets, key=lambda s: s['t']) if fmt != 'virtual' else o.sets
    shift = c['int'] / 2. if fmt == 'ms' else 0.
    tol = 6e-3 if fmt == 'uv' else 1e-4
    every = None
    if len({len(x['bls']) for x in sets}) == 1:                     # a VisibilityData holds integrations of one size
        every = r.get_data_set(list(range(1, len(sets) + 1)), include_auto=True, sort=False)
        every = [every] if isinstance(every, VisibilityDataSet) else list(every)
        if len(every) != len(sets):
            return 'all together: %d data sets' % len(every)
    for k, rec in enumerate(sets):
        ds = r.get_data_set(k + 1, include_auto=True)
        jd = astro.unix_to_utcjd(rec['t'] + shift)
        if abs(ds.jd - jd) * 86400 > tol:
            return 'integration %d: %.6f s off its time' % (k, (ds.jd - jd) * 86400)
        if fmt != 'virtual' and abs(ds.int_time - c['int']) > 1e-5 * c['int']:
            return 'integration %d: integration time %s, written %s' % (k, ds.int_time, c['int'])
        auto = r.get_data_set(k + 1, include_auto=False, sort=False) if any(a != b for a, b in rec['bls']) else None
        raw = [d for d in every if abs(d.jd - ds.jd) * 86400 < 1e-4] if every is not None else [None]
        if len(raw) != 1:
            return 'integration %d is there %d times when all are read' % (k, len(raw))
        el = o.el
        s, pos = direction(rec['source'], Time(astro.unix_to_utcjd(rec['t']), format='jd', scale='utc'), el)
        for what, d, bls in (('', ds, rec['bls']), (' (without autos, unsorted)', auto, [b for b in rec['bls'] if b[0] != b[1]]), (' (all read together)', raw[0], rec['bls'])):
            if d is None:
                continue
            got = [(int(stands[i]), int(stands[j])) for i, j in d.baselines]
            if sorted(got) != sorted(bls):
                return 'integration %d%s: baselines %s, written %s' % (k, what, sorted(got)[:20], sorted(bls)[:20])
            if sorted(d.pols) != sorted(c['pols']):
                return 'integration %d%s: polarizations %s, written %s' % (k, what, d.pols, c['pols'])
            for p in c['pols']:
                q = getattr(d, p)
                if q.polarization != p:
                    return 'integration %d%s: %s is called %s' % (k, what, p, q.polarization)
                for n, key in enumerate(got):
                    if not np.array_equal(np.asarray(q.data[n], dtype=np.complex64), rec['data'][p, key]):
                        return 'integration %d%s: %s of baseline %s is not what was written' % (k, what, p, key)
                    want = rec['weight'][p, key] if fmt not in ('uv', 'ms') else np.ones(len(o.freq))
                    if not np.array_equal(q.weight[n], want):
                        return 'integration %d%s: weights of %s of baseline %s are %s, written %s' % (k, what, p, key, q.weight[n][:4], want[:4])
            for n, key in enumerate(got):
                want = uvw_of(o.xyz[key[0]], o.xyz[key[1]], s, o.freq)
                size = max(1., np.linalg.norm(want[:, -1]))
                if d.uvw.shape[1:] != want.shape or np.abs(d.uvw[n] - want).max() > 1e-4 * size:
                    return 'integration %d%s: uvw of baseline %s are %s, should be %s' % (k, what, key, d.uvw[n][:, 0], want[:, 0])
            pc = d.phase_center
            ra, dec = (float(pc._ra), float(pc._dec)) if hasattr(pc, '_ra') else (float(pc.ra), float(pc.dec))
            if fmt != 'virtual':
                dra = abs((ra - pos[0] + np.pi) % (2 * np.pi) - np.pi) * np.cos(pos[1])
                if max(dra, abs(dec - pos[1])) > 3e-5:
                    return 'integration %d%s: phase center (%.6f, %.6f), should be (%.6f, %.6f)' % (k, what, ra, dec, pos[0], pos[1])
        if fmt != 'virtual' and [tuple(b) for b in ds.baselines] != sorted(tuple(b) for b in ds.baselines):
            return 'integration %d: baselines not sorted' % k
    return None


def one(c):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(dir=scratch())                     # removed with the scratch directory: tables may still be open
    fn = os.path.join(d, 'file.ms' if c['fmt'] == 'ms' else 'file.fits')
    try:
        return read_problem(c, fn)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return 'unexpected %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)


def case(fmt='idi', **kw):
    c = dict(fmt=fmt, ids=[3, 10, 99, 7], nchan=4, nband=1, width=25e3, f0=50e6, step=10e6, pols=['XX', 'YY'], t0=1600000000., dt=[0.], sources=None, order='sorted', auto=True, flip=False,
             subset=False, weights='all', shuffle_sets=False, ref='unix', when='mjd', numeric=False, int=5.0, seed=1)
    c.update(kw)
    if c['sources'] is None:
        c['sources'] = ['z'] * len(c['dt'])
    return c


LIMIT = {'idi': 5000, 'aips': 5000, 'ext': 20000, 'uv': 5000, 'ms': 5000, 'virtual': 5000}
POLS = [['XX'], ['XX', 'YY'], ['YY', 'XX'], ['XX', 'YY', 'XY', 'YX'], ['YX', 'XY', 'YY', 'XX'], ['I', 'Q', 'U', 'V'], ['V', 'U', 'Q', 'I'], ['RR', 'LL'], ['LR', 'LL', 'RL', 'RR'], ['YY'], ['I']]


def random_case(rng, fmt):
    n = rng.randrange(2, 8)
    hi = rng.choice([30, 255, 256, 300, 999, 1000, 2047, 2048, LIMIT[fmt]])
    hi = min(hi, LIMIT[fmt])
    ids = rng.sample(range(1, hi + 1), n)
    if rng.random() < .4:
        ids[rng.randrange(n)] = hi
    ids = list(dict.fromkeys(ids))
    nt = rng.randrange(1, 4)
    gap = rng.choice([.02, 5., 600., 86400.]) if fmt != 'uv' else rng.choice([5., 600., 86400.])
    src = {'z': 'z', 's': ('SrcA', rng.uniform(0, 2 * np.pi), rng.uniform(-.2, 1.4)), 't': ('SrcB', rng.uniform(0, 2 * np.pi), rng.uniform(-.2, 1.4))}
    pols = rng.choice(POLS if fmt != 'virtual' else [['XX'], ['YY'], ['I'], ['XY']])
    c = case(fmt, ids=ids, nchan=rng.choice([2, 3, 8, 17]), nband=rng.choice([1, 1, 2, 3]) if fmt not in ('uv', 'virtual') else 1, width=rng.choice([25e3, 1e3, 19.6e6 / 1024, 97.65625]), f0=rng.choice([38e6, 74.03e6, 10e6]),
             pols=pols, t0=rng.choice([1325376000., 1600000000., 1700000000.5]) + rng.randrange(10**7) + rng.choice([0., .5, .123456]), dt=[gap * k for k in range(nt)],
             sources=[src[rng.choice('zst')] for _ in range(nt)] if rng.random() < .7 else ['z'] * nt, order=rng.choice(['sorted', 'fixed', 'time', 'each']), auto=rng.random() < .7 or n < 2, flip=rng.random() < .4,
             subset=rng.random() < .3 and (fmt != 'virtual' or nt == 1), weights=rng.choice(['all', 'none', 'some']), shuffle_sets=rng.random() < .4 and fmt != 'virtual', ref=rng.choice(['unix', 'int', 'str', 'frac', 'dt', 'astropy']),
             when=rng.choice(['mjd', 'astropy', 'utc']), numeric=rng.random() < .3, int=rng.choice([.02, 1., 5.0, 10.25]), seed=rng.randrange(10**6))
    if fmt in ('uv', 'ms', 'virtual') and pols[0] in 'IQUV' and fmt == 'virtual':
        c['pols'] = ['I']
    return c


def run(r):
    stub_extensions()
    warnings.simplefilter('ignore')
    logging.disable(logging.INFO)
    rng = r.rng
    r.assume('astropy.io.fits and casacore store and return the values they are given in the precision of the column; astropy coordinate transformations (the uvw oracle uses them for the direction only)')
    r.assume('preconditions: at least two channels with one ascending width, every integration holds every polarization once on the same baselines, consecutive polarization codes (FITS axes have a start and a step), '
             'UVFITS times to the 3 ms of its float32 column, sources with distinct names of at most 16 letters, stand numbers below 32768 for extended FITS-IDI')
    S = SymLoader(symbolic={'lsl.writer.fitsidi', 'lsl.writer.uvfits'})
    FI, UV = S.load('lsl.writer.fitsidi'), S.load('lsl.writer.uvfits')
    from lsl.writer import fitsidi as RF, uvfits as RU

    # ---- packed baselines ------------------------------------------------------------------------------
    def packs(mod, shift, hi):
        def fn(cx):
            a, b = cx.int_input('a', 0, hi), cx.int_input('b', 0, hi)
            kw = {} if shift is None else {'shift': shift}
            m = mod.merge_baseline(a, b, **kw)
            x, y = mod.split_baseline(m, **kw)
            cx.prove('a packed baseline gives its two stands back', And(X(x) == a, X(y) == b))
            if shift is not None:
                cx.prove('FITS-IDI baseline number: first stand above second', X(m) == X(a) * 2**shift + b)
            else:
                cx.prove('UVFITS baseline number', Or(And(X(a) <= 255, X(b) <= 255, X(m) == X(a) * 256 + b), And(Or(X(a) > 255, X(b) > 255), X(m) == X(a) * 2048 + b + 65536)))
                cx.prove('UVFITS baseline number fits a float32', X(m) < 2**24)
        return fn

    def replay_packs(mod, shift):
        def f(i):
            a, b = int(i['a']), int(i['b'])
            kw = {} if shift is None else {'shift': shift}
            m = mod.merge_baseline(a, b, **kw)
            want = (a << shift) + b if shift is not None else a * 256 + b if max(a, b) < 256 else a * 2048 + b + 65536
            if m != want or tuple(mod.split_baseline(m, **kw)) != (a, b):
                return 'stands %d, %d -> baseline %d -> %s' % (a, b, m, mod.split_baseline(m, **kw))
        return f
    with r.parallel():
        for shift in (8, 16):
            r.contract('FITS-IDI baseline numbers, %d bits' % shift, packs(FI, shift, 2**shift - 1), [W + 'fitsidi.merge_baseline', W + 'fitsidi.split_baseline'], replay=replay_packs(RF, shift))
        r.contract('UVFITS baseline numbers', packs(UV, None, 2047), [W + 'uvfits.merge_baseline', W + 'uvfits.split_baseline'], replay=replay_packs(RU, None))

        # ---- order of data sets, frequency setups ----------------------------------------------------------
        def order(cx):
            mk = lambda k: FI.WriterBase._UVData(cx.real_input('t%d' % k, 40000, 80000), 5.0, [], None, pol=cx.int_input('p%d' % k, -8, 4))
            a, b = mk(0), mk(1)
            before = Or(a.obsTime < b.obsTime, And(X(a.obsTime) == X(b.obsTime), abs(a.pol) < abs(b.pol)))
            same = And(X(a.obsTime) == X(b.obsTime), X(abs(a.pol)) == abs(b.pol))
            cx.prove('earlier data sets, and lower polarization codes at one time, come first', X(a < b) == before)
            cx.prove('equal only at one time and polarization', X(a == b) == same)
        r.contract('order of data sets', order, [W + 'fitsidi.WriterBase._UVData.__lt__', W + 'fitsidi.WriterBase._UVData.__eq__'],
                   replay=lambda i: (lambda a, b: None if (a < b) == ((a.obsTime, abs(a.pol)) < (b.obsTime, abs(b.pol))) and (a == b) == ((a.obsTime, abs(a.pol)) == (b.obsTime, abs(b.pol))) else 'order of (%s, %s) and (%s, %s)' % (a.obsTime, a.pol, b.obsTime, b.pol))(
                       *[RF.WriterBase._UVData(float(i['t%d' % k]), 5.0, [], None, pol=int(i['p%d' % k])) for k in (0, 1)]))

        def setups(cx):
            w = FI.WriterBase('none', ref_time=0)
            f0, wd, f1 = cx.real_input('f0', 1e6, 1e8), cx.real_input('width', 1, 1e6), cx.real_input('f1', 1e6, 1e8)
            w.set_frequency([f0, f0 + wd, f0 + 2 * wd])
            w.set_frequency([f1, f1 + wd, f1 + 2 * wd])
            cx.prove('reference frequency, pixel and width', And(X(w.refVal) == f0, X(w.refPix) == 1, X(w.channelWidth) == wd, X(w.nChan) == 3))
            cx.prove('the bands are where they were set', And(len(w.freq) == 2, X(w.freq[0].bandFreq) == 0, X(w.freq[1].bandFreq) == f1 - f0))
            cx.prove('widths of the bands', And(*[And(X(f.chWidth) == wd, X(f.totalBW) == 2 * wd) for f in w.freq]))
        r.contract('frequency setups', setups, [W + 'fitsidi.WriterBase.set_frequency'], float_mode='real',
                   replay=lambda i: (lambda w, a, d, b: (w.set_frequency(a + d * np.arange(3)), w.set_frequency(b + d * np.arange(3)),
                                                         None if (w.refVal, w.refPix, w.nChan) == (a, 1, 3) and abs(w.channelWidth - d) < 1e-6 * d + 1e-6 and w.freq[0].bandFreq == 0 and abs(w.freq[1].bandFreq - (b - a)) < 1e-6
                                                         and all(abs(f.chWidth - d) < 1e-6 * d + 1e-6 and abs(f.totalBW - 2 * d) < 1e-6 * d + 1e-6 for f in w.freq) else 'frequency setup')[2])(
                       RF.WriterBase('none', ref_time=0), float(i['f0']), float(i['width']), float(i['f1'])))

        # ---- stand numbers used in the file --------------------------------------------------------------------
        class Pos:
            class itrs:
                class cartesian:
                    class xyz:
                        @staticmethod
                        def to(unit):
                            class V:
                                value = np.zeros(3)
                            return V

        class Stub:
            pass

        def stub_ant(i):
            a = Stub()
            a.stand = Stub()
            a.stand.id = i
            a.stand.earth_location = Pos
            return a
        site = Stub()
        site.name, site.geocentric_location = 'site', (0., 0., 0.)

        def geometry(mod, cls, top, n):
            def fn(cx):
                cx.hashable = True
                ids = [cx.int_input('id%d' % k, 1, 70000) for k in range(n)]
                for x, y in itertools.combinations(ids, 2):
                    cx.assume(X(x) != y)
                w = object.__new__(cls(mod))
                w.array = []
                w.set_geometry(site, [stub_ant(i) for i in ids])
                m = w.array[0]['mapper']
                nos = [m[i] for i in ids]
                for x in nos:
                    cx.prove('numbers that the baseline code can hold', And(X(x) >= 1, X(x) <= top))
                for x, y in itertools.combinations(nos, 2):
                    cx.prove('distinct stands have distinct numbers', X(x) != y)
                cx.prove('stand numbers are kept in the antenna list, in order', And(*[X(a.id) == i for a, i in zip(w.array[0]['ants'], ids)]) if len(w.array[0]['ants']) == n else False)
                cx.prove('a changed numbering is announced', Or(bool(w.array[0]['enableMapper']), And(*[X(x) == i for x, i in zip(nos, ids)])))
            return fn

        def replay_geometry(mod, cls, top, n):
            def f(i):
                ids = [int(i['id%d' % k]) for k in range(n)]
                w = object.__new__(cls(mod))
                w.array = []
                w.set_geometry(site, [stub_ant(k) for k in ids])
                a = w.array[0]
                nos = [int(a['mapper'][k]) for k in ids]
                if len(set(nos)) != n or min(nos) < 1 or max(nos) > top or [x.id for x in a['ants']] != ids or not (a['enableMapper'] or nos == ids):
                    return 'stands %s are numbered %s (mapper %s)' % (ids, nos, a['enableMapper'])
            return f
        for name, sm, rm, cls, top in (('FITS-IDI', FI, RF, lambda m: m.Idi, 255), ('AIPS FITS-IDI', FI, RF, lambda m: m.Aips, 255), ('extended FITS-IDI', FI, RF, lambda m: m.ExtendedIdi, 65535), ('UVFITS', UV, RU, lambda m: m.Uv, 2047)):
            r.contract('stand numbers in a %s file' % name, geometry(sm, cls, top, 3), [W + ('uvfits.Uv' if name == 'UVFITS' else 'fitsidi.Idi') + '.set_geometry'], replay=replay_geometry(rm, cls, top, 3), bounded='3 stands')

    # ---- polarizations -----------------------------------------------------------------------------------------
    def stokes_case(c):
        for cls in (RF.WriterBase,):
            w = cls('none', ref_time=0)
            for part in c:
                w.set_stokes(part)
            names = [p for part in c for p in part]
            want = sorted(set(STOKES[p] if isinstance(p, str) else p for p in names), key=abs)
            if w.stokes != want or w.nStokes != len(want):
                return 'set_stokes%s: %s' % (c, w.stokes)
    fam = (['XX', 'YY', 'XY', 'YX'], ['RR', 'LL', 'RL', 'LR'], ['I', 'Q', 'U', 'V'])
    r.concrete('sets of polarizations', ([list(p[:k]), list(p[k:]) + list(p[:1])] for f in fam for n in range(1, 5) for p in itertools.permutations(f, n) for k in range(1, n + 1)), stokes_case, limit_s=20)

    # ---- whole files -----------------------------------------------------------------------------------------------
    special = []
    cyg = ('CygA', 5.233686575770755, 0.7109409436737796)
    vir = ('VirA', 3.276086511413598, 0.2162659016526862)
    for fmt in ('idi', 'aips', 'ext', 'uv', 'ms', 'virtual'):
        p2 = ['XX', 'YY'] if fmt != 'virtual' else ['XX']
        add = lambda **k: special.append(case(fmt, **dict(dict(pols=p2), **k)))
        add()
        add(order='time', dt=[0., 10., 20.])
        if fmt != 'virtual':
            add(order='each', dt=[0., 10.])
            add(pols=['YX', 'XX', 'XY', 'YY'], shuffle_sets=True, dt=[0., 10.], sources=['z', cyg])
            add(pols=['I', 'Q', 'U', 'V'])
        add(dt=[0., 7200.], sources=[cyg, vir])
        add(dt=[0., 3600., 7200.], sources=[cyg, 'z', cyg])
        add(ids=[3, 1300, 99], dt=[0.])
        add(ids=[256, 255, 1, 2], dt=[0.])
        add(ids=[2048, 1000, 2047, 13], flip=True)
        add(ref='frac')
        add(t0=1600000000.0863762)
        add(dt=[0., 86400. * 3], t0=1599955190.)
        if fmt != 'uv':
            add(dt=[0., .02, 3600.], int=.02)
        if fmt in ('idi', 'ext', 'ms', 'aips'):
            add(nband=3, nchan=3)
            add(nband=2, nchan=2, pols=['XX', 'YY', 'XY', 'YX'])
        add(subset=True, dt=[0., 10., 20.] if fmt != 'virtual' else [0.])
    nrand = {'idi': 30, 'aips': 12, 'ext': 16, 'uv': 30, 'ms': 24, 'virtual': 12}
    cases = special + [random_case(rng, f) for f, n in nrand.items() for _ in range(n * (1 if not r.thorough else 12))]
    import lsl.imaging.utils, lsl.writer.virtual                                    # noqa: once, before the fork
    res = parallel_cases(cases, one)
    for fmt in ('idi', 'aips', 'ext', 'uv', 'ms', 'virtual'):
        mine = [(c, m) for c, m in res if c['fmt'] == fmt]
        r.concrete('%s files' % {'idi': 'FITS-IDI', 'aips': 'AIPS FITS-IDI', 'ext': 'extended FITS-IDI', 'uv': 'UVFITS', 'ms': 'measurement set', 'virtual': 'virtual (in memory)'}[fmt], mine, lambda cm: cm[1], limit_s=600)
    r.functions += [W + f for f in ('fitsidi.Idi._write_uvdata_hdu', 'fitsidi.Idi._write_source_hdu', 'fitsidi.Idi._write_geometry_hdu', 'uvfits.Uv._write_primary_hdu', 'uvfits.Uv._write_aipssu_hdu', 'measurementset.Ms.write', 'virtual.VirtualWriter.add_data_set')] + \
        ['lsl.imaging.utils.' + f for f in ('CorrelatedData', 'CorrelatedDataIDI.get_data_set', 'CorrelatedDataUV.get_data_set', 'CorrelatedDataMS.get_data_set')]
