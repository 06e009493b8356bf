"""Contracts on the Python views of frames (lsl/reader/{drx,drx8,tbx,cor,drspec,vdif}.py): what the properties
of a frame say is what its fields say, for every field value (Engine A)."""
import datetime
import functools
import types
import warnings
from fractions import Fraction
from pv.loader import SymLoader
from pv.sym import X, And, SFloat, SInt, Ite, is_sym
from pv.models import astime
from pv.models.tarr import tnp

FS = 196000000
NS = Fraction(1, 10**9)
CODES = {250000: 1, 500000: 2, 1000000: 3, 2000000: 4, 4900000: 5, 9800000: 6, 19600000: 7}
FC = Fraction(FS, 8192)
TAGS = (63072000 * FS, 4000000000 * FS)
TRUST = 'astropy.time.Time/TimeDelta (contract pv/models/astime.py: every operation exact to 5 ps)'


def load(kind, numpy=False):
    models = {'astropy.time': astime.mod}
    if numpy:
        models['numpy'] = tnp
    if kind == 'vdif':
        f = types.ModuleType('functools')
        for k in functools.__all__:
            setattr(f, k, getattr(functools, k))
        f.lru_cache = lambda *a, **k: (lambda fn: fn)
        f.cache = lambda fn: fn
        models['functools'] = f
    ld = SymLoader(models=models, symbolic={'lsl.common.ndp', 'lsl.reader.base', 'lsl.reader.' + kind})
    return ld.load('lsl.reader.' + kind)


def real(kind):
    import importlib
    return importlib.import_module('lsl.reader.' + kind)


def exact(ts):
    t = ts.astropy.utc
    return (Fraction(t.jd1) + Fraction(t.jd2) - Fraction(4881175, 2)) * 86400


def at(cx, name, ts, ticks, scale=FS):
    cx.prove(name, (X(ts._time.e) * scale).near(ticks, Fraction(scale) / 10**9))


def timed(r, kind, build, tol=NS):
    """build(mod, tag, off) -> frame"""
    m = load(kind)
    off = kind in ('drx', 'drx8', 'drspec')

    def fn(cx):
        tag = cx.int_input('tag', *TAGS)
        o = cx.int_input('offset', 0, 65535) if off else 0
        fr = build(m, tag, o)
        at(cx, '%s: the time of a frame is its time tag%s in units of 1/196 MHz' % (kind, ' minus the time offset' if off else ''),
           fr.time, X(tag) - X(o))

    def rep(i):
        tag, o = int(i['tag']), int(i.get('offset') or 0)
        t = exact(build(real(kind), tag, o).time)
        if abs(t - Fraction(tag - o, FS)) > NS:
            return 'time tag %d, offset %d gives a time %s s off' % (tag, o, float(t - Fraction(tag - o, FS)))
    r.trust(TRUST)
    r.contract('%s.py: time of a frame' % kind, fn, ['lsl/reader/%s.py:Frame.time' % kind], rep)


def rates(r, kind, build):
    """build(mod, dec) -> frame"""
    m = load(kind)

    def fn(cx):
        d = cx.int_input('dec', 1, 65535)
        for o in (build(m, d), build(m, d).header):
            cx.prove('%s: sample rate is 196 MHz over the decimation' % kind, (X(o.sample_rate) * X(d)).near(X(FS), Fraction(1, 10**6)))

    def rep(i):
        d = int(i['dec'])
        for o in (build(real(kind), d), build(real(kind), d).header):
            if abs(Fraction(o.sample_rate) * d - FS) > Fraction(1, 10**4):
                return 'decimation %d gives sample rate %r' % (d, o.sample_rate)
    r.contract('%s.py: sample rate' % kind, fn, ['lsl/reader/%s.py:FrameHeader.sample_rate' % kind, 'lsl/reader/%s.py:Frame.sample_rate' % kind], rep)

    def codes(cx):
        k = cx.int_input('code', 1, 7).__index__()
        d = {c: FS // f for f, c in CODES.items()}[k]
        for o in (build(m, d), build(m, d).header):
            cx.prove('%s: filter code of the sample rate' % kind, o.filter_code == k)

    def crep(i):
        k = int(i['code'])
        d = {c: FS // f for f, c in CODES.items()}[k]
        for o in (build(real(kind), d), build(real(kind), d).header):
            if o.filter_code != k:
                return 'decimation %d gives filter code %r' % (d, o.filter_code)
    r.contract('%s.py: filter code' % kind, codes, ['lsl/reader/%s.py:FrameHeader.filter_code' % kind], crep)


def tuning(r, kind, build, n=1):
    """build(mod, words) -> frame"""
    m = load(kind)

    def fn(cx):
        w = [cx.int_input('word%d' % k, 0, 2**32 - 1) for k in range(n)]
        fr = build(m, w)
        for o in (fr, fr.payload):
            f = o.central_freq
            f = [f] if n == 1 else f
            for a, b in zip(f, w):
                cx.prove('%s: central frequency is the tuning word times 196 MHz / 2^32' % kind, (X(a) * 2**32).near(X(b) * FS, Fraction(2**32, 10**6)))
            cx.prove('%s: one central frequency per tuning' % kind, len(f) == n)

    def rep(i):
        w = [int(i['word%d' % k] or 0) for k in range(n)]
        f = build(real(kind), w).central_freq
        f = [f] if n == 1 else f
        for a, b in zip(f, w):
            if abs(Fraction(a) - Fraction(b * FS, 2**32)) > Fraction(1, 10**6):
                return 'tuning word %d gives %r Hz' % (b, a)
    r.contract('%s.py: central frequency' % kind, fn, ['lsl/reader/%s.py:FramePayload.central_freq' % kind, 'lsl.common.ndp.word_to_freq'], rep)


def channels(r, kind, counts, build):
    """build(mod, nchan, first) -> frame"""
    m = load(kind, numpy=True)

    def fn(cx):
        k = cx.int_input('which', 0, len(counts) - 1).__index__()
        n = counts[k]
        f = cx.int_input('first', 0, 4095)
        fr = build(m, n, f)
        c = fr.channel_freqs
        cx.prove('%s: one frequency per channel' % kind, len(c) == n)
        for j in range(n):
            v = c[j]
            v = v.item0() if hasattr(v, 'item0') else v
            cx.prove('%s: frequency of channel k is (first + k) times the channel width' % kind, (X(v)).near((X(f) + j) * FC, Fraction(1, 10**3)))

    def rep(i):
        n, f = counts[int(i['which'] or 0)], int(i['first'] or 0)
        c = build(real(kind), n, f).channel_freqs
        for j in range(n):
            if len(c) != n or abs(float(c[j]) - (f + j) * float(FC)) > 16:
                return '%d channels from %d: frequencies %r' % (n, f, c[:4])
    r.trust('numpy array arithmetic (contract pv/models/tarr.py)')
    r.contract('%s.py: channel frequencies' % kind, fn, ['lsl/reader/%s.py:Frame.channel_freqs' % kind], rep)


# ------------------------------------------------------------------------------------------ VDIF
def half(ep):
    a = datetime.date(2000 + ep // 2, 1 + 6 * (ep % 2), 1)
    b = datetime.date(2000 + (ep + 1) // 2, 1 + 6 * ((ep + 1) % 2), 1)
    return (a.toordinal() - 719163) * 86400, (b - a).days * 86400


def leap_model(jd):
    """contract of lsl.astro.leap_secs (decided by C19): TAI-UTC on a Julian day"""
    import erfa
    steps = [(datetime.date(int(y), int(m), 1).toordinal() + Fraction(3442849, 2), int(v)) for y, m, v in erfa.leap_seconds.get() if y >= 1972]
    if not is_sym(jd):
        return [v for d, v in steps if d <= Fraction(jd)][-1]
    out = SInt.of(steps[0][1]) if hasattr(SInt, 'of') else steps[0][1]
    for d, v in steps[1:]:
        out = Ite(SFloat.of(jd) >= float(d), v, out)
    return out


def vdif_time(r):
    warnings.simplefilter('ignore')
    m = load('vdif')
    m.leap_secs = leap_model
    grid = [(b, c, nc, lg) for b in (1, 2, 4, 8) for c in (0, 1) for nc in (1, 4) for lg in (0, 1)]

    def nsamp(b, c, nc, lg, nbytes=1024):
        return nbytes * 8 // b // (1 + c) // nc

    def header(mod, ep, sec, fr, sr, b, c, nc, lg, ext=(0, 0, 0, 0), nbytes=1024):
        return mod.Frame(header=mod.FrameHeader(is_invalid=0, is_legacy=lg, seconds_from_epoch=sec, ref_epoch=ep, frame_in_second=fr, version=0, nchan=nc,
                                                frame_length=((16 if lg else 32) + nbytes) // 8, is_complex=c, bits_per_sample=b, thread_id=0, station_id=1,
                                                extended_data_1=ext[0], extended_data_2=ext[1], extended_data_3=ext[2], extended_data_4=ext[3],
                                                sample_rate=sr, central_freq=0.0), payload=mod.FramePayload())

    def epochs(cx):
        ep = cx.int_input('epoch', 0, 63).__index__()
        a, n = half(ep)
        sec = cx.int_input('sec', 0, n - 1)
        if sec == 0:
            sec = 0
        fr = cx.int_input('frame', 0, 999)
        f = header(m, ep, sec, fr, 8192e3, 8, 0, 1, 0)         # 1024 samples: 8000 frames a second
        for o in (f, f.header):
            at(cx, 'vdif: the time is the reference epoch plus the seconds plus frame number over frame rate', o.time, (X(sec) + a) * 8000 + X(fr), 8000)

    def rep_epochs(i):
        ep, sec, fr = [int(i[k] or 0) for k in ('epoch', 'sec', 'frame')]
        a, n = half(ep)
        t = exact(header(real('vdif'), ep, sec, fr, 8192e3, 8, 0, 1, 0).time)
        if abs(t - a - sec - Fraction(fr, 8000)) > Fraction(1, 10**8):
            return 'epoch %d second %d frame %d of 8000 is %s s off' % (ep, sec, fr, float(t - a - sec - Fraction(fr, 8000)))
    r.contract('vdif.py: time of a frame, every epoch and second', epochs, ['lsl/reader/vdif.py:FrameHeader.time', 'lsl/reader/vdif.py:Frame.time'], rep_epochs, max_paths=8000)

    def sizes(cx):
        k = cx.int_input('layout', 0, len(grid) - 1).__index__()
        ns = nsamp(*grid[k])
        rate = cx.int_input('rate', 1, 4000)                    # frames per second
        rest = cx.int_input('rest', 0, ns - 1)
        fr = cx.int_input('frame', 0, 3999)
        cx.assume(fr < rate)
        sr = rate * ns + rest
        f = header(m, 40, 1000, fr, SFloat.of(sr), *grid[k])
        a, _ = half(40)
        e = X(f.time._time.e) - X(a + 1000)
        cx.prove('vdif: the frame rate is the whole number of frames in a second of samples', (e * X(rate)).near(X(fr), Fraction(4000, 10**9)))

    def rep_sizes(i):
        k = int(i['layout'] or 0)
        ns = nsamp(*grid[k])
        rate, rest, fr = int(i['rate'] or 1), int(i['rest'] or 0), int(i['frame'] or 0)
        t = exact(header(real('vdif'), 40, 1000, fr, float(rate * ns + rest), *grid[k]).time)
        e = half(40)[0] + 1000 + Fraction(fr, rate)
        if abs(t - e) > Fraction(1, 10**8):
            return 'bits, complex, channels, legacy = %r: frame %d of %d is %s s off' % (grid[k], fr, rate, float(t - e))
    r.contract('vdif.py: time of a frame, every layout and sample rate', sizes, ['lsl/reader/vdif.py:FrameHeader.time'], rep_sizes)

    VALS = [1, 2, 16, 32, 64, 128, 196, 1024, 2048, 4900, 9800, 19600, 32000, 64000, 128000, 2**23 - 1]

    def ext_time(cx):
        g = [g for g in grid if not g[3]][cx.int_input('layout', 0, len([g for g in grid if not g[3]]) - 1).__index__()]
        mhz = cx.int_input('mhz', 0, 1).__index__()
        v = VALS[cx.int_input('pick', 0, len(VALS) - 1).__index__()]
        ns = nsamp(*g)
        rate = v * (1000000 if mhz else 1000) // ns
        if not rate:
            return
        fr = cx.int_input('frame', 0, 2**24 - 1)
        f = header(m, 40, 1000, fr, 0.0, *g, ext=(v + (mhz << 23) + (1 << 24), 7, 5, 0x01020304))
        e = X(f.time._time.e) - X(half(40)[0] + 1000)
        cx.prove('vdif: time from the sample rate in the extended data', (e * rate).near(X(fr), Fraction(rate, 10**8)))

    def ext_fields(cx):
        edv = (1, 3)[cx.int_input('edv', 0, 1).__index__()]
        mhz = cx.int_input('mhz', 0, 1).__index__()
        v = cx.int_input('value', 1, 2**23 - 1)
        e2, e3 = [cx.int_input('ext%d' % j, 0, 2**32 - 1) for j in (2, 3)]
        n = [cx.int_input('n%d' % j, 0, 15).__index__() for j in range(2)]
        e4 = n[0] * 2**24 + n[1] * 2**20 + 0x53105
        f = header(m, 40, 1000, 0, 0.0, 8, 0, 1, 0, ext=(v + (mhz << 23) + (edv << 24), e2, e3, e4))
        d = f.extended_user_data
        cx.prove('vdif: sample rate and unit of the extended data', And(X(d['sample_rate']) == X(v), d['sample_rate_units'] == ('MHz' if mhz else 'kHz')))
        cx.prove('vdif: sync pattern of the extended data', X(d['sync_pattern']) == X(e2))
        if edv == 3:
            cx.prove('vdif: NRAO fields of the extended data', And(X(d['tuning_word']) == X(e3), X(d['dbe_unit']) == X(n[0]), X(d['if_input_number']) == X(n[1]),
                                                                   X(d['subband']) == 2, d['electronic_sideband'] == 'USB'))

    def rep_fields(i):
        edv, mhz, v = (1, 3)[int(i['edv'] or 0)], int(i['mhz'] or 0), int(i['value'] or 1)
        e2, e3, n0, n1 = [int(i[k] or 0) for k in ('ext2', 'ext3', 'n0', 'n1')]
        d = header(real('vdif'), 40, 1000, 0, 0.0, 8, 0, 1, 0, ext=(v + (mhz << 23) + (edv << 24), e2, e3, n0 * 2**24 + n1 * 2**20 + 0x53105)).extended_user_data
        e = dict(sample_rate=v, sample_rate_units='MHz' if mhz else 'kHz', sync_pattern=e2)
        if edv == 3:
            e.update(tuning_word=e3, dbe_unit=n0, if_input_number=n1, subband=2, electronic_sideband='USB')
        for k in e:
            if d[k] != e[k]:
                return 'extended data field %s is %r, the words say %r' % (k, d[k], e[k])

    def rep_ext(i):
        g = [g for g in grid if not g[3]][int(i['layout'] or 0)]
        mhz, v, fr = int(i['mhz'] or 0), VALS[int(i['pick'] or 0)], int(i['frame'] or 0)
        t = exact(header(real('vdif'), 40, 1000, fr, 0.0, *g, ext=(v + (mhz << 23) + (1 << 24), 7, 5, 0x01020304)).time)
        e = half(40)[0] + 1000 + Fraction(fr, v * (1000000 if mhz else 1000) // nsamp(*g))
        if abs(t - e) > Fraction(1, 10**7):
            return 'extended data, layout %r: frame %d is %s s off' % (g, fr, float(t - e))
    r.contract('vdif.py: time from the extended data', ext_time, ['lsl/reader/vdif.py:FrameHeader.time'], rep_ext, bounded='16 sample rates in kHz and MHz; every frame number')
    r.contract('vdif.py: extended data', ext_fields, ['lsl/reader/vdif.py:FrameHeader.extended_user_data'], rep_fields)
    r.trust(TRUST, 'lsl.astro.leap_secs (contract; decided by C19)')
    r.assume('VDIF times lie in the half year of their reference epoch')


# ------------------------------------------------------------------------------------------ per format
def drx(r):
    for kind in ('drx', 'drx8'):
        mk = lambda m, **k: m.Frame(header=m.FrameHeader(drx_id=k.get('id', 1), decimation=k.get('dec', 10), time_offset=k.get('off', 0), frame_count=0, second_count=0),
                                    payload=m.FramePayload(timetag=k.get('tag', 0), tuning_word=k.get('word', 0), flags=0))
        timed(r, kind, lambda m, t, o, mk=mk: mk(m, tag=t, off=o))
        rates(r, kind, lambda m, d, mk=mk: mk(m, dec=d))
        tuning(r, kind, lambda m, w, mk=mk: mk(m, word=w[0]))


def tbx(r):
    mk = lambda m, **k: m.Frame(header=m.FrameHeader(frame_id=k.get('id', 8), frame_count=0, second_count=0, first_chan=k.get('first', 0), nstand=64, nchan=k.get('nchan', 12)),
                                payload=m.FramePayload(timetag=k.get('tag', 0)))
    timed(r, 'tbx', lambda m, t, o: mk(m, tag=t))
    channels(r, 'tbx', [4, 8, 12, 16], lambda m, n, f: mk(m, nchan=n, first=f))
    m = load('tbx')

    def fn(cx):
        i = cx.int_input('id', 0, 255)
        f = mk(m, id=i)
        for o in (f, f.header):
            cx.prove('tbx: frames with id 8 are TBX frames', bool(o.is_tbx) == bool(i == 8))
        cx.prove('tbx: views of the header', And(X(f.frame_id) == X(i), f.nstand == 64, f.nchan == 12))

    def rep(i):
        f = mk(real('tbx'), id=int(i['id'] or 0))
        if f.is_tbx != (int(i['id'] or 0) == 8) or f.header.is_tbx != f.is_tbx or f.frame_id != int(i['id'] or 0) or f.nstand != 64 or f.nchan != 12:
            return 'frame id %s: is_tbx %r' % (i['id'], f.is_tbx)
    r.contract('tbx.py: mark and sizes', fn, ['lsl/reader/tbx.py:FrameHeader.is_tbx'], rep)


def cor(r):
    class Data:
        def __init__(self, n):
            self.shape = (n, 2, 2)
    mk = lambda m, **k: m.Frame(header=m.FrameHeader(adp_id=k.get('id', 2), frame_count=0, second_count=0, first_chan=k.get('first', 0), gain=3),
                                payload=m.FramePayload(timetag=k.get('tag', 0), navg=k.get('navg', 500), stand0=k.get('s0', 1), stand1=k.get('s1', 1), vis=Data(k.get('nchan', 72))))
    timed(r, 'cor', lambda m, t, o: mk(m, tag=t))
    channels(r, 'cor', [33, 72, 112, 192], lambda m, n, f: mk(m, nchan=n, first=f))
    m = load('cor')

    def fn(cx):
        i, a, b, n = [cx.int_input(k, 0, hi) for k, hi in (('id', 255), ('s0', 65535), ('s1', 65535), ('navg', 2**31 - 1))]
        f = mk(m, id=i, s0=a, s1=b, navg=n)
        for o in (f, f.header):
            cx.prove('cor: frames with id 2 or 6 are COR frames', bool(o.is_cor) == bool((i == 2) | (i == 6)))
        for o in (f, f.payload):
            cx.prove('cor: stand pair', And(X(o.id[0]) == X(a), X(o.id[1]) == X(b)))
            cx.prove('cor: integration time is the number of averages times 10 ms', (X(o.integration_time) * 100).near(X(n), Fraction(1, 1000)))
        cx.prove('cor: views of the header', And(X(f.adp_id) == X(i), f.gain == 3))

    def rep(i):
        k, a, b, n = [int(i[x] or 0) for x in ('id', 's0', 's1', 'navg')]
        f = mk(real('cor'), id=k, s0=a, s1=b, navg=n)
        if f.is_cor != (k in (2, 6)) or f.header.is_cor != f.is_cor or tuple(f.id) != (a, b) or f.adp_id != k or f.gain != 3:
            return 'id %d, stands %d, %d: is_cor %r, id %r' % (k, a, b, f.is_cor, f.id)
        if abs(f.integration_time - n * 0.01) > 1e-9 * max(1, n):
            return '%d averages: integration time %r' % (n, f.integration_time)
    r.contract('cor.py: mark, stands, integration time', fn, ['lsl/reader/cor.py:FrameHeader.is_cor', 'lsl/reader/cor.py:FramePayload.id', 'lsl/reader/cor.py:FramePayload.integration_time'], rep)


PRODUCTS = ['XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V']


def drspec(r):
    mk = lambda m, **k: m.Frame(header=m.FrameHeader(beam=k.get('beam', 1), format=k.get('format', 9), decimation=k.get('dec', 10), time_offset=k.get('off', 0), nints=k.get('nints', 6144)),
                                payload=m.FramePayload(timetag=k.get('tag', 0), tuning_words=k.get('words', [1, 2]), fills=[1] * 4, errors=[0] * 4, saturations=[0] * 4))
    timed(r, 'drspec', lambda m, t, o: mk(m, tag=t, off=o))
    rates(r, 'drspec', lambda m, d: mk(m, dec=d))
    tuning(r, 'drspec', lambda m, w: mk(m, words=list(w)), 2)
    m = load('drspec')

    class Data:
        def __init__(self, n):
            self.size = n

    def fn(cx):
        f = cx.int_input('high', 0, 15).__index__() * 16 + cx.int_input('low', 0, 15).__index__()
        if not f:
            return
        dec, nints, n, b = [cx.int_input(k, 1, hi) for k, hi in (('dec', 65535), ('nints', 2**31 - 1), ('size', 2**24), ('beam', 255))]
        fr = mk(m, format=f, dec=dec, nints=nints, beam=b)
        exp = [p for k, p in enumerate(PRODUCTS) if f >> k & 1]
        setattr(fr.payload, exp[0] + '0', Data(n))
        for o in (fr, fr.header):
            cx.prove('drspec: data products of the format', list(o.data_products) == exp)
            cx.prove('drspec: linear or Stokes', o.is_linear == (f < 16) and o.is_stokes == (f >= 16))
            cx.prove('drspec: beam and transforms per integration', And(X(o.id) == X(b), X(o.ffts_per_integration) == X(nints)))
        cx.prove('drspec: transform size', X(fr.transform_size) == X(n))
        cx.prove('drspec: integration time is transforms times size over sample rate', (X(fr.integration_time) * FS).near(X(nints) * X(n) * X(dec), 1))

    def rep(i):
        import numpy as np
        f, dec, nints, n, b = [int(i[k] or 1) for k in ('low', 'dec', 'nints', 'size', 'beam')]
        f = int(i['high'] or 0) * 16 + int(i['low'] or 0)
        fr = mk(real('drspec'), format=f, dec=dec, nints=nints, beam=b)
        exp = [p for k, p in enumerate(PRODUCTS) if f >> k & 1]
        setattr(fr.payload, exp[0] + '0', np.broadcast_to(np.float32(0), (n,)))
        if list(fr.data_products) != exp or fr.is_linear != (f < 16) or fr.is_stokes != (f >= 16) or fr.id != b or fr.ffts_per_integration != nints or fr.transform_size != n:
            return 'format %d: products %r linear %r' % (f, fr.data_products, fr.is_linear)
        if abs(fr.integration_time - nints * n * dec / 196e6) > 1e-9 * nints * n * dec / 196e6:
            return 'integration time %r of %d transforms of %d channels, decimation %d' % (fr.integration_time, nints, n, dec)
    r.contract('drspec.py: products, sizes, integration time', fn, ['lsl/reader/drspec.py:FrameHeader.' + k for k in ('data_products', 'is_linear', 'is_stokes', 'id')] +
               ['lsl/reader/drspec.py:Frame.transform_size', 'lsl/reader/drspec.py:Frame.integration_time'], rep)
