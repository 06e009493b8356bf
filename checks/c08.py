"""C08: frame timestamps."""
import datetime
import random
from fractions import Fraction
from pv.loader import SymLoader
import z3
from pv.sym import And, X, SBool, SInt
from pv.models import astime

FS = 196000000
NS = Fraction(1, 10**9)
LO = 63072000                     # 1972-01-01
HI = 4000000000
TAGLO, TAGHI = LO * FS, HI * FS
T0 = 40587


def run(r):
    r.trust('astropy.time.Time/TimeDelta (contract pv/models/astime.py: every operation exact to 5 ps, unix/jd as doubles)')
    r.assume('dates from 1972 on; sums and differences of instants also exclude days that end in a leap second')
    ld = SymLoader(models={'astropy.time': astime.mod}, symbolic={'lsl.common.ndp', 'lsl.reader.base'})
    base = ld.load('lsl.reader.base')
    from lsl.reader import base as rb
    FT, RT = base.FrameTimestamp, rb.FrameTimestamp

    def exact(ts):
        t = ts.astropy.utc
        return (Fraction(t.jd1) + Fraction(t.jd2) - Fraction(4881175, 2)) * 86400

    import erfa
    leaps = [datetime.date(int(y), int(m), 1).toordinal() - datetime.date(1970, 1, 1).toordinal()
             for y, m, _ in erfa.leap_seconds.get() if y >= 1972 and (y, m) != (1972, 1)]
    leaps = set(leaps)

    def leapday(e):
        d = e // 86400
        return (int(d) + 1) in leaps

    def nleap(a, b):
        """leap seconds inserted between instants a and b (signed)"""
        lo, hi = min(a, b), max(a, b)
        n = sum(1 for d in leaps if lo < d * 86400 <= hi)
        return n if b > a else -n


    # ---- timetag round trip
    def tag(cx):
        tt = cx.int_input('tag', TAGLO, TAGHI)
        off = cx.int_input('offset', 0, 10**6)
        ts = FT.from_dp_timetag(tt, offset=off)
        cx.prove('from_dp_timetag: the instant is (tag-offset)/196 MHz to 1 ns',
                 (X(ts._time.e) * FS).near(X(tt) - X(off), Fraction(FS, 10**9)))
        cx.cover('tag')
        # ghost: ticks since the JD noon the stored two-part date counts from
        j1, j2 = ts._time._jd()
        k = X(tt) - X(off) - (X(j1) * 86400 - 210866760000) * FS
        cx.lemma('two-part date carries the tick', (X(j2) * 86400 * FS).near(k, Fraction(2, 1000)))
        cx.hint(tt - off - (SInt(z3.ToInt(j1.e)) * 86400 - 210866760000) * FS)
        cx.prove('dp_timetag(from_dp_timetag(t, o)) == t - o', ts.dp_timetag == tt - off)

    def chk_tag(i):
        tt, off = int(i['tag']), int(i['offset'])
        ts = RT.from_dp_timetag(tt, offset=off)
        if abs(exact(ts) - Fraction(tt - off, FS)) > NS:
            return 'from_dp_timetag(%d, offset=%d) is %s s away from the tick' % (tt, off, float(exact(ts) - Fraction(tt - off, FS)))
        if ts.dp_timetag != tt - off:
            return 'from_dp_timetag(%d, offset=%d).dp_timetag = %d' % (tt, off, ts.dp_timetag)
        if abs(Fraction(float(ts)) - exact(ts)) > Fraction(1, 10**6) or abs(Fraction(ts.unix) - exact(ts)) > Fraction(1, 10**6):
            return 'unix time of timetag %d is %r' % (tt, ts.unix)
        if abs(Fraction(ts[0]) + Fraction(ts[1]) - exact(ts)) > Fraction(1, 10**6) or ts[0] != int(ts.unix):
            return 'integer/fraction pair of timetag %d is (%r, %r)' % (tt, ts[0], ts[1])
        if abs(Fraction(ts.mjd) - T0 - exact(ts) / 86400) > Fraction(1, 10**10) or \
           abs(Fraction(ts.jd) - Fraction(4881175, 2) - exact(ts) / 86400) > Fraction(1, 10**8):
            return 'mjd/jd of timetag %d: %r %r' % (tt, ts.mjd, ts.jd)
        if leapday(exact(ts)) or leapday(exact(ts) - 2):
            return
        d = (ts.utc_datetime - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc))
        d = Fraction(d.days * 86400 + d.seconds) + Fraction(d.microseconds, 10**6)
        if abs(d - exact(ts)) > Fraction(2, 10**6):
            return 'datetime of timetag %d: %s' % (tt, ts.utc_datetime)
    r.contract('timetag round trip', tag, ['lsl.reader.base.FrameTimestamp.from_dp_timetag',
               'lsl.reader.base.FrameTimestamp.dp_timetag', 'lsl.reader.base.FrameTimestamp.__init__'],
               chk_tag, float_mode='err', covers=['tag'], timeout_ms=30000)

    # ---- constructor (integer and fractional seconds)
    def ctor(cx):
        si = cx.int_input('si', LO, HI)
        sf = cx.real_input('sf', -100, 100)
        ts = FT(si, sf)
        cx.prove('FrameTimestamp(i, f): the instant is i + f', X(ts._time.e).near(X(si) + X(sf), NS))
        ts2 = FT(cx.real_input('s', LO, HI), sf)
        cx.prove('FrameTimestamp(s, f): the instant is s + f', X(ts2._time.e).near(X(cx.inputs['s']) + X(sf), NS))
        cx.prove('float(): unix time to 1 us', X(ts.unix).near(X(si) + X(sf), Fraction(1, 10**6)))

    def chk_ctor(i):
        si, sf, s = int(i['si']), float(i['sf']), float(i['s'])
        ts = RT(si, sf)
        if abs(exact(ts) - si - Fraction(sf)) > NS:
            return 'FrameTimestamp(%r, %r) is the instant %r' % (si, sf, ts.unix)
        ts = RT(s, sf)
        if abs(exact(ts) - Fraction(s) - Fraction(sf)) > NS:
            return 'FrameTimestamp(%r, %r) is the instant %r' % (s, sf, ts.unix)
        if abs(Fraction(float(ts)) - Fraction(s) - Fraction(sf)) > Fraction(1, 10**6):
            return 'float(FrameTimestamp(%r, %r)) = %r' % (s, sf, float(ts))
    r.contract('timestamp from seconds', ctor, ['lsl.reader.base.FrameTimestamp.__init__'], chk_ctor, float_mode='err')

    # ---- MJD/MPM and pulsar MJD
    def mjd(cx):
        d = cx.int_input('mjd', 41317, 86000)
        ms = cx.int_input('mpm', 0, 86399999)
        ts = FT.from_mjd_mpm(d, ms)
        cx.prove('from_mjd_mpm: the instant', X(ts._time.e).near((X(d) - T0) * 86400 + X(ms) / 1000, NS))
        sec = cx.int_input('sec', 0, 86399)
        fr = cx.real_input('frac', 0, Fraction(2**53 - 1, 2**53))
        ts = FT.from_pulsar_mjd(d, sec, fr)
        cx.prove('from_pulsar_mjd: the instant', X(ts._time.e).near((X(d) - T0) * 86400 + X(sec) + X(fr), NS))

    def chk_mjd(i):
        d, ms, sec, fr = int(i['mjd']), int(i['mpm']), int(i['sec']), float(i['frac'])
        ts = RT.from_mjd_mpm(d, ms)
        if abs(exact(ts) - (d - T0) * 86400 - Fraction(ms, 1000)) > NS and not leapday(exact(ts)):
            return 'from_mjd_mpm(%d, %d) is the instant %r' % (d, ms, ts.unix)
        ts = RT.from_pulsar_mjd(d, sec, fr)
        if abs(exact(ts) - (d - T0) * 86400 - sec - Fraction(fr)) > NS and not leapday(exact(ts)):
            return 'from_pulsar_mjd(%d, %d, %r) is the instant %r' % (d, sec, fr, ts.unix)
        a, b, c = ts.pulsar_mjd
        if not (isinstance(a, int) and isinstance(b, int) and 0 <= b < 86400 and 0 <= c < 1):
            return 'pulsar_mjd of (%d, %d, %r) is not normalised: %r' % (d, sec, fr, (a, b, c))
        if abs((Fraction(a) - T0) * 86400 + b + Fraction(c) - exact(ts)) > NS:
            return 'pulsar_mjd of (%d, %d, %r) = %r' % (d, sec, fr, (a, b, c))
    r.contract('timestamp from MJD', mjd, ['lsl.reader.base.FrameTimestamp.from_mjd_mpm',
               'lsl.reader.base.FrameTimestamp.from_pulsar_mjd'], chk_mjd, float_mode='err')

    def pulsar(cx):
        u = cx.real_input('unix', LO, HI)
        t = astime.Time(None, _e=u.e)
        a, b, c = FT(t).pulsar_mjd
        cx.prove('pulsar_mjd: normalised', And(b >= 0, b < 86400, c >= 0, c <= 1))
        cx.prove('pulsar_mjd: the instant', ((X(a) - T0) * 86400 + X(b) + X(c)).near(X(t.e), NS))

    def chk_pulsar(i):
        u = i['unix']
        ts = RT(int(u), float(u - int(u)))
        a, b, c = ts.pulsar_mjd
        if not (0 <= b < 86400 and 0 <= c <= 1) or abs((Fraction(a) - T0) * 86400 + b + Fraction(c) - exact(ts)) > NS:
            return 'pulsar_mjd of unix %r = %r' % (float(u), (a, b, c))
    r.contract('pulsar MJD triple', pulsar, ['lsl.reader.base.FrameTimestamp.pulsar_mjd'], chk_pulsar, float_mode='err',
               timeout_ms=30000)

    # ---- arithmetic and order
    def arith(cx):
        u = cx.real_input('u', LO, HI)
        v = cx.real_input('v', LO, HI)
        s = cx.real_input('s', -10**8, 10**8)
        a, b = FT(astime.Time(None, _e=u.e)), FT(astime.Time(None, _e=v.e))
        ea, eb = X(a._time.e), X(b._time.e)
        cx.prove('t + s', X((a + s)._time.e).near(ea + s, NS))
        cx.prove('t - s', X((a - s)._time.e).near(ea - s, NS))
        cx.prove('t - t', X(a - b).near(ea - eb, Fraction(1, 10**6)))
        c = FT(astime.Time(None, _e=u.e))
        ec = X(c._time.e)
        c += s
        cx.prove('t += s', X(c._time.e).near(ec + s, NS))
        c = FT(astime.Time(None, _e=u.e))
        ec = X(c._time.e)
        c -= s
        cx.prove('t -= s', X(c._time.e).near(ec - s, NS))
        cx.prove('order of instants', And(SBool((a < b).e == (ea < eb).e), SBool((a == b).e == (ea == eb).e)))
        cx.prove('timestamps do not change under + and -', X(a._time.e) == ea)

    def chk_arith(i):
        u, v, s = i['u'], i['v'], float(i['s'])
        a, b = RT(int(u), float(u - int(u))), RT(int(v), float(v - int(v)))
        if any(leapday(x) for x in (exact(a), exact(b), exact(a) + Fraction(s), exact(a) - Fraction(s))):
            return
        lp = nleap(exact(a), exact(a) + Fraction(s))
        lm = nleap(exact(a), exact(a) - Fraction(s))
        ea, eb = exact(a), exact(b)
        td = datetime.timedelta(microseconds=round(s * 1e6))
        tds = Fraction(round(s * 1e6), 10**6)
        for nm, val, want in (('t+s', exact(a + s), ea + Fraction(s) - lp), ('t-s', exact(a - s), ea - Fraction(s) - lm),
                              ('t+timedelta', exact(a + td), ea + tds - lp), ('t-timedelta', exact(a - td), ea - tds - lm),
                              ('t-t', Fraction(a - b), ea - eb + nleap(eb, ea))):
            if abs(val - want) > (NS if 'delta' not in nm else 10 * NS):
                return '%s with t=%r s=%r: %r instead of %r' % (nm, float(ea), s, float(val), float(want))
        c = RT(int(u), float(u - int(u)))
        c += s
        d = RT(int(u), float(u - int(u)))
        d -= s
        if exact(c) != exact(a + s) or exact(d) != exact(a - s) or exact(a) != ea:
            return 'in-place arithmetic differs at t=%r s=%r' % (float(ea), s)
        if (a < b) != (ea < eb) or (a == b) != (ea == eb) or (a > b) != (ea > eb) or (a <= b) != (ea <= eb) or (a >= b) != (ea >= eb):
            return 'order of %r and %r' % (float(ea), float(eb))
        m = float(eb)
        if (a < m) != (float(ea) < m) or (a > m) != (float(ea) > m):
            return 'order of %r and the number %r' % (float(ea), m)
    r.contract('timestamp arithmetic and order', arith, ['lsl.reader.base.FrameTimestamp.__add__',
               'lsl.reader.base.FrameTimestamp.__sub__', 'lsl.reader.base.FrameTimestamp.__iadd__',
               'lsl.reader.base.FrameTimestamp.__isub__', 'lsl.reader.base.FrameTimestamp.__lt__',
               'lsl.reader.base.FrameTimestamp.__eq__'], chk_arith, float_mode='err')

    # ---- battery
    rng = r.rng

    def cases():
        n = 12000 if not r.thorough else 200000
        for k in range(n):
            s = rng.randrange(LO, HI) if k % 3 else rng.randrange(1262304000, 1893456000)
            if k % 5 == 0:
                s = s // 86400 * 86400 + rng.choice([-1, 0, 1, 43200, 43199])
            if k % 17 == 0:
                s = rng.choice(sorted(leaps)) * 86400 + rng.choice([-86400, -43200, -1, 0, 1])
            tick = rng.randrange(FS) if k % 2 else rng.choice([0, 1, 2, FS - 1, FS - 2, FS // 2, FS // 2 - 1, 98, 19600])
            yield ('tag', {'tag': max(TAGLO + 10**6, s * FS + tick), 'offset': rng.choice([0, 0, 1, 6660, 10**6])})
            if k % 4 == 0:
                sf = rng.choice([0.0, 0.5, rng.uniform(-3, 3), 1.0, -1.0, 0.999999999, -1e-9, 2.25])
                yield ('ctor', {'si': s, 'sf': sf, 's': s + rng.random()})
                yield ('mjd', {'mjd': rng.randrange(41317, 86000), 'mpm': rng.choice([rng.randrange(86400000), 0, 1, 999, 1000, 86399999, 43200000, 43199999]),
                               'sec': rng.choice([rng.randrange(86400), 0, 86399, 43200]), 'frac': rng.choice([rng.random(), 0.0, 0.5, 1 - 2**-40])})
                yield ('arith', {'u': Fraction(s) + Fraction(rng.randrange(2**20), 2**20), 'v': Fraction(rng.choice([s, s + 1, rng.randrange(LO, HI)])) + Fraction(rng.randrange(2**20), 2**20),
                                 's': rng.choice([0.0, 1.0, -1.0, 86400.0, rng.uniform(-1e6, 1e6), 1e-6, rng.uniform(-1, 1)])})
    fns = {'tag': chk_tag, 'ctor': chk_ctor, 'mjd': chk_mjd, 'arith': chk_arith}
    r.concrete('timestamps on the real code', cases(), lambda c: fns[c[0]](c[1]), limit_s=90)
