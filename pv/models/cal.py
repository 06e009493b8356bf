"""
Contracts on calendar.timegm, time.gmtime, datetime.datetime and astropy.time.Time as used by lsl.astro
(assumed, cross-checked by the batteries of C19).  Days that end with a leap second are excluded by the
precondition of every contract that uses UTC (UTC Julian dates are stretched on them).
"""
import time as _time
import types
from fractions import Fraction
import z3
from pv.sym import SFloat, SInt, SBool, X, ctx, Unsupported, And, Or, Ite, is_sym, Ctx
from .dtime import ordinal, leap

E70 = 719163             # ordinal of 1970-01-01
JD0 = Fraction(4881175, 2)
TT = Fraction(32184, 1000)
# (MJD from which TAI-UTC applies, seconds): IERS Bulletin C
LEAPS = [(41317, 10), (41499, 11), (41683, 12), (42048, 13), (42413, 14), (42778, 15), (43144, 16), (43509, 17), (43874, 18),
         (44239, 19), (44786, 20), (45151, 21), (45516, 22), (46247, 23), (47161, 24), (47892, 25), (48257, 26), (48804, 27),
         (49169, 28), (49534, 29), (50083, 30), (50630, 31), (51179, 32), (53736, 33), (54832, 34), (56109, 35), (57204, 36), (57754, 37)]
LEAP_DAYS = [m - 1 for m, _ in LEAPS[1:]]      # MJD of the days that end with a leap second


def tai_utc(mjd):
    """TAI-UTC for an X/real MJD, as an X"""
    e = X(mjd).e
    out = X(10).e
    for m, s in LEAPS[1:]:
        out = z3.If(e >= m, X(s).e, out)
    return X(out)


def days_in_month(y, m):
    if m == 2:
        return 28 + Ite(leap(y), 1, 0)
    return 30 if m in (4, 6, 9, 11) else 31


def timegm(t):
    y, m, d, H, M, S = t[:6]
    return (ordinal(y, int(m.__index__()), d) - E70) * 86400 + H * 3600 + M * 60 + S


class _gm(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])


def civil(secs, n='c'):
    """fresh calendar fields of an integer number of seconds since 1970"""
    cx = ctx()
    f = [SInt(cx.fresh(n + k, 'I'), lo, hi) for k, lo, hi in (('y', 1, 9999), ('m', 1, 12), ('d', 1, 31), ('H', 0, 23), ('M', 0, 59), ('S', 0, 59))]
    for v in f:
        cx.axiom(v.e >= v.lo)
        cx.axiom(v.e <= v.hi)
    y, m, d, H, M, S = f
    mm = m.__index__()
    cx.assume(d <= days_in_month(y, mm))
    cx.assume(timegm((y, mm, d, H, M, S)) == secs)
    return y, mm, d, H, M, S


def gmtime(t=None):
    if not is_sym(t):
        return _time.gmtime(t)
    if not isinstance(t, SInt):
        t = t._floor_int()
    return _gm(civil(t, 'g') + (0, 1, 0))


class datetime:
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if tzinfo is not None:
            raise Unsupported('datetime with a zone')
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond = year, month, day, hour, minute, second, microsecond

    def secs(self):
        return X(timegm((self.year, self.month, self.day, self.hour, self.minute, self.second))) + X(self.microsecond) / 1000000

    @staticmethod
    def now(*a):
        raise Unsupported('system clock')
    utcnow = now


ERR = Fraction(5, 10**12)


def _noisy(x):
    cx = ctx()
    n = cx.fresh('terr')
    b = X(ERR).e
    cx.axiom(n <= b)
    cx.axiom(n >= -b)
    return X(x.e + n)


class Time:
    """an instant; u: UTC seconds since 1970 (86400 s days), or tai: TAI seconds since 1970-01-01 TAI"""
    def __init__(self, a, b=None, format=None, scale='utc', _c=None):
        self.ok = True
        if Ctx.cur is None:
            self.raw = (a, format, scale)
            return
        if isinstance(a, datetime):
            v = a.secs()
        else:
            v = X(SFloat.of(a)) + (X(b) if b is not None else 0)
            if format == 'mjd':
                v = (v - 40587) * 86400
            elif format == 'jd':
                v = (v - JD0) * 86400
            elif format == 'unix':
                pass
            elif format == 'datetime':
                raise Unsupported('datetime format')
            else:
                raise Unsupported('Time format %r' % (format,))
        if format == 'unix' and scale not in ('utc', None):
            raise Unsupported('unix time on another scale')
        self.v, self.scale = v, scale or 'utc'

    @classmethod
    def mk(cls, v, scale):
        o = object.__new__(cls)
        o.v, o.scale = v, scale
        return o

    def _force(self):
        if not hasattr(self, 'v'):          # made at import time, outside any contract
            a, f, s = self.raw
            return Time(a, format=f, scale=s)
        return self

    def tai_s(self):
        """TAI seconds"""
        t = self._force()
        if t.scale == 'tai':
            return t.v
        if t.scale == 'tt':
            return t.v - TT
        if t.scale == 'utc':
            if not is_const_zero(t.v):
                return t.v + tai_utc(t.v / 86400 + 40587)
            return t.v + Fraction(8000082, 1000000)       # 1970-01-01, before whole leap seconds
        if t.scale == 'tdb':
            return t.v - TT - X(_tdb(t.v))
        raise Unsupported('scale ' + str(t.scale))

    def to(self, scale):
        t = self._force()
        if t.scale == scale:
            return t
        tai = t.tai_s()
        if scale == 'tai':
            return Time.mk(_noisy(tai), 'tai')
        if scale == 'tt':
            return Time.mk(_noisy(tai + TT), 'tt')
        if scale == 'utc':
            cx = ctx()
            u = X(cx.fresh('utc'))
            cx.axiom((u + tai_utc(u / 86400 + 40587)).e == tai.e)
            return Time.mk(_noisy(u), 'utc')
        if scale == 'tdb':
            w = tai + TT
            return Time.mk(_noisy(w + X(_tdb(w))), 'tdb')
        raise Unsupported('scale ' + scale)

    utc = property(lambda s: s.to('utc'))
    tai = property(lambda s: s.to('tai'))
    tt = property(lambda s: s.to('tt'))
    tdb = property(lambda s: s.to('tdb'))

    @property
    def jd(self):
        return SFloat((self._force().v / 86400 + JD0).e)._round()

    @property
    def mjd(self):
        return SFloat((self._force().v / 86400 + 40587).e)._round()

    @property
    def unix(self):
        return SFloat(self.to('utc').v.e)._round()

    @property
    def datetime(self):
        t = self._force()
        cx = ctx()
        us = SInt(cx.fresh('dtus', 'I'))
        cx.assume(And(X(us) / 1000000 - t.v <= Fraction(1, 10**6), t.v - X(us) / 1000000 <= Fraction(1, 10**6)))
        s = us // 1000000
        y, m, d, H, M, S = civil(s, 'd')
        return datetime(y, m, d, H, M, S, us % 1000000)

    def __sub__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        return _Delta(self.tai_s() - o.tai_s())

    @staticmethod
    def now():
        raise Unsupported('system clock')

    def __deepcopy__(self, memo):
        return self


def is_const_zero(x):
    e = z3.simplify(x.e)
    return z3.is_rational_value(e) and e.as_fraction() == 0


def _tdb(v):
    cx = ctx()
    f = z3.Function('tdb_minus_tt', z3.RealSort(), z3.RealSort())(z3.RealVal(0) + cx.fresh('tdbarg'))
    cx.axiom(f <= X(Fraction(2, 1000)).e)
    cx.axiom(f >= -X(Fraction(2, 1000)).e)
    return f


class _Delta:
    def __init__(self, v):
        self.v = v

    @property
    def sec(self):
        return SFloat(self.v.e)._round()

    @property
    def jd(self):
        return SFloat((self.v / 86400).e)._round()


time_mod = types.ModuleType('time')
for _k in dir(_time):
    if not _k.startswith('_'):
        setattr(time_mod, _k, getattr(_time, _k))
time_mod.gmtime = gmtime
calendar_mod = types.ModuleType('calendar')
calendar_mod.timegm = timegm
datetime_mod = types.ModuleType('datetime')
datetime_mod.datetime = datetime
astime_mod = types.ModuleType('astropy.time')
astime_mod.Time = Time
MODELS = {'time': time_mod, 'calendar': calendar_mod, 'datetime': datetime_mod, 'astropy.time': astime_mod}
