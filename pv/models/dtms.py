"""
Contract on datetime.datetime and datetime.timedelta as lsl.common.sdf, idf and _sdf_utils use them (assumed,
cross-checked by the batteries): an aware datetime is an integer number of microseconds since 1970 UTC, a
timedelta an integer number of microseconds; strftime with "%f" at the end writes six digits of microseconds, so
cutting the last three characters off drops the microseconds below the millisecond.
"""
import datetime as _D
import types
from fractions import Fraction
import z3
from pv.sym import SFloat, SInt, X, ctx, Unsupported, is_sym

DAY = 86400 * 10**6
EPOCH = _D.datetime(1970, 1, 1, tzinfo=_D.timezone.utc)


class TZ:
    def __init__(self, name):
        self.name = name


utc = TZ('utc')
other = TZ('other')


class TimeText(str):
    dt = None
    cut = None

    def __new__(cls, s, dt):
        o = str.__new__(cls, s)
        o.dt = dt
        return o

    def __getitem__(self, k):
        if k == slice(None, -3, None):
            return TimeText(str.__getitem__(self, k), datetime._new((self.dt.us // 1000) * 1000, self.dt.tzinfo))
        raise Unsupported('part of the text of a date')


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0):
        t = (days * 86400 + hours * 3600 + minutes * 60 + seconds) * 1000000 + milliseconds * 1000 + microseconds
        if isinstance(t, (SFloat, float)):
            i = t.round_int() if is_sym(t) else round(t)
            t = i
        self.us = t

    days = property(lambda s: s.us // DAY)
    seconds = property(lambda s: (s.us % DAY) // 1000000)
    microseconds = property(lambda s: s.us % 1000000)

    def total_seconds(self):
        return self.us / 1000000

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self.us / o.us
        raise Unsupported('division of a timedelta')

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self.us // o.us
        raise Unsupported('division of a timedelta')

    def __mod__(self, o):
        return timedelta(microseconds=self.us % o.us)

    def __add__(self, o):
        return o + self if isinstance(o, datetime) else timedelta(microseconds=self.us + o.us)

    def __neg__(self):
        return timedelta(microseconds=-self.us)


class datetime:
    def __init__(self, *a, tzinfo=None, **k):
        d = _D.datetime(*a, tzinfo=_D.timezone.utc, **k)
        dd = d - EPOCH
        self.us, self.tzinfo = (dd.days * 86400 + dd.seconds) * 10**6 + dd.microseconds, tzinfo

    @classmethod
    def _new(cls, us, tzinfo):
        o = cls.__new__(cls)
        o.us, o.tzinfo = us, tzinfo
        return o

    microsecond = property(lambda s: s.us % 1000000)

    def replace(self, microsecond=None, tzinfo=0):
        us = self.us
        if microsecond is not None:
            if not ((microsecond >= 0) & (microsecond <= 999999) if is_sym(microsecond) else 0 <= microsecond <= 999999):
                raise ValueError('microsecond must be in 0..999999')
            us = us - us % 1000000 + microsecond
        return datetime._new(us, self.tzinfo if tzinfo == 0 else tzinfo)

    def __add__(self, o):
        return datetime._new(self.us + o.us, self.tzinfo)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, datetime):
            return timedelta(microseconds=self.us - o.us)
        return datetime._new(self.us - o.us, self.tzinfo)

    def astimezone(self, tz=None):
        return datetime._new(self.us, tz)

    def timestamp(self):
        return self.us / 1000000

    def strftime(self, fmt):
        t = EPOCH.strftime(fmt)
        if not fmt.endswith('%f'):
            return t
        return TimeText(t, self)

    @staticmethod
    def fromtimestamp(t, tz=None):
        if tz is not utc:
            raise Unsupported('fromtimestamp in a time zone other than UTC')
        cx = ctx()
        x = X(SFloat.of(t)).e * 1000000
        if cx.hints:
            k = cx.match_hint(x, Fraction(-499999, 10**6), Fraction(499999, 10**6))
            if k is not None:
                return datetime._new(k, utc)
        us = cx.fresh('us', 'I')
        tol = X(Fraction(1, 2) + Fraction(1, 10**6)).e
        cx.axiom(z3.And(z3.ToReal(us) - x <= tol, x - z3.ToReal(us) <= tol))
        return datetime._new(SInt(us), utc)


class timezone:
    def __init__(self, *a):
        raise Unsupported('time zone')


timezone.utc = utc
mod = types.ModuleType('datetime')
mod.datetime, mod.timedelta, mod.timezone = datetime, timedelta, timezone
