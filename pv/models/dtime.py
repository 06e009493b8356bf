"""
Contract on datetime.datetime used by lsl.common.mcs (assumed, cross-checked by the batteries): an aware UTC
datetime is an integer number of microseconds since 1970; fromtimestamp rounds to the nearest microsecond;
astimezone(utc) subtracts the UTC offset.  Field values obey the proleptic Gregorian calendar.
"""
import types
from fractions import Fraction
import z3
from pv.sym import SFloat, SInt, SBool, X, ctx, Unsupported, And, Or, Implies, Ite

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def leap(y):
    return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


def ordinal(y, m, d):
    """proleptic Gregorian ordinal (day 1 = 0001-01-01), m concrete"""
    n = (y - 1)
    o = n * 365 + n // 4 - n // 100 + n // 400 + CUM[m - 1] + d
    if m > 2:
        o = o + Ite(leap(y), 1, 0)
    return o


class TZ:
    def __init__(self, name):
        self.name = name


utc = TZ('utc')
other = TZ('other')


class DT:
    """fields: symbolic datetime"""
    def __init__(self, us=None, tzinfo=None, fields=None, offset=None):
        self.us, self.tzinfo, self.f, self.offset = us, tzinfo, fields, offset

    def __getattr__(self, n):
        if n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            if self.f is None:
                raise Unsupported('fields of a computed datetime')
            return self.f[n]
        raise AttributeError(n)

    def astimezone(self, tz=None):
        if self.f is not None and tz is utc:
            # UTC fields of a datetime with an arbitrary offset: the caller supplies them (ghost)
            return DT(tzinfo=utc, fields=self.offset if self.offset is not None else self.f)
        return DT(us=self.us, tzinfo=tz)

    def replace(self, tzinfo=None):
        return DT(us=self.us, tzinfo=tzinfo, fields=self.f, offset=self.offset)


class datetime(DT):
    @staticmethod
    def fromtimestamp(t, tz=None):
        if tz is not utc:
            raise Unsupported('fromtimestamp in a time zone other than UTC')
        cx = ctx()
        us = cx.fresh('us', 'I')
        x = X(SFloat.of(t)).e * 1000000
        tol = X(Fraction(1, 2) + Fraction(1, 10**6)).e
        cx.axiom(z3.And(z3.ToReal(us) - x <= tol, x - z3.ToReal(us) <= tol))
        return DT(us=SInt(us), tzinfo=utc)

    @staticmethod
    def utcfromtimestamp(t):
        return datetime.fromtimestamp(t, tz=utc)


class timezone:
    pass


timezone.utc = utc
mod = types.ModuleType('datetime')
mod.datetime = datetime
mod.timezone = timezone


class timedelta:
    def __init__(self, *a, **k):
        raise Unsupported('timedelta')


mod.timedelta = timedelta
