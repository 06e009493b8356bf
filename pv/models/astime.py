"""
Contract on astropy.time.Time / TimeDelta used by lsl.reader.base (assumed, cross-checked by the batteries):
a Time is an instant t (UTC seconds since 1970, every day 86400 s long: days that end in a leap second and
dates before 1972 are excluded by the precondition); every constructor, sum and difference is within ERR
of the exact result; the stored two-part Julian date has an integral first part and |second part| <= 1/2.
"""
import types
from fractions import Fraction
import z3
from pv.sym import SFloat, SInt, SBool, X, ctx, Unsupported, is_sym

ERR = Fraction(5, 10**12)
JD0 = Fraction(4881175, 2)     # 2440587.5


def _val(x):
    return X(x).e


def _noisy(e):
    cx = ctx()
    n = cx.fresh('terr')
    b = X(ERR).e
    cx.axiom(n <= b)
    cx.axiom(n >= -b)
    return e + n


class TimeDelta:
    def __init__(self, v, format='sec', scale=None, _e=None):
        if _e is not None:
            self.e = _e
        elif format == 'sec':
            self.e = _val(v)
        elif format == 'jd':
            self.e = _val(v) * 86400
        elif format == 'datetime':
            self.e = _val(v.total_seconds())
        else:
            raise Unsupported('TimeDelta format ' + str(format))

    @property
    def sec(self):
        return SFloat(_noisy(self.e))._round()

    def to_value(self, f, *a):
        if f in ('sec', 's'):
            return self.sec
        raise Unsupported('TimeDelta.to_value ' + f)


class Time:
    def __init__(self, a, b=None, format=None, scale=None, _e=None):
        if _e is not None:
            self.e = _noisy(_e)
            return
        if isinstance(a, Time):
            self.e = a.e
            return
        if scale not in ('utc', None):
            raise Unsupported('scale ' + str(scale))
        if format == 'iso' and isinstance(a, str):
            import datetime
            d, _, t = a.partition(' ')
            y, m, dd = [int(x) for x in d.split('-')]
            h = [Fraction(x) for x in (t or '0:0:0').split(':')]
            self.e = X((datetime.date(y, m, dd).toordinal() - 719163) * 86400 + h[0] * 3600 + h[1] * 60 + h[2]).e
            return
        v = _val(a) + (_val(b) if b is not None else 0)
        if format == 'unix':
            self.e = _noisy(v)
        elif format == 'mjd':
            self.e = _noisy((v - 40587) * 86400)
        elif format == 'jd':
            self.e = _noisy((v - X(JD0).e) * 86400)
        else:
            raise Unsupported('Time format ' + str(format))

    @property
    def utc(self):
        return self

    def _jd(self):
        if not hasattr(self, '_j'):
            cx = ctx()
            j1 = cx.fresh('jd1', 'I')
            j2 = cx.fresh('jd2')
            cx.axiom(z3.ToReal(j1) + j2 == self.e / 86400 + X(JD0).e)
            cx.axiom(j2 >= -X(Fraction(1, 2)).e)
            cx.axiom(j2 <= X(Fraction(1, 2)).e)
            self._j = (SFloat(z3.ToReal(j1), Fraction(0), Fraction(10**8), True), SFloat(j2, Fraction(-1, 2), Fraction(1, 2)))
            cx.axiom(j1 >= 0)
            cx.axiom(j1 <= 10**8)
        return self._j

    @property
    def jd1(self):
        return self._jd()[0]

    @property
    def jd2(self):
        return self._jd()[1]

    @property
    def unix(self):
        r = SFloat(self.e, Fraction(-10**11), Fraction(10**11))
        return r._round()

    @property
    def jd(self):
        return SFloat(self.e / 86400 + X(JD0).e)._round()

    @property
    def mjd(self):
        return SFloat(self.e / 86400 + 40587)._round()

    def __add__(self, o):
        if isinstance(o, TimeDelta):
            return self if z3.is_rational_value(o.e) and o.e.as_fraction() == 0 else Time(None, _e=self.e + o.e)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, TimeDelta):
            return self if z3.is_rational_value(o.e) and o.e.as_fraction() == 0 else Time(None, _e=self.e - o.e)
        if isinstance(o, Time):
            return TimeDelta(None, _e=_noisy(self.e - o.e))
        return NotImplemented

    def _cmp(self, o, f):
        return SBool(f(self.e, o.e))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None

    def __deepcopy__(self, memo): return self


mod = types.ModuleType('astropy.time')
mod.Time = Time
mod.TimeDelta = TimeDelta
