"""C09: MJD/MPM <-> datetime."""
import datetime as D
from pv.loader import SymLoader
from pv.sym import And, X, Or
from pv.models import dtime

EPOCH = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)
US = D.timedelta(microseconds=1)


def run(r):
    r.trust('datetime.datetime (contract pv/models/dtime.py)')
    ld = SymLoader(models={'datetime': dtime.mod}, symbolic={'lsl.common.mcs'})
    mcs = ld.load('lsl.common.mcs')
    from lsl.common import mcs as rm

    def fwd(cx):
        lo, hi = ((15020, 24855), (24856, 49709), (49710, 88069))[cx.int_input('era', 0, 2).__index__()]      # 1900 .. 2099
        mjd = cx.int_input('mjd', lo, hi)
        mpm = cx.int_input('mpm', 0, 86399999)
        tz = dtime.other if cx.bool_input('has_tz') else None
        dt = mcs.mjdmpm_to_datetime(mjd, mpm, tz=tz)
        cx.prove('mjdmpm_to_datetime: the instant, to the microsecond',
                 dt.us == (mjd - 40587) * 86400000000 + mpm * 1000)
        cx.prove('mjdmpm_to_datetime: aware, in the requested zone', dt.tzinfo is (tz or dtime.utc))

    def chk_fwd(i):
        mjd, mpm = int(i['mjd']), int(i['mpm'])
        tz = D.timezone(D.timedelta(hours=-7)) if i.get('has_tz') else None
        dt = rm.mjdmpm_to_datetime(mjd, mpm, tz=tz)
        if dt.tzinfo is None or dt.utcoffset() != (tz or D.timezone.utc).utcoffset(None):
            return 'mjdmpm_to_datetime(%d, %d, tz=%s) has zone %s' % (mjd, mpm, tz, dt.tzinfo)
        if (dt - EPOCH) // US != (mjd - 40587) * 86400000000 + mpm * 1000:
            return 'mjdmpm_to_datetime(%d, %d) = %s' % (mjd, mpm, dt)
        for d2 in (dt, dt.astimezone(D.timezone.utc), dt.astimezone(D.timezone.utc).replace(tzinfo=None),
                   dt.astimezone(D.timezone(D.timedelta(hours=5, minutes=30)))):
            if rm.datetime_to_mjdmpm(d2) != (mjd, mpm):
                return 'datetime_to_mjdmpm(%s) = %r, expected %r' % (d2, rm.datetime_to_mjdmpm(d2), (mjd, mpm))
    r.contract('MJD/MPM to datetime', fwd, ['lsl.common.mcs.mjdmpm_to_datetime'], chk_fwd, float_mode='err')

    def back(cx):
        y = cx.int_input('year', 1900, 2199)
        m = cx.int_input('month', 1, 12)
        mm = m.__index__()
        d = cx.int_input('day', 1, 31)
        H = cx.int_input('hour', 0, 23)
        M = cx.int_input('minute', 0, 59)
        S = cx.int_input('second', 0, 59)
        ms_ = cx.int_input('ms', 0, 999)
        us = ms_ * 1000 + cx.int_input('us', 0, 999)
        f = dict(year=y, month=mm, day=d, hour=H, minute=M, second=S, microsecond=us)
        junk = dict(year=1, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
        k = cx.int_input('kind', 0, 2).__index__()
        dt = (dtime.DT(fields=f), dtime.DT(tzinfo=dtime.utc, fields=f), dtime.DT(tzinfo=dtime.other, fields=junk, offset=f))[k]
        ms = ((H * 60 + M) * 60 + S) * 1000 + ms_
        cx.hint(ms_)
        cx.hint(ms)
        cx.hint(dtime.ordinal(y, mm, d) - 678576)
        a, b = mcs.datetime_to_mjdmpm(dt)
        cx.prove('datetime_to_mjdmpm: MJD is the calendar day number', a == dtime.ordinal(y, mm, d) - 678576)
        cx.prove('datetime_to_mjdmpm: MPM is the whole milliseconds since midnight', b == ms)

    def chk_back(i):
        try:
            dt = D.datetime(i['year'], i['month'], i['day'], i['hour'], i['minute'], i['second'], i['us'] + 1000 * i.get('ms', 0))
        except ValueError:
            return None
        off = D.timezone(D.timedelta(hours=-7))
        for d2 in (dt, dt.replace(tzinfo=D.timezone.utc), dt.replace(tzinfo=D.timezone.utc).astimezone(off)):
            a, b = rm.datetime_to_mjdmpm(d2)
            want = (dt.toordinal() - 678576, ((dt.hour * 60 + dt.minute) * 60 + dt.second) * 1000 + dt.microsecond // 1000)
            if (a, b) != want:
                return 'datetime_to_mjdmpm(%s) = %r, expected %r' % (d2, (a, b), want)
    r.contract('datetime to MJD/MPM', back, ['lsl.common.mcs.datetime_to_mjdmpm'], chk_back, float_mode='err')

    rng = r.rng

    def cases():
        for mjd in range(15020, 88070, 1 if r.thorough else 3):
            yield 'f', {'mjd': mjd, 'mpm': rng.choice([0, 1, 999, 1000, 86399999, 86399000, rng.randrange(86400000), rng.randrange(86400000)]), 'has_tz': rng.random() < .3}
        for k in range(20000):
            dt = D.datetime(1900, 1, 1) + D.timedelta(microseconds=rng.randrange(6311433600 * 10**6))
            if k % 4 == 0:
                dt = dt.replace(hour=rng.choice([0, 23]), minute=rng.choice([0, 59]), second=rng.choice([0, 59]), microsecond=rng.choice([0, 999, 1000, 999999, 999499, 999500]))
            yield 'b', dict(year=dt.year, month=dt.month, day=dt.day, hour=dt.hour, minute=dt.minute, second=dt.second, us=dt.microsecond)
    r.concrete('dates on the real code', cases(), lambda c: (chk_fwd if c[0] == 'f' else chk_back)(c[1]), limit_s=60)
