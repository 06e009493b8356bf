"""C11: session and run definition files (lsl.common.sdf, idf, _sdf_utils)."""
import datetime as D
import io
import logging
import math
import os
import types
from fractions import Fraction as Fr
from unittest import mock
from pv.loader import SymLoader
from pv.models import dtms
from pv.runner import scratch
from pv.sym import And, Or, Not, X, SInt, SFloat, Ite, Unsupported, is_sym

LEVEL = 'proof'
DAYMS = 86400000
WMIN, WMAX = 222417950, 1928352663           # DRX tuning range of the NDP back end
TWO32 = 1 << 32
COMP = ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS')
SD = 'lsl/common/sdf.py:'
ID = 'lsl/common/idf.py:'
UT = 'lsl/common/_sdf_utils.py:'


# ---------------------------------------------------------------- what is written and what must come back
def mk_obs(m, o):
    t0 = 'UTC 2020 01 01 00:00:00.000'
    c = o.get('comments')
    if o['mode'] == 'TBT':
        b = m.TBT(o['name'], o['target'], t0, o['samples'], comments=c)
    elif o['mode'] == 'TBS':
        b = m.TBS(o['name'], o['target'], t0, '00:00:01', 38e6, o['filter'], comments=c)
    elif o['mode'] == 'STEPPED':
        b = m.Stepped(o['name'], o['target'], t0, o['filter'], is_radec=o['radec'], gain=o['gain'], comments=c)
        for s in o['steps']:
            st = m.BeamStep(0.0, 0.0, '00:00:01', 38e6, 74e6, is_radec=o['radec'], high_dr=s['beam'] == 'HIGH_DR')
            st.c1, st.c2, st.dur, st.freq1, st.freq2 = s['c1'], s['c2'], s['dur'], s['freq1'], s['freq2']
            if s['beam'] == 'SPEC_DELAYS_GAINS':
                st.delays = [0] * 512
                st.gains = [[[0, 0], [0, 0]] for k in range(256)]
                for k, v in s['delays'].items():
                    st.delays[int(k)] = v
                for k, v in s['gains'].items():
                    a, i, j = (int(z) for z in k.split(','))
                    st.gains[a][i][j] = v
            b.append(st)
    else:
        k = {'TRK_RADEC': m.DRX, 'TRK_SOL': m.Solar, 'TRK_JOV': m.Jovian, 'TRK_LUN': m.Lunar}[o['mode']]
        a = (1.0, 2.0) if o['mode'] == 'TRK_RADEC' else ()
        b = k(o['name'], o['target'], t0, '00:00:01', *a, 38e6, 74e6, o['filter'], gain=o['gain'], high_dr=o['high_dr'], comments=c)
        if a:
            b.ra, b.dec = o['ra'], o['dec']
        b.freq2 = o['freq2']
    b.mjd, b.mpm = o['mjd'], o['mpm']
    if o['mode'] not in ('TBT', 'STEPPED'):
        b.dur, b.freq1 = o['dur'], o['freq1']
    if o.get('bdm'):
        b.beamDipole = list(o['bdm'])
    for k, v in o.get('fee', {}).items():
        s, p = (int(z) for z in k.split(','))
        b.fee_power[s][p] = v
    for n in ('asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3'):
        for k, v in o.get(n, {}).items():
            if k == 'all':
                setattr(b, n, [v] * 256)
            else:
                getattr(b, n)[int(k)] = v
    return b


def holds(c):
    """a condition without symbolic values"""
    import z3
    return bool(c) if not is_sym(c) else z3.is_true(z3.simplify(c.e))


def same(a, b):
    """symbolic or plain"""
    if is_sym(a) or is_sym(b):
        return X(a) == X(b)
    return a == b


def near(a, b, t=Fr(6, 10**10)):
    if is_sym(a) or is_sym(b):
        return X(a).near(X(b), t)
    return abs(Fr(a) - Fr(b)) <= t


def cmp_obs(b, o, dur):
    """(what, condition) pairs for an observation read back"""
    yield 'mode', b.mode == o['mode']
    yield 'start', And(same(b.mjd, o['mjd']), same(b.mpm, o['mpm']))
    yield 'duration', same(b.dur, dur)
    yield 'name', b.name == o['name'] and b.target == o['target'] and b.comments == (o.get('comments') or 'None provided')
    if o['mode'] == 'TBT':
        yield 'samples', same(b.samples, o['samples'])
    elif o['mode'] == 'STEPPED':
        yield 'filter', same(b.filter, o['filter'])
        yield 'gain', same(b.gain, o['gain'])
        yield 'steps', len(b.steps) == len(o['steps']) and b.is_radec == o['radec']
        for k, (s, w) in enumerate(zip(b.steps, o['steps'])):
            yield 'step pointing', And(near(s.c1, w['c1']), near(s.c2, w['c2']), s.is_radec == o['radec'])
            yield 'step duration', same(s.dur, w['dur'])
            yield 'step tunings', And(same(s.freq1, w['freq1']), same(s.freq2, w['freq2']))
            yield 'step beam', s.beam == w['beam']
            if w['beam'] == 'SPEC_DELAYS_GAINS':
                d = {int(i): v for i, v in w['delays'].items()}
                g = {tuple(int(z) for z in i.split(',')): v for i, v in w['gains'].items()}
                yield 'step delays', s.delays is not None and len(s.delays) == 512 and And(*[same(s.delays[i], d.get(i, 0)) for i in range(512) if i in d or s.delays[i] != 0 or is_sym(s.delays[i])])
                yield 'step gains', s.gains is not None and len(s.gains) == 256 and And(*[same(s.gains[i][p][q], g.get((i, p, q), 0)) for i in range(256) for p in (0, 1) for q in (0, 1)
                                                                                if (i, p, q) in g or is_sym(s.gains[i][p][q]) or s.gains[i][p][q] != 0])
            else:
                yield 'no step delays', s.delays is None and s.gains is None
    else:
        yield 'filter', same(b.filter, o['filter'])
        yield 'tuning 1', same(b.freq1, o['freq1'])
        if o['mode'] != 'TBS':
            yield 'tuning 2', same(b.freq2, o['freq2'])
            yield 'gain', same(b.gain, o['gain'])
            yield 'beam', b.beam == ('HIGH_DR' if o['high_dr'] else 'SIMPLE') and b.high_dr == o['high_dr']
        if o['mode'] == 'TRK_RADEC':
            yield 'pointing', And(near(b.ra, o['ra']), near(b.dec, o['dec']))
    if o.get('bdm'):
        w = o['bdm']
        yield 'beam-dipole mode', b.beamDipole is not None and And(int(b.beamDipole[0]) == int(w[0]), near(b.beamDipole[1], w[1], Fr(6, 10**5)), near(b.beamDipole[2], w[2], Fr(6, 10**5)), b.beamDipole[3] == w[3])
    else:
        yield 'no beam-dipole mode', b.beamDipole is None
    fee = {tuple(int(z) for z in k.split(',')): v for k, v in o.get('fee', {}).items()}
    yield 'FEE power', And(*[same(b.fee_power[s][p], fee.get((s, p), -1)) for s in range(256) for p in (0, 1)])
    for n in ('asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3'):
        w = o.get(n, {})
        yield n, And(*[same(getattr(b, n)[s], w['all'] if 'all' in w else w.get(str(s), -1)) for s in range(256)])


def mk_ses(m, sp):
    s = m.Session(sp.get('name', 'a session'), sp.get('id', 7), data_return_method=sp.get('ret', 'DRSU'), comments=sp.get('comments'))
    s.configuration_authority = sp.get('cra', 0)
    s.drx_beam = sp.get('beam', -1)
    if 'spc' in sp:
        s.spc_setup = list(sp['spc'][:2])
        s.spc_metatag = sp['spc'][2]
    for k, v in sp.get('mrp', {}).items():
        s.set_mib_record_interval(k, v)
    for k, v in sp.get('mup', {}).items():
        s.set_mib_update_interval(k, v)
    s.include_mcssch_log, s.include_mcsexe_log, s.include_station_smib, s.include_station_design = sp.get('inc', (False,) * 4)
    s.ucf_username = sp.get('user')
    return s


def cmp_ses(s, sp):
    yield 'session id and name', And(same(s.id, sp.get('id', 7)), s.name == sp.get('name', 'a session'))
    yield 'return method', s.dataReturnMethod == sp.get('ret', 'DRSU')
    yield 'authority and beam', And(same(s.configuration_authority, sp.get('cra', 0)), same(s.drx_beam, sp.get('beam', -1)))
    w = sp.get('spc', [0, 0, None])
    yield 'spectrometer', And(same(s.spc_setup[0], w[0]), same(s.spc_setup[1], w[1]), s.spc_metatag == w[2])
    yield 'MIB intervals', And(*[And(same(s.record_mib[k], sp.get('mrp', {}).get(k, -1)), same(s.update_mib[k], sp.get('mup', {}).get(k, -1))) for k in COMP])
    yield 'logs and station files', (s.include_mcssch_log, s.include_mcsexe_log, s.include_station_smib, s.include_station_design) == tuple(sp.get('inc', (False,) * 4))
    yield 'user name', s.ucf_username == sp.get('user')


def proj(m, sp):
    s = mk_ses(m, sp)
    po = m.ProjectOffice(project='po', sessions=['po ses'], observations=[['po %d' % k for k in range(len(sp['obs']))]]) if sp.get('po', True) else None
    p = m.Project(m.Observer('Doe, Jane', sp.get('pi', 5)), 'a project', 'LX001', sessions=[s], comments=sp.get('pcomments'), project_office=po)
    for o in sp['obs']:
        s.append(mk_obs(m, o))
    return p


def cmp_proj(q, p, sp):
    yield 'observer', And(q.observer.name == 'Doe, Jane', q.observer.first == 'Jane', q.observer.last == 'Doe', same(q.observer.id, sp.get('pi', 5)))
    yield 'project', q.name == 'a project' and q.id == 'LX001' and q.comments == (sp.get('pcomments') or 'None provided')
    yield 'one session', len(q.sessions) == 1
    yield from cmp_ses(q.sessions[0], sp)
    yield 'number of observations', len(q.sessions[0].observations) == len(sp['obs'])
    for o, b in zip(sp['obs'], q.sessions[0].observations):
        d = o['dur'] if o['mode'] not in ('TBT', 'STEPPED') else (sum(s['dur'] for s in o['steps']) if o['mode'] == 'STEPPED' else [x for x in p.sessions[0].observations if x.name == o['name']][0].dur)
        for w, c in cmp_obs(b, o, d):
            yield '%s' % w, c


# ---------------------------------------------------------------- runs (IDF)
def mk_run(m, sp):
    r = m.Run(sp.get('name', 'a run'), sp.get('id', 3), data_return_method=sp.get('ret', 'DRSU'), comments=sp.get('comments'), correlator_channels=sp.get('nchan', 512),
              correlator_inttime=sp.get('tint', 1.0), correlator_basis=sp.get('basis', 'linear'))
    r.ucf_username = sp.get('user')
    t0 = 'UTC 2020 01 01 00:00:00.000'
    for o in sp['obs']:
        k = {'TRK_RADEC': m.DRX, 'TRK_SOL': m.Solar, 'TRK_JOV': m.Jovian}[o['mode']]
        a = (1.0, 2.0) if o['mode'] == 'TRK_RADEC' else ()
        b = k(o['target'], o['intent'], t0, '00:00:01', *a, 38e6, 74e6, o['filter'], gain=o['gain'], comments=o.get('comments'))
        if a:
            b.ra, b.dec = o['ra'], o['dec']
            b.pm = o['pm']
        b.mjd, b.mpm, b.dur, b.freq1, b.freq2 = o['mjd'], o['mpm'], o['dur'], o['freq1'], o['freq2']
        b.asp_filter = o['flt']
        for c in o['alt']:
            b.add_alt_phase_center(c['target'], c['intent'], c['ra'], c['dec'], pm=c['pm'])
        r.append(b)
    return r


def iproj(m, sp):
    return m.Project(m.Observer('Doe, Jane', sp.get('pi', 5)), 'a project', 'LX001', runs=[mk_run(m, sp)], comments=sp.get('pcomments'))


def cmp_run(q, sp):
    yield 'observer', And(q.observer.name == 'Doe, Jane', same(q.observer.id, sp.get('pi', 5)))
    r = q.runs[0]
    yield 'run', And(r.name == sp.get('name', 'a run'), same(r.id, sp.get('id', 3)), r.dataReturnMethod == sp.get('ret', 'DRSU'), r.ucf_username == sp.get('user'))
    yield 'correlator setup', And(same(r.correlator_channels, sp.get('nchan', 512)), near(r.correlator_inttime, sp.get('tint', 1.0), Fr(6, 10**4)), r.correlator_basis == sp.get('basis', 'linear'))
    yield 'number of scans', len(r.scans) == len(sp['obs'])
    for o, b in zip(sp['obs'], r.scans):
        yield 'scan', b.mode == o['mode'] and b.target == o['target'] and b.intent == o['intent'] and b.comments == (o.get('comments') or 'None provided')
        yield 'scan start', And(same(b.mjd, o['mjd']), same(b.mpm, o['mpm']))
        yield 'scan duration', same(b.dur, o['dur'])
        yield 'scan tunings', And(same(b.freq1, o['freq1']), same(b.freq2, o['freq2']), same(b.filter, o['filter']), same(b.gain, o['gain']), same(b.asp_filter, o['flt']))
        if o['mode'] == 'TRK_RADEC':
            yield 'scan pointing', And(near(b.ra, o['ra']), near(b.dec, o['dec']), *[near(x, y, Fr(6, 100)) for x, y in zip(b.pm, o['pm'])])
        yield 'phase centers', len(b.alt_phase_centers) == len(o['alt'])
        for c, w in zip(b.alt_phase_centers, o['alt']):
            yield 'phase center', And(c.target == w['target'], c.intent == w['intent'], near(c.ra, w['ra']), near(c.dec, w['dec']), *[near(x, y, Fr(6, 100)) for x, y in zip(c.pm, w['pm'])])


def blank(mode, **k):
    o = dict(mode=mode, name=mode, target='tgt ' + mode, mjd=58849, mpm=0, dur=10000, freq1=1000000000, freq2=1500000000, filter=8 if mode == 'TBS' else 7, gain=-1, high_dr=False, ra=1.5, dec=-2.25)
    if mode == 'TBT':
        o['samples'] = 1960000
    if mode == 'STEPPED':
        o['radec'] = True
        o['steps'] = []
    o.update(k)
    return o


def step(**k):
    s = dict(c1=1.5, c2=-2.25, dur=5000, freq1=1000000000, freq2=1500000000, beam='SIMPLE', delays={}, gains={})
    s.update(k)
    return s


def iblank(mode, **k):
    o = dict(mode=mode, target='tgt ' + mode, intent='target', mjd=58849, mpm=0, dur=10000, freq1=1000000000, freq2=1500000000, filter=7, gain=-1, ra=1.5, dec=-2.25, pm=[0.0, 0.0], flt=-1, alt=[])
    o.update(k)
    return o


# ---------------------------------------------------------------- contracts used in place of the functions called
class Time:
    """lsl.transform.Time: the UTC datetime of a Modified Julian Day, which runs up to a second late on a day with a leap second"""
    def __init__(self, value, format=None):
        if format != 'MJD':
            raise Unsupported('Time format %r' % (format,))
        self.v = value

    @property
    def utc_py_date(self):
        import z3
        from pv.sym import ctx
        us = ctx().fresh('us', 'I')
        x = (X(SFloat.of(self.v)) - 40587).e * dtms.DAY
        ctx().axiom(z3.And(z3.ToReal(us) - x <= 1000010, x - z3.ToReal(us) <= 10))
        return dtms.datetime._new(SInt(us), dtms.utc)


def parse_time(s, station=None):
    """_sdf_utils.parse_time (contract proved and tested below): the instant to the nearest millisecond"""
    if isinstance(s, dtms.TimeText):
        s = s.dt
    if isinstance(s, dtms.datetime):
        us = s.us
        return dtms.datetime._new(((us + 500) // 1000) * 1000, dtms.utc)
    if isinstance(s, str) and not is_sym(s):
        from lsl.common._sdf_utils import parse_time as real
        d = real(s)
        return dtms.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tzinfo=dtms.utc)
    raise Unsupported('time given as %r' % type(s).__name__)


def mjdmpm_to_datetime(mjd, mpm, tz=None):
    return dtms.datetime._new((mjd - 40587) * dtms.DAY + mpm * 1000, dtms.utc)


def datetime_to_mjdmpm(dt):
    return dt.us // dtms.DAY + 40587, (dt.us % dtms.DAY) // 1000


def unix_of(jd):
    """lsl.astro.utcjd_to_unix at midnight: a whole number of seconds (tested below for every day of the range)"""
    import z3
    from pv.sym import ctx
    x = (X(SFloat.of(jd)) - Fr(4881175, 2)).e * 86400
    k = ctx().match_hint(x, Fr(-1, 2), Fr(1, 2)) if ctx().hints else None
    if k is not None:
        return SFloat.of(SInt(k.e, 0, 4102444800))
    u = ctx().fresh('unix', 'I')
    ctx().axiom(z3.And(z3.ToReal(u) - x < 1, x - z3.ToReal(u) < 1, u % 86400 == 0))
    return SFloat.of(SInt(u, 0, 4102444800))


def loader():
    import lsl.astro
    import lsl.transform
    a = types.ModuleType('lsl.astro')
    for k in dir(lsl.astro):
        if not k.startswith('__'):
            setattr(a, k, getattr(lsl.astro, k))
    a.utcjd_to_unix = lambda jd: unix_of(jd) if is_sym(jd) else lsl.astro.utcjd_to_unix(jd)
    t = types.ModuleType('lsl.transform')
    t.Time = Time
    ld = SymLoader(models={'datetime': dtms.mod, 'lsl.astro': a, 'lsl.transform': t}, symbolic={'lsl.common.sdf', 'lsl.common.idf', 'lsl.common._sdf_utils', 'lsl.common.mcs', 'lsl.common.ndp'})
    U = ld.load('lsl.common._sdf_utils')
    real = U.parse_time
    U.parse_time = parse_time
    M = ld.load('lsl.common.mcs')
    M.mjdmpm_to_datetime, M.datetime_to_mjdmpm = mjdmpm_to_datetime, datetime_to_mjdmpm
    S = ld.load('lsl.common.sdf')
    I = ld.load('lsl.common.idf')
    S.DRX.target_visibility = S.Stepped.target_visibility = I.Scan.target_visibility = I.AlternatePhaseCenter.target_visibility = 1.0
    return ld, S, I, U, real


def run(r):
    logging.disable(logging.CRITICAL)
    ld, S, I, U, real_parse = loader()
    from lsl.common import sdf as RS, idf as RI, _sdf_utils as RU, ndp
    tmp = scratch()
    r.trust('datetime.datetime, datetime.timedelta (contract pv/models/dtms.py); lsl.transform.Time, lsl.astro.utcjd_to_unix, mjdmpm_to_datetime, datetime_to_mjdmpm (contracts of C09 and C19)')
    r.trust('ephem (whether a target is above the horizon): every target is taken as visible in the contracts and tested against ephem in the batteries')
    r.assume('names, titles and comments are one line of text without leading or trailing blanks')
    vis = [mock.patch.object(c, 'target_visibility', 1.0) for c in (RS.DRX, RS.Stepped, RI.Scan, RI.AlternatePhaseCenter)]

    class visible:
        def __enter__(self):
            for p in vis:
                p.start()

        def __exit__(self, *a):
            for p in vis:
                p.stop()
    cnt = [0]

    def path():
        cnt[0] += 1
        return os.path.join(tmp, 'f%d_%d' % (os.getpid(), cnt[0] % 50))

    def start(cx, tag, after=None):
        """a start time (MJD, MPM), optionally not before another one"""
        d, m = cx.int_input('mjd' + tag, 41317, 88069), cx.int_input('mpm' + tag, 0, DAYMS - 1)
        if after is not None:
            cx.assume(d * DAYMS + m >= after)
        return d, m

    def rt(cx, m, sp, label):
        """write, read back, compare"""
        p = proj(m, sp)
        f = path()
        p.writeto(f, overwrite=True)
        q = m.parse_sdf(f)
        os.unlink(f)
        for w, c in cmp_proj(q, p, sp):
            cx.prove('%s: %s read back as written' % (label, w), c)

    def rt_real(sp):
        p = proj(RS, sp)
        f = path()
        with visible():
            p.writeto(f, overwrite=True)
            q = RS.parse_sdf(f)
            for w, c in cmp_proj(q, p, sp):
                if not holds(c):
                    return '%s of %r not read back as written' % (w, sp)
            a = p.render()
            if p.render() != a:
                return 'rendering %r twice gives two different files' % (sp,)
            if not q.validate():
                return 'valid session %r is not valid once read back' % (sp,)
            if not RS.is_valid(f):
                return 'is_valid refuses the file written for %r' % (sp,)

    # -------------------------------------------------------- observations one after the other
    def two(mode1, mode2):
        def f(cx):
            cx.text = True
            sp = dict(obs=[])
            end = None
            for k, mode in enumerate((mode1, mode2)):
                t = str(k)
                d, mm = start(cx, t, end)
                o = blank(mode, mjd=d, mpm=mm)
                if mode == 'TBT':
                    o['name'] = 'TBT %d' % k
                    end = d * DAYMS + mm + 20000
                else:
                    o['dur'] = cx.int_input('dur' + t, 1, 36000000)
                    end = d * DAYMS + mm + o['dur']
                    o['freq1'] = cx.int_input('f1' + t, WMIN + 1, WMAX - 1)
                    if mode != 'TBS':
                        o['freq2'] = cx.int_input('f2' + t, WMIN + 1, WMAX - 1)
                        o['gain'] = cx.int_input('g' + t, 0, 15) if k == 0 else -1
                        o['high_dr'] = k == 0
                        if k == 0:
                            o['bdm'] = [5, 0.04, 1.0, 'Y']
                    if mode == 'TRK_RADEC':
                        o['ra'] = cx.real_input('ra' + t, 0, Fr(239, 10))
                        o['dec'] = cx.real_input('dec' + t, -90, 90)
                if k == 0:
                    o['fee'] = {'3,0': cx.int_input('fee', 0, 1), '255,1': 1}
                    o['asp_filter'] = {'7': cx.int_input('flt', 0, 7)}
                    o['asp_atten_1'] = {'all': cx.int_input('a1', 0, 15)}
                    o['asp_atten_2'] = {'255': cx.int_input('a2', 0, 15)}
                    o['asp_atten_3'] = {'0': cx.int_input('a3', 0, 31)}
                sp['obs'].append(o)
            rt(cx, S, sp, 'observation')
        return f

    def conc_two(mode1, mode2):
        def g(i):
            sp = dict(obs=[])
            for k, mode in enumerate((mode1, mode2)):
                t = str(k)
                o = blank(mode, mjd=int(i['mjd' + t]), mpm=int(i['mpm' + t]))
                o['name'] = '%s %d' % (mode, k)
                for a, b in (('dur', 'dur'), ('f1', 'freq1'), ('f2', 'freq2'), ('g', 'gain')):
                    if a + t in i:
                        o[b] = int(i[a + t])
                for a in ('ra', 'dec'):
                    if a + t in i:
                        o[a] = float(i[a + t])
                if k == 0:
                    if mode not in ('TBT', 'TBS'):
                        o['high_dr'] = True
                        o['bdm'] = [5, 0.04, 1.0, 'Y']
                    o['fee'] = {'3,0': int(i.get('fee', 0)), '255,1': 1}
                    o['asp_filter'] = {'7': int(i.get('flt', 0))}
                    o['asp_atten_1'] = {'all': int(i.get('a1', 0))}
                    o['asp_atten_2'] = {'255': int(i.get('a2', 0))}
                    o['asp_atten_3'] = {'0': int(i.get('a3', 0))}
                sp['obs'].append(o)
            return rt_real(sp)
        return g
    FN = [SD + f for f in ('Project.render', 'Project.writeto', 'parse_sdf', '_parse_create_obs_object', 'Session.validate', 'Observation.start', 'Observation.duration', 'Observation._validate_asp')]
    with r.parallel():
        for a, b in (('TBS', 'TBS'), ('TRK_RADEC', 'TRK_RADEC'), ('TRK_SOL', 'TRK_JOV'), ('TRK_LUN', 'TRK_SOL'), ('TRK_JOV', 'TRK_LUN'), ('TBT', 'TBT')):
            r.contract('%s then %s, written and read back' % (a, b), two(a, b), FN, conc_two(a, b), float_mode='err' if a == 'TBT' else 'real')

    # -------------------------------------------------------- stepped observations
    BEAMS = ('SIMPLE', 'HIGH_DR', 'SPEC_DELAYS_GAINS')

    def stepped(radec, order):
        def f(cx):
            cx.text = True
            d, mm = start(cx, '')
            st = []
            for k, bm in enumerate(order):
                t = str(k)
                s = step(beam=bm, dur=cx.int_input('dur' + t, 5, 36000000), freq1=cx.int_input('f1' + t, WMIN + 1, WMAX - 1), freq2=cx.int_input('f2' + t, WMIN + 1, WMAX - 1),
                         c1=cx.real_input('c1' + t, 0, Fr(239, 10) if radec else 359), c2=cx.real_input('c2' + t, -90 if radec else 0, 90))
                if bm == 'SPEC_DELAYS_GAINS':
                    s['delays'] = {'0': cx.int_input('dl' + t, 0, 65535), '511': 77}
                    s['gains'] = {'0,0,1': cx.int_input('gn' + t, -32768, 32767), '255,1,0': -5}
                st.append(s)
            g = cx.int_input('gain', 0, 15)
            rt(cx, S, dict(obs=[blank('STEPPED', mjd=d, mpm=mm, radec=radec, steps=st, gain=g)]), 'stepped observation')
        return f

    def conc_stepped(radec, order):
        def g(i):
            st = []
            for k, bm in enumerate(order):
                t = str(k)
                s = step(beam=bm, dur=int(i['dur' + t]), freq1=int(i['f1' + t]), freq2=int(i['f2' + t]), c1=float(i['c1' + t]), c2=float(i['c2' + t]))
                if bm == 'SPEC_DELAYS_GAINS':
                    s['delays'] = {'0': int(i['dl' + t]), '511': 77}
                    s['gains'] = {'0,0,1': int(i['gn' + t]), '255,1,0': -5}
                st.append(s)
            return rt_real(dict(obs=[blank('STEPPED', mjd=int(i['mjd']), mpm=int(i['mpm']), radec=radec, steps=st, gain=int(i['gain']))]))
        return g
    with r.parallel():
        for radec in (True, False):
            for order in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
                o = tuple(BEAMS[k] for k in order)
                if radec or order != (0, 1, 2):
                    r.contract('steps %s, %s' % (', '.join(o), 'RA/dec.' if radec else 'az./alt.'), stepped(radec, o),
                               FN + [SD + f for f in ('Stepped.update', 'Stepped.validate', 'BeamStep.validate', 'BeamStep.duration', 'BeamStep.get_beam_type')], conc_stepped(radec, o), float_mode='real')

    # -------------------------------------------------------- session settings
    def session(cx):
        cx.text = True
        sp = dict(obs=[blank('TRK_RADEC')], id=cx.int_input('id', 1, 9999), pi=cx.int_input('pi', 0, 10**6), cra=cx.int_input('cra', 0, 65535), beam=cx.int_input('beam', -1, 4),
                  mrp={k: cx.int_input('mrp' + k, -1, 10**6) for k in COMP}, mup={k: cx.int_input('mup' + k, 0, 10**6) for k in COMP})
        cx.assume(Or(sp['beam'] == -1, sp['beam'] >= 1))
        for k in COMP[2:]:
            cx.assume(sp['mrp'][k] >= 0)
        sp['inc'] = tuple(bool(cx.bool_input('inc%d' % k)) for k in range(4))
        rt(cx, S, sp, 'session')

    def conc_session(i):
        return rt_real(dict(obs=[blank('TRK_RADEC')], id=int(i['id']), pi=int(i['pi']), cra=int(i['cra']), beam=int(i['beam']), mrp={k: int(i['mrp' + k]) for k in COMP},
                            mup={k: int(i['mup' + k]) for k in COMP}, inc=tuple(bool(i.get('inc%d' % k)) for k in range(4))))

    # -------------------------------------------------------- runs
    def scans(mode1, mode2):
        def f(cx):
            cx.text = True
            end = None
            sp = dict(obs=[], id=cx.int_input('id', 1, 9999), nchan=2 * cx.int_input('nchan', 8, 16384), tint=cx.real_input('tint', Fr(11, 100), 10))
            for k, mode in enumerate((mode1, mode2)):
                t = str(k)
                d, mm = start(cx, t, end)
                o = iblank(mode, mjd=d, mpm=mm, dur=cx.int_input('dur' + t, 1, 36000000), freq1=cx.int_input('f1' + t, WMIN + 1, WMAX - 1), freq2=cx.int_input('f2' + t, WMIN + 1, WMAX - 1))
                end = d * DAYMS + mm + o['dur']
                if mode == 'TRK_RADEC':
                    o['ra'] = cx.real_input('ra' + t, 0, Fr(239, 10))
                    o['dec'] = cx.real_input('dec' + t, -90, 90)
                if k == 0:
                    o['gain'] = cx.int_input('g', 0, 15)
                    o['flt'] = cx.int_input('flt', 0, 7)
                    if mode == 'TRK_RADEC':
                        o['pm'] = [cx.real_input('pmr', 1, 5000), cx.real_input('pmd', -5000, 5000)]
                sp['obs'].append(o)
            p = iproj(I, sp)
            fn = path()
            p.writeto(fn, overwrite=True)
            q = I.parse_idf(fn)
            os.unlink(fn)
            for w, c in cmp_run(q, sp):
                cx.prove('run: %s read back as written' % w, c)
        return f

    def rt_irun(sp):
        p = iproj(RI, sp)
        fn = path()
        with visible():
            p.writeto(fn, overwrite=True)
            q = RI.parse_idf(fn)
            for w, c in cmp_run(q, sp):
                if not holds(c):
                    return '%s of %r not read back as written' % (w, sp)
            if p.render() != p.render():
                return 'rendering %r twice gives two different files' % (sp,)
            if not RI.is_valid(fn):
                return 'is_valid refuses the file written for %r' % (sp,)

    def conc_scans(mode1, mode2):
        def g(i):
            sp = dict(obs=[], id=int(i['id']), nchan=2 * int(i['nchan']), tint=float(i['tint']))
            for k, mode in enumerate((mode1, mode2)):
                t = str(k)
                o = iblank(mode, mjd=int(i['mjd' + t]), mpm=int(i['mpm' + t]), dur=int(i['dur' + t]), freq1=int(i['f1' + t]), freq2=int(i['f2' + t]))
                if mode == 'TRK_RADEC':
                    o['ra'], o['dec'] = float(i['ra' + t]), float(i['dec' + t])
                if k == 0:
                    o['gain'], o['flt'] = int(i['g']), int(i['flt'])
                    if mode == 'TRK_RADEC':
                        o['pm'] = [float(i['pmr']), float(i['pmd'])]
                sp['obs'].append(o)
            return rt_irun(sp)
        return g
    with r.parallel():
        r.contract('session settings, written and read back', session, FN, conc_session, float_mode='real')
        for a, b in (('TRK_RADEC', 'TRK_RADEC'), ('TRK_SOL', 'TRK_JOV'), ('TRK_JOV', 'TRK_SOL')):
            r.contract('run of %s and %s, written and read back' % (a, b), scans(a, b), [ID + f for f in ('Project.render', 'Project.writeto', 'parse_idf', '_parse_create_scan_object', 'Run.validate', 'Scan.validate')],
                       conc_scans(a, b), float_mode='real')

    # -------------------------------------------------------- overlaps
    def overlap(n, kind):
        def f(cx):
            cx.text = True
            if kind == 'sdf':
                s = S.Session('s', 7)
                obs = [S.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 8) for k in range(n)]
            else:
                s = I.Run('s', 7)
                obs = [I.Solar('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 74e6, 7) for k in range(n)]
            iv = []
            for k, o in enumerate(obs):
                o.mjd, o.mpm = start(cx, str(k))
                o.dur = cx.int_input('dur%d' % k, 1, 36000000)
                iv.append((X(o.mjd) * DAYMS + X(o.mpm), X(o.dur)))
                s.append(o)
            free = And(*[Or(iv[a][0] + iv[a][1] <= iv[b][0], iv[b][0] + iv[b][1] <= iv[a][0]) for a in range(n) for b in range(a)])
            v = s.validate()
            cx.prove('valid exactly when no two observations overlap', free if v else Not(free))
        return f

    def conc_overlap(n, kind):
        def g(i):
            if kind == 'sdf':
                s = RS.Session('s', 7)
                obs = [RS.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 8) for k in range(n)]
            else:
                s = RI.Run('s', 7)
                obs = [RI.Solar('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 74e6, 7) for k in range(n)]
            iv = []
            for k, o in enumerate(obs):
                o.mjd, o.mpm, o.dur = int(i['mjd%d' % k]), int(i['mpm%d' % k]), int(i['dur%d' % k])
                iv.append((o.mjd * DAYMS + o.mpm, o.dur))
                s.append(o)
            free = all(iv[a][0] + iv[a][1] <= iv[b][0] or iv[b][0] + iv[b][1] <= iv[a][0] for a in range(n) for b in range(a))
            with visible():
                if s.validate() != free:
                    return 'validate() is %r for observations at %r' % (not free, iv)
        return g

    # -------------------------------------------------------- limits
    def limits(kind):
        def f(cx):
            cx.text = True
            w1, w2, d = cx.int_input('f1', 0, TWO32), cx.int_input('f2', 0, TWO32), cx.int_input('dur', 0, 36000000)
            flt = cx.int_input('filter', 0, 10).__index__()
            inr = lambda w, lo, hi: And(X(w) >= lo, X(w) <= hi)
            if kind == 'TBS':
                o = S.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, flt)
                o.freq1, o.dur = w1, d
                want = And(inr(w1, 65739295, 2037918156), X(d) >= 1, flt == 8)
            elif kind == 'STEPPED':
                o = S.Stepped('n', 't', 'UTC 2020 01 01 00:00:00', flt)
                st = S.BeamStep(1.0, 2.0, '00:00:01', 38e6, 74e6)
                st.freq1, st.freq2, st.dur = w1, w2, d
                o.append(st)
                want = And(inr(w1, WMIN, WMAX), Or(inr(w2, WMIN, WMAX), X(w2) == 0), X(d) >= 5, 1 <= flt <= 7)
            else:
                o = (S.DRX('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, flt) if kind == 'DRX' else
                     I.DRX('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, flt))
                o.freq1, o.freq2, o.dur = w1, w2, d
                want = And(inr(w1, WMIN, WMAX), Or(inr(w2, WMIN, WMAX), X(w2) == 0), X(d) >= 1, 1 <= flt <= 7)
            v = o.validate()
            cx.prove('valid exactly when tunings, filter and duration are allowed', want if v else Not(want))
        return f

    def conc_limits(kind):
        def g(i):
            w1, w2, d, flt = int(i['f1']), int(i['f2']), int(i['dur']), int(i['filter'])
            inr = lambda w, lo, hi: lo <= w <= hi
            if kind == 'TBS':
                o = RS.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, flt)
                o.freq1, o.dur = w1, d
                want = inr(w1, 65739295, 2037918156) and d >= 1 and flt == 8
            elif kind == 'STEPPED':
                o = RS.Stepped('n', 't', 'UTC 2020 01 01 00:00:00', flt)
                st = RS.BeamStep(1.0, 2.0, '00:00:01', 38e6, 74e6)
                st.freq1, st.freq2, st.dur = w1, w2, d
                o.append(st)
                want = inr(w1, WMIN, WMAX) and (inr(w2, WMIN, WMAX) or w2 == 0) and d >= 5 and 1 <= flt <= 7
            else:
                o = (RS.DRX('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, flt) if kind == 'DRX' else
                     RI.DRX('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, flt))
                o.freq1, o.freq2, o.dur = w1, w2, d
                want = inr(w1, WMIN, WMAX) and (inr(w2, WMIN, WMAX) or w2 == 0) and d >= 1 and 1 <= flt <= 7
            with visible():
                if o.validate() != want:
                    return '%s with tuning words %d and %d, filter %d, %d ms: validate() is %r' % (kind, w1, w2, flt, d, not want)
        return g

    def asp(cx):
        o = S.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 8)
        k = (0, 100, 255)[cx.int_input('stand', 0, 2).__index__()]
        p = cx.int_input('pol', 0, 1).__index__()
        w = dict(fee=cx.int_input('fee', -3, 3), flt=cx.int_input('flt', -3, 10), a1=cx.int_input('a1', -3, 40), a2=cx.int_input('a2', -3, 40), a3=cx.int_input('a3', -3, 40))
        g = cx.int_input('group', 0, 1).__index__()             # the settings that take any value; the others are allowed ones
        for n, ok in (('fee', 0), ('flt', 0), ('a1', 1), ('a2', 1), ('a3', 1)):
            if ok == g:
                cx.assume(w[n] == -1)
        o.fee_power[k][p], o.asp_filter[k], o.asp_atten_1[k], o.asp_atten_2[k], o.asp_atten_3[k] = w['fee'], w['flt'], w['a1'], w['a2'], w['a3']
        want = And(*[And(X(w[n]) >= -1, X(w[n]) <= hi) for n, hi in (('fee', 1), ('flt', 7), ('a1', 15), ('a2', 15), ('a3', 31))])
        v = o.validate()
        cx.prove('valid exactly when every FEE and ASP setting is allowed', want if v else Not(want))

    def conc_asp(i):
        o = RS.TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 8)
        k, p = (0, 100, 255)[int(i['stand'])], int(i['pol'])
        o.fee_power[k][p], o.asp_filter[k], o.asp_atten_1[k], o.asp_atten_2[k], o.asp_atten_3[k] = (int(i[n]) for n in ('fee', 'flt', 'a1', 'a2', 'a3'))
        want = all(-1 <= int(i[n]) <= hi for n, hi in (('fee', 1), ('flt', 7), ('a1', 15), ('a2', 15), ('a3', 31)))
        if o.validate() != want:
            return 'FEE/ASP settings %r: validate() is %r' % (i, not want)
    with r.parallel():
        for n, kind in ((2, 'sdf'), (3, 'sdf'), (2, 'idf')):
            r.contract('overlap of %d observations (%s)' % (n, kind), overlap(n, kind), [SD + 'Session.validate', ID + 'Run.validate'], conc_overlap(n, kind), float_mode='real')
        for kind in ('TBS', 'DRX', 'STEPPED', 'IDF'):
            r.contract('limits of a %s observation' % kind, limits(kind), [SD + 'TBS.validate', SD + 'DRX.validate', SD + 'BeamStep.validate', SD + 'Stepped.validate', ID + 'Scan.validate'], conc_limits(kind), float_mode='real')
        r.contract('limits of the FEE and ASP settings', asp, [SD + 'Observation._validate_asp'], conc_asp, float_mode='real')

    # -------------------------------------------------------- durations
    def mk_dur(m, kind):
        if kind == 'Observation':
            return m[0].TBS('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 8)
        if kind == 'BeamStep':
            return m[0].BeamStep(1.0, 2.0, '00:00:01', 38e6, 74e6)
        return m[1].Solar('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 38e6, 74e6, 7)

    def durations(kind):
        def f(cx):
            cx.text = True
            o = mk_dur((S, I), kind)
            h, m, s = cx.int_input('h', 0, 99), cx.int_input('m', 0, 59), cx.real_input('s', 0, 60)
            cx.assume(s < 60)
            for n, t, k in (('h:m:s', '%i:%02i:%09.6f' % (h, m, s), (1, 1)), ('m:s', '%i:%.3f' % (m, s), (0, 1)), ('s', '%.9f' % s, (0, 0))):
                o.duration = t
                w = X(h) * 3600000 * k[0] + X(m) * 60000 * k[1]
                cx.prove('text %s: the duration, to the millisecond' % n, And(X(o.dur).near(w + X(s) * 1000, Fr(1002, 1000) if n == 'm:s' else Fr(502, 1000))))
            n = cx.int_input('dur', 0, 10**9)
            o.dur = n
            t = o.duration
            o.dur = 1
            o.duration = t
            cx.prove('the text of a duration gives it back', X(o.dur) == X(n))
            us = cx.int_input('us', 0, 10**15)
            o.duration = dtms.timedelta(microseconds=us)
            cx.prove('timedelta: the duration, to the nearest millisecond', And(X(o.dur) * 1000 - X(us) <= 500, X(us) - X(o.dur) * 1000 <= 500))
            o.duration = s
            cx.prove('number of seconds: the duration, to the nearest millisecond', X(o.dur).near(X(s) * 1000, Fr(1, 2)))
        return f

    def conc_durations(kind):
        def g(i):
            from astropy import units as u
            o = mk_dur((RS, RI), kind)
            h, m, s = int(i.get('h', 0)), int(i.get('m', 0)), float(i.get('s', 0))
            for t, k, e in (('%i:%02i:%09.6f' % (h, m, s), (1, 1), 0.501), ('%i:%.3f' % (m, s), (0, 1), 1.001), ('%.9f' % s, (0, 0), 0.501)):
                o.duration = t
                w = h * 3600000 * k[0] + m * 60000 * k[1] + s * 1000
                if abs(o.dur - w) > e:
                    return '%s duration %r is %d ms' % (kind, t, o.dur)
            n = int(i.get('dur', 0))
            o.dur = n
            t = o.duration
            o.duration = t
            if o.dur != n:
                return '%s duration of %d ms, as text %r, is %d ms' % (kind, n, t, o.dur)
            if n < 10**9:
                p = t.split(':')
                if (int(p[0]) * 3600 + int(p[1]) * 60) * 1000 + round(Fr(p[2]) * 1000) != n or not 0 <= int(p[1]) < 60 or not 0 <= Fr(p[2]) < 60:
                    return '%s duration of %d ms shown as %r' % (kind, n, t)
            us = int(i.get('us', 0))
            for v in (D.timedelta(microseconds=us), (us / 1e6) * u.s, (us / 60e6) * u.min):
                o.duration = v
                if abs(o.dur * 1000 - us) > 501:
                    return '%s duration %r is %d ms' % (kind, v, o.dur)
            if us < 10**12:
                o.duration = us / 1e6
                if abs(o.dur * 1000 - us) > 501:
                    return '%s duration %r s is %d ms' % (kind, us / 1e6, o.dur)
        return g
    with r.parallel():
        for kind in ('Observation', 'BeamStep', 'Scan'):
            r.contract('durations of a %s' % kind, durations(kind), [SD + 'Observation.duration', SD + 'BeamStep.duration', ID + 'Scan.duration'], conc_durations(kind), float_mode='real')

    # -------------------------------------------------------- starts
    def starts(kind):
        def f(cx):
            o = mk_dur((S, I), kind)
            us = cx.int_input('us', 0, 4102444800 * 10**6)
            cx.assume(us % 1000 != 500)
            o.start = dtms.datetime._new(us, dtms.utc)
            ms = (X(o.mjd) - 40587) * DAYMS + X(o.mpm)
            cx.prove('start: the instant, to the nearest millisecond', And(ms * 1000 - X(us) <= 500, X(us) - ms * 1000 <= 500, X(o.mpm) >= 0, X(o.mpm) < DAYMS))
            d, m = start(cx, '')
            o.mjd, o.mpm = d, m
            t = o.start
            o.start = t
            cx.prove('the text of a start time gives it back', And(X(o.mjd) == X(d), X(o.mpm) == X(m)))
            n = cx.int_input('dur', 0, 10**9)
            o.dur = n
            w = (d - 40587) * DAYMS + m
            for h in ((d - 40587) * 86400, w * 1000, (w + n) * 1000, m % 1000, (w + n) % 1000):
                cx.hint(h)
            a, b = (S.get_observation_start_stop if kind == 'Observation' else I.get_scan_start_stop)(o)
            w = (X(d) - 40587) * DAYMS + X(m)
            cx.prove('start and stop times', And(X(a.us) == w * 1000, X(b.us) == (w + X(n)) * 1000))
        return f

    def conc_starts(kind):
        def g(i):
            o = mk_dur((RS, RI), kind)
            us = int(i.get('us', 0))
            t = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc) + D.timedelta(microseconds=us)
            o.start = t
            ms = (o.mjd - 40587) * DAYMS + o.mpm
            if abs(ms * 1000 - us) > 500 or not 0 <= o.mpm < DAYMS:
                return '%s start %s gives MJD %d MPM %d' % (kind, t, o.mjd, o.mpm)
            d, m, n = int(i.get('mjd', 58849)), int(i.get('mpm', 0)), int(i.get('dur', 0))
            o.mjd, o.mpm, o.dur = d, m, n
            s = o.start
            o.start = s
            if (o.mjd, o.mpm) != (d, m):
                return '%s start MJD %d MPM %d shown as %r, which gives MJD %d MPM %d' % (kind, d, m, s, o.mjd, o.mpm)
            a, b = (RS.get_observation_start_stop if kind == 'Observation' else RI.get_scan_start_stop)(o)
            w = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc) + D.timedelta(milliseconds=(d - 40587) * DAYMS + m)
            if a != w or b != w + D.timedelta(milliseconds=n):
                return '%s at MJD %d MPM %d of %d ms: from %s to %s' % (kind, d, m, n, a, b)
        return g

    def ptime(cx):
        us = cx.int_input('us', 0, 4102444800 * 10**6)
        tz = (dtms.utc, dtms.other)[cx.int_input('tz', 0, 1).__index__()]
        t = real_parse(dtms.datetime._new(us, tz))
        e = X(t.us) - X(us)
        cx.prove('parse_time: the instant, to the nearest millisecond', And(t.us % 1000 == 0, e <= 500, e >= -500))
        cx.prove('parse_time: in UTC', t.tzinfo is dtms.utc)
        try:
            real_parse(dtms.datetime._new(us, None))
        except ValueError:
            pass
        else:
            cx.prove('parse_time: a datetime without a time zone is refused', False)

    def conc_ptime(i):
        us = int(i['us'])
        e = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc) + D.timedelta(microseconds=us)
        for z in (D.timezone.utc, D.timezone(D.timedelta(hours=-7)), RU._MST):
            t = RU.parse_time(e.astimezone(z))
            if t.tzinfo is not D.timezone.utc or t.microsecond % 1000 or abs(t - e) > D.timedelta(microseconds=500):
                return 'parse_time(%s) = %s' % (e.astimezone(z), t)
    with r.parallel():
        for kind in ('Observation', 'Scan'):
            r.contract('start times of a %s' % kind, starts(kind), [SD + 'Observation.start', ID + 'Scan.start', SD + 'get_observation_start_stop', ID + 'get_scan_start_stop'], conc_starts(kind), float_mode='err')
        r.contract('times given as datetimes', ptime, [UT + 'parse_time'], conc_ptime, float_mode='err')

    # -------------------------------------------------------- batteries on the real code
    rng = r.rng

    def rword():
        return rng.choice((WMIN + 1, WMAX - 1, rng.randrange(WMIN + 1, WMAX)))

    def rstart(t):
        t += rng.choice((0, 1, rng.randrange(10**8)))
        return dict(mjd=40587 + t // DAYMS, mpm=t % DAYMS), t

    def rasp(o):
        if rng.random() < 0.5:
            o['fee'] = {'%d,%d' % (rng.randrange(256), rng.randrange(2)): rng.randrange(2) for k in range(3)}
        for n, hi in (('asp_filter', 7), ('asp_atten_1', 15), ('asp_atten_2', 15), ('asp_atten_3', 31)):
            w = rng.random()
            if w < 0.3:
                o[n] = {'all': rng.randint(0, hi)}
            elif w < 0.6:
                o[n] = {str(rng.randrange(256)): rng.randint(0, hi) for k in range(4)}

    def rpoint(o, names=('ra', 'dec'), radec=True):
        o[names[0]] = rng.choice((0.0, round(rng.uniform(0, 23.999 if radec else 359.9), rng.choice((0, 3, 9))) % 24))
        o[names[1]] = rng.choice((90.0, -90.0 if radec else 0.0, round(rng.uniform(-90 if radec else 0, 90), rng.choice((0, 3, 9)))))

    def rsession(nstep=None):
        sp = dict(obs=[], id=rng.randint(1, 9999), pi=rng.randint(1, 10**5), ret=rng.choice(('DRSU', 'USB Harddrives')), comments=rng.choice((None, 'a comment; with "marks"', 'x' * 300)),
                  pcomments=rng.choice((None, 'project: comment')), po=rng.random() < 0.7, cra=rng.choice((0, 65535, rng.randrange(65536))), beam=rng.choice((-1, 1, 2, 3, 4)))
        if rng.random() < 0.4:
            sp['ret'], sp['user'] = 'UCF', 'jdoe%d' % rng.randrange(100)
        if rng.random() < 0.5:
            sp['mrp'] = {k: rng.randint(-1, 500) for k in rng.sample(COMP, 3)}
            sp['mup'] = {k: rng.randint(-1, 500) for k in rng.sample(COMP, 3)}
        sp['inc'] = tuple(rng.random() < 0.5 for k in range(4))
        t = rng.choice((rng.randrange(730 * DAYMS, 40000 * DAYMS), rng.choice((15521, 17166, 7304)) * DAYMS + rng.randrange(DAYMS)))     # also days with a leap second
        modes = (rng.choice((['TRK_RADEC', 'TRK_SOL', 'TRK_JOV', 'TRK_LUN', 'STEPPED'], ['TBS'], ['TBT'])))
        if modes[0] == 'TRK_RADEC' and rng.random() < 0.4:
            sp['spc'] = [rng.choice((64, 128, 256, 512, 1024)), rng.choice((384, 768, 1536, 3072)), rng.choice((None, '{Stokes=XXYY}', '{Stokes=IQUV}', '{Stokes=IV}'))]
            sp['spc'][2] = sp['spc'][2] or None
        for k in range(1 if nstep else rng.randint(1, 4)):
            mode = 'STEPPED' if nstep else rng.choice(modes)
            w, t = rstart(t)
            o = blank(mode, **w)
            o['name'], o['target'] = '%s %d' % (mode, k), rng.choice(('Cas A', '3C 123', 'a - b'))
            o['comments'] = rng.choice((None, 'watch out: here', 'c' * 200))
            if mode == 'STEPPED':
                o['radec'] = rng.random() < 0.6
                for j in range(nstep or rng.randint(1, 4)):
                    s = step(dur=rng.choice((5, rng.randrange(5, 10**6))), freq1=rword(), freq2=rng.choice((0, rword())), beam=rng.choice(BEAMS[:2] if nstep else BEAMS))
                    rpoint(s, ('c1', 'c2'), o['radec'])
                    if s['beam'] == 'SPEC_DELAYS_GAINS':
                        s['delays'] = {str(rng.randrange(512)): rng.choice((0, 65535, rng.randrange(65536))) for q in range(4)}
                        s['gains'] = {'%d,%d,%d' % (rng.randrange(256), rng.randrange(2), rng.randrange(2)): rng.choice((-32768, 32767, rng.randrange(-100, 100))) for q in range(4)}
                    o['steps'].append(s)
                t += sum(s['dur'] for s in o['steps'])
                o['gain'] = rng.randint(-1, 15)
            elif mode == 'TBT':
                o['samples'] = rng.choice((1, 196000, 12000000))
                t += 120000
            else:
                o.update(dur=rng.choice((1, rng.randrange(1, 10**7))), freq1=rword(), freq2=rng.choice((0, rword())), gain=rng.randint(-1, 15), high_dr=rng.random() < 0.5, filter=8 if mode == 'TBS' else rng.randint(1, 7))
                t += o['dur']
                if mode == 'TRK_RADEC':
                    rpoint(o)
                if mode != 'TBS' and rng.random() < 0.3:
                    o['bdm'] = [rng.randint(1, 256), round(rng.random(), 4), round(rng.random(), 4), rng.choice('XY')]
            rasp(o)
            sp['obs'].append(o)
        if 'spc' in sp:
            for o in sp['obs']:
                if o['mode'] == 'STEPPED':
                    o['filter'] = 7
        return sp

    def rrun():
        sp = dict(obs=[], id=rng.randint(1, 9999), pi=rng.randint(1, 10**5), ret=rng.choice(('DRSU', 'USB Harddrives')), comments=rng.choice((None, 'a comment')), nchan=rng.choice((16, 128, 512, 2048)),
                  tint=rng.choice((0.125, 1.0, 5.125, 10.0)), basis=rng.choice(('linear', 'circular', 'stokes')))
        if rng.random() < 0.4:
            sp['ret'], sp['user'] = 'UCF', 'jdoe%d' % rng.randrange(100)
        t = rng.choice((rng.randrange(730 * DAYMS, 40000 * DAYMS), rng.choice((15521, 17166, 7304)) * DAYMS + rng.randrange(DAYMS)))     # also days with a leap second
        flt = rng.randint(1, 7)
        for k in range(rng.randint(1, 4)):
            w, t = rstart(t)
            o = iblank(rng.choice(('TRK_RADEC', 'TRK_SOL', 'TRK_JOV')), **w)
            o.update(intent=rng.choice(('fluxcal', 'phasecal', 'target')), comments=rng.choice((None, 'note')), dur=rng.choice((1, rng.randrange(1, 10**7))), freq1=rword(), freq2=rng.choice((0, rword())), gain=rng.randint(-1, 15),
                     filter=flt, flt=rng.randint(-1, 7))
            t += o['dur']
            if o['mode'] == 'TRK_RADEC':
                rpoint(o)
                o['pm'] = rng.choice(([0.0, 0.0], [100.5, -3.2], [0.0, 7.0]))
            for j in range(rng.choice((0, 0, 1, 2, 3)) if o['mode'] == 'TRK_RADEC' else 0):
                c = dict(ra=o['ra'], dec=o['dec'] - math.copysign(0.1 * (j + 1), o['dec']), target='alt %d %d' % (k, j), intent=rng.choice(('fluxcal', 'phasecal', 'target')), pm=rng.choice(([0.0, 0.0], [100.5, -3.2], [5.0, 0.0])))
                o['alt'].append(c)
            sp['obs'].append(o)
        return sp
    T = 4 if r.thorough else 1
    r.concrete('random sessions, written and read back', [rsession() for k in range(150 * T)] + [rsession(n) for n in (255, 256)], rt_real, limit_s=120)
    r.concrete('random runs, written and read back', [rrun() for k in range(150 * T)], rt_irun, limit_s=120)

    def edges():
        b = [0, 1, 499, 500, 501, 999, 1000, 59999, 60000, 3599999, 3600000, DAYMS - 1]
        for k in range(400 * T):
            yield dict(h=rng.randrange(100), m=rng.randrange(60), s=rng.choice((0, 59.9995, 59.999499, 59.9999999, round(rng.uniform(0, 60), 3), rng.uniform(0, 59.99))), dur=rng.choice(b + [rng.randrange(10**9)]),
                       us=rng.choice((0, 999499, 999501, 999999, rng.randrange(10**10), rng.randrange(4102444800 * 10**6))), mjd=rng.choice((41317, 88069, 58849, 57753, 56108, rng.randrange(41317, 88070))), mpm=rng.choice(b + [rng.randrange(DAYMS)]))
    for kind in ('Observation', 'BeamStep', 'Scan'):
        r.concrete('durations of a %s (real code)' % kind, list(edges()), conc_durations(kind))
    for kind in ('Observation', 'Scan'):
        r.concrete('start times of a %s (real code)' % kind, [c for c in edges() if c['us'] % 1000 != 500], conc_starts(kind))
    r.concrete('times given as datetimes (real code)', list(edges()), conc_ptime)

    def days(k):
        from lsl.astro import utcjd_to_unix, MJD_OFFSET
        for d in range(k, min(k + 5000, 88070)):
            if utcjd_to_unix(d + MJD_OFFSET) != 86400 * (d - 40587):
                return 'utcjd_to_unix at MJD %d' % d
    r.concrete('the contract used for utcjd_to_unix, every day', range(41317, 88070, 5000), days)

    def text(c):
        s, e, tol = c
        try:
            t = RU.parse_time(s)
        except Exception as x:
            return 'parse_time(%r): %s: %s' % (s, type(x).__name__, x)
        if t.tzinfo is not D.timezone.utc or abs((t - e) / D.timedelta(microseconds=1)) > tol or t.microsecond % 1000:
            return 'parse_time(%r) is %s' % (s, t)

    def texts():
        import zoneinfo
        U0 = D.timezone.utc
        for ms in range(0, 60000, 1 if r.thorough else 7):
            yield 'UTC 2024/02/29 23:59:%02d.%03d' % (ms // 1000, ms % 1000), D.datetime(2024, 2, 29, 23, 59, tzinfo=U0) + D.timedelta(milliseconds=ms), 0
        names = ('Jan', 'feb', 'MAR', 'Apr', 'May', 'jun', 'Jul', 'AUG', 'Sep', 'Oct', 'Nov', 'Dec')
        zones = dict(EST='US/Eastern', EDT='US/Eastern', CST='US/Central', CDT='US/Central', MST='US/Mountain', MDT='US/Mountain', PST='US/Pacific', PDT='US/Pacific')
        for k in range(600 * T):
            d = D.datetime(rng.randrange(1971, 2099), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60))
            s = rng.choice(('59.9996', '59.999', '0', '07', '30.5', '59.9994', '%.6f' % rng.uniform(0, 59.99), '0.0004'))
            e = D.timedelta(microseconds=round(Fr(s) * 10**6))
            hm = '%02d:%02d:%s' % (d.hour, d.minute, s if float(s) >= 10 or s.startswith('0') and len(s) == 2 else '0' + s)
            sep = rng.choice(' /-')
            m = rng.choice(('%02d' % d.month, names[d.month - 1]))
            if m.isalpha():
                sep = ' '
            t = '%d%s%s%s%02d %s' % (d.year, sep, m, sep, d.day, hm)
            z = rng.choice((None, 'UTC', 'UT', 'off', 'name'))
            if z == 'name':
                z = rng.choice(sorted(zones))
                # away from the changes of the clocks
                if d.month in (3, 4, 10, 11):
                    d = d.replace(month=1)
                    t = '%d/01/%02d %s' % (d.year, d.day, hm)
                yield z + ' ' + t, d.replace(tzinfo=zoneinfo.ZoneInfo(zones[z])).astimezone(U0) + e, 500
            elif z == 'off':
                o = rng.choice((-720, -330, -60, 0, 30, 60, 345, 840))
                sg = '-' if o < 0 else '+'
                yield t + rng.choice((' %s%02d:%02d', '%s%02d%02d')) % (sg, abs(o) // 60, abs(o) % 60), d.replace(tzinfo=D.timezone(D.timedelta(minutes=o))).astimezone(U0) + e, 500
            else:
                yield (z + ' ' if z else '') + t, d.replace(tzinfo=U0) + e, 500
    r.concrete('times given as text', list(texts()), text, limit_s=120)

    def lst(c):
        import ephem
        from lsl.common.stations import lwa1
        d, h = c
        t = RU.parse_time('LST %s %02d:%02d:%06.3f' % (d.strftime('%Y/%m/%d'), h // 3600, h // 60 % 60, h % 60))
        lwa1.date = t.replace(tzinfo=None).strftime('%Y/%m/%d %H:%M:%S.%f')
        e = (float(lwa1.sidereal_time()) * 43200 / math.pi - h + 43200) % 86400 - 43200
        if abs(e) > 4 or not 0 <= (t.replace(tzinfo=None) - d).total_seconds() <= 86400:
            return 'LST %s on %s taken as %s, off by %.1f s' % (h, d.date(), t, e)
    r.concrete('sidereal times', [(D.datetime(2000 + k % 60, rng.randint(1, 12), rng.randint(1, 28)), rng.uniform(0, 86399)) for k in range(150 * T)], lst)

    def astropy_time(c):
        from astropy.time import Time as AT
        us = c['us']
        e = D.datetime(1970, 1, 1) + D.timedelta(microseconds=us)
        t = RU.parse_time(AT(e, scale='utc'))
        if t.tzinfo is not D.timezone.utc or abs(t.replace(tzinfo=None) - e) > D.timedelta(microseconds=502):
            return 'parse_time of the astropy time %s is %s' % (e, t)
    r.concrete('times given as astropy times', list(edges())[:60], astropy_time)

    def generated(sp):
        from astropy.coordinates import SkyCoord
        from astropy import units as u
        from lsl.common.stations import get_all_stations
        p = iproj(RI, sp)
        with visible():
            out = p.generate_sdfs(starting_session_id=11)
            if len(out) != len(get_all_stations()):
                return '%d session files for %d stations' % (len(out), len(get_all_stations()))
            for k, q in enumerate(out):
                s = q.sessions[0]
                if not q.validate():
                    return 'session %d generated from %r is not valid' % (k, sp)
                if s.id != 11 + k or s.station.id != get_all_stations()[k].id or len(s.observations) != len(sp['obs']):
                    return 'session %d generated from %r' % (k, sp)
                for o, b in zip(sp['obs'], s.observations):
                    if (b.mode, b.mjd, b.mpm, b.dur, b.freq1, b.freq2, b.filter, b.gain, b.name, b.target) != tuple(o[z] for z in ('mode', 'mjd', 'mpm', 'dur', 'freq1', 'freq2', 'filter', 'gain', 'intent', 'target')):
                        return 'observation %r generated from the scan %r' % (vars(b), o)
                    if o['mode'] == 'TRK_RADEC' and abs(o['dec']) < 80:
                        y = (o['mjd'] + o['mpm'] / DAYMS - 51544.5) / 365.25
                        a = SkyCoord(b.ra * u.hourangle, b.dec * u.deg)
                        w = SkyCoord((o['ra'] * 15 + y * o['pm'][0] / 3.6e6 / math.cos(math.radians(o['dec']))) * u.deg, (o['dec'] + y * o['pm'][1] / 3.6e6) * u.deg)
                        if a.separation(w).deg > 1e-7:
                            return 'scan %r observed at %s' % (o, a)
                f = path()
                q.writeto(f, overwrite=True)
                g = RS.parse_sdf(f)
                if [(b.mjd, b.mpm, b.dur, b.freq1, b.freq2) for b in g.sessions[0].observations] != [tuple(o[z] for z in ('mjd', 'mpm', 'dur', 'freq1', 'freq2')) for o in sp['obs']]:
                    return 'session file generated from %r reads back differently' % (sp,)

    def rgen():
        sp = rrun()
        for o in sp['obs']:
            o['ra'] = min(max(o['ra'], 0.1), 23.9)
            o['dec'] = min(max(o['dec'], -80.), 80.)
            for j, c in enumerate(o['alt']):
                c['ra'], c['dec'] = o['ra'], o['dec'] - math.copysign(0.1 * (j + 1), o['dec'])
        return sp
    r.concrete('sessions generated from a run', [rgen() for k in range(25 * T)], generated, limit_s=60)

    def pointing(c):
        import ephem
        from astropy import units as u
        from astropy.coordinates import Angle
        n, a, d = c
        m = {'sdf': lambda: RS.DRX('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, 7), 'idf': lambda: RI.DRX('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', 1.0, 2.0, 38e6, 74e6, 7),
             'alt': lambda: RI.AlternatePhaseCenter('t', 'target', 1.0, 2.0)}[n]
        for q in ('ra', 'dec'):
            v = a if q == 'ra' else d
            ok = 0 <= v < 24 if q == 'ra' else -90 <= v <= 90
            forms = [v, Angle(v, 'hourangle' if q == 'ra' else 'deg')]
            if ok:
                forms.append(Angle(v, 'hourangle' if q == 'ra' else 'deg').to_string(precision=9))
                if v > 1e-3:
                    forms.append(ephem.hours(v * math.pi / 12) if q == 'ra' else ephem.degrees(v * math.pi / 180))
            for f in forms:
                o = m()
                try:
                    setattr(o, q, f)
                except ValueError:
                    if ok:
                        return '%s: %s %r is refused' % (n, q, f)
                else:
                    if not ok or abs(getattr(o, q) - v) > 1e-9:
                        return '%s: %s %r taken as %r' % (n, q, f, getattr(o, q))
        if n != 'alt':
            o = m()
            for w in ('frequency1', 'frequency2'):
                hz = 1e7 + abs(d) * 8e5
                for f in (hz, hz / 1e6 * u.MHz):
                    setattr(o, w, f)
                    if abs(getattr(o, w) - hz) > 0.0229:
                        return '%s: %s %r taken as %r' % (n, w, f, getattr(o, w))
    r.concrete('pointings and frequencies in the units that are accepted', [(n, rng.choice((0.0, 24.0, 23.9999, -1e-6, 12.5, rng.uniform(0, 24))), rng.choice((90.0, -90.0, 90.00001, -90.00001, 0.0, rng.uniform(-90, 90)))) for n in ('sdf', 'idf', 'alt') for k in range(40 * T)], pointing)

    def visible_real(c):
        import ephem
        from lsl.common.stations import lwa1
        from lsl.common.sdf import MJD_OFFSET, DJD_OFFSET
        n, ra, dec, mjd, mpm, dur, lead = c
        t0 = mjd * DAYMS + mpm
        if n == 'step':
            o = RS.Stepped('n', 't', 'UTC 2020 01 01 00:00:00', 7)
            for d, cc in ((lead, None), (dur, (ra, dec))):
                st = RS.BeamStep(1.0, 89.5, '00:00:01', 38e6, 74e6)          # a step towards the pole first
                st.dur = d
                if cc:
                    st.c1, st.c2 = cc
                o.append(st)
            t0 += lead
        elif n == 'idf':
            o = RI.DRX('t', 'target', 'UTC 2020 01 01 00:00:00', '00:00:01', ra, dec, 38e6, 74e6, 7)
        else:
            o = RS.DRX('n', 't', 'UTC 2020 01 01 00:00:00', '00:00:01', ra, dec, 38e6, 74e6, 7)
        o.mjd, o.mpm = mjd, mpm
        if n != 'step':
            o.dur = dur
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = ra * math.pi / 12, dec * math.pi / 180, ephem.J2000
        e = ephem.Observer()
        e.lat, e.lon, e.elevation, e.pressure = lwa1.lat, lwa1.lon, lwa1.elev, 0
        alt = []
        for k in range(0, 60):
            e.date = (t0 + dur * k / 59) / DAYMS + MJD_OFFSET - DJD_OFFSET
            b.compute(e)
            alt.append(math.degrees(b.alt))
        v = o.target_visibility
        if min(alt) > 2 and v != 1 or max(alt) < -2 and (v != 0 if n != 'step' else v == 1):
            return '%s %r: visibility is %r for altitudes from %.1f to %.1f degrees' % (n, c, v, min(alt), max(alt))
        if not 0 <= v <= 1:
            return 'visibility %r' % v
        if (v == 1) != o.validate():
            return '%s %r: visibility is %r and validate() %r' % (n, c, v, o.validate())
    r.concrete('visibility of targets', [(n, rng.uniform(0, 24), rng.uniform(-60, 60), rng.randrange(55000, 60000), rng.randrange(DAYMS), rng.choice((5, 60000, 3600000, 4 * 3600000)), rng.choice((5, 3600000, 5 * 3600000)))
                                         for n in ('sdf', 'idf', 'step') for k in range(60 * T)], visible_real, limit_s=120)

    def misc(c):
        if c == 'overwrite':
            p = proj(RS, dict(obs=[blank('TRK_SOL')]))
            q = iproj(RI, dict(obs=[iblank('TRK_SOL')]))
            for z in (p, q):
                f = path()
                with open(f, 'w') as fh:
                    fh.write('keep')
                with visible():
                    try:
                        z.writeto(f)
                    except RuntimeError:
                        pass
                    if open(f).read() != 'keep':
                        return 'writeto() replaced a file it was not told to overwrite'
                    os.unlink(f)
                    z.writeto(f)
        elif c == 'invalid':
            for b in (dict(filter=9), dict(dur=0), dict(freq1=0)):
                f = path() + 'x'
                p, q = proj(RS, dict(obs=[blank('TRK_SOL', **b)])), iproj(RI, dict(obs=[iblank('TRK_SOL', **b)]))
                for z in (p, q):
                    with visible():
                        try:
                            z.writeto(f)
                        except RuntimeError:
                            if os.path.exists(f):
                                return 'a file is left behind for %r' % (b,)
                        else:
                            return 'a file is written for the invalid %r' % (b,)
        elif c == 'phase centers':
            for n in range(40):
                o = iblank('TRK_RADEC', dec=30.0, freq1=rword(), freq2=rword())
                lim = 74e6 / (max(o['freq1'], o['freq2']) * 196e6 / TWO32)
                for d in (0.5, 0.99, 1.01, 1.5):
                    o['alt'] = [dict(target='a', intent='target', ra=o['ra'], dec=30 + rng.choice((-1, 1)) * d * lim, pm=[0.0, 0.0])]
                    with visible():
                        if iproj(RI, dict(obs=[o])).validate() != (d < 1):
                            return 'phase center at %.2f of the allowed distance: validate() is %r' % (d, d >= 1)
        elif c == 'lists':
            s, w = RS.Session('s', 1), RI.Run('s', 1)
            for z, items, bad in ((s, [mk_obs(RS, blank('TRK_SOL', mpm=k * 20000)) for k in range(3)], mk_run(RI, dict(obs=[iblank('TRK_SOL')])).scans[0]), (w, list(mk_run(RI, dict(obs=[iblank('TRK_SOL', mpm=k * 20000) for k in range(3)])).scans), mk_obs(RS, blank('TRK_SOL')))):
                lst_ = z.observations if z is s else z.scans
                lst_.extend(x for x in items)
                if list(lst_) != items:
                    return 'extend() with a generator leaves %d of 3' % len(lst_)
                for op in (lambda: lst_.append(bad), lambda: lst_.insert(0, bad), lambda: lst_.extend([bad]), lambda: lst_.__setitem__(0, bad)):
                    try:
                        op()
                    except TypeError:
                        pass
                    else:
                        return 'an object of the wrong kind is accepted'
                    if list(lst_) != items:
                        return 'refusing an object changed the list'
                if any(x._parent is None or x._parent.name != z.name for x in lst_):
                    return 'parent not set'
        elif c == 'order':
            obs = [blank('TRK_SOL', mjd=58849 + k // 3, mpm=(k * 7 % 3) * 20000000) for k in range(6)]
            for k, o in enumerate(obs):
                o['name'] = 'o%d' % k
            for k in range(20):
                rng.shuffle(obs)
                p = proj(RS, dict(obs=obs))
                f = path()
                with visible():
                    p.writeto(f, overwrite=True)
                    q = RS.parse_sdf(f)
                if [o.name for o in q.sessions[0].observations] != [o['name'] for o in sorted(obs, key=lambda o: (o['mjd'], o['mpm']))]:
                    return 'observations not written in order of time'
    r.concrete('overwriting, invalid sessions, lists, order', ('overwrite', 'invalid', 'phase centers', 'lists', 'order'), misc)
