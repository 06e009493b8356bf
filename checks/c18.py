"""C18: angles and positions (lsl.astro)."""
import copy
import math
import pickle
from fractions import Fraction as Fr
from pv.loader import SymLoader, math_shim
from pv.sym import And, Or, Not, X, SBool, is_sym

T = Fr(1, 10**9)       # degrees


def run(r):
    ld = SymLoader(symbolic={'lsl.astro'})
    A = ld.load('lsl.astro')
    from lsl import astro as R
    M = 'lsl.astro.'

    def exact_dms(d):
        v = Fr(d.degrees) + Fr(d.minutes) / 60 + Fr(d.seconds) / 3600
        return -v if d.neg else v

    def exact_hms(h):
        return 15 * (Fr(h.hours) + Fr(h.minutes) / 60 + Fr(h.seconds) / 3600)

    def ok_dms(d):
        return (isinstance(d.degrees, int) and isinstance(d.minutes, int) and 0 <= d.minutes <= 59 and 0.0 <= d.seconds < 60.0
                and d.degrees >= 0 and isinstance(d.neg, bool))

    def ok_hms(h):
        return isinstance(h.hours, int) and isinstance(h.minutes, int) and 0 <= h.hours <= 23 and 0 <= h.minutes <= 59 and 0.0 <= h.seconds < 60.0

    def wrapped(a, b, tol=1e-8):
        """a == b modulo a full turn"""
        d = float(a - b) % 360.0
        return min(d, 360.0 - d) <= tol

    # ------------------------------------------------------------------ to degrees
    def to_deg(cx):
        d = cx.int_input('d', 0, 359)
        m = cx.int_input('m', 0, 59)
        s = cx.real_input('s', 0, 60)
        cx.assume(s < 60)
        neg = bool(cx.bool_input('neg'))
        o = A.dms(neg, d, m, s)
        v = X(d) + X(m) / 60 + X(s) / 3600
        cx.prove('dms_to_deg: sign times degrees + minutes/60 + seconds/3600', X(A.dms_to_deg(o)).near(-v if neg else v, T))
        cx.prove('dms.to_deg is dms_to_deg', X(o.to_deg()).near(-v if neg else v, T))
        K = Fr(math.pi) / 180
        cx.prove('dms_to_rad: degrees times pi/180', And(X(A.dms_to_rad(o)).near((-v if neg else v) * K, T), X(o.to_rad()).near((-v if neg else v) * K, T)))
        n = -o
        cx.prove('-dms: same angle, other sign', And(n.neg == (not neg), X(n.degrees) == d, X(n.minutes) == m, X(n.seconds) == X(s), o.neg == neg))
        h = cx.int_input('h', 0, 23)
        q = A.hms(h, m, s)
        w = (X(h) + X(m) / 60 + X(s) / 3600) * 15
        cx.prove('hms_to_deg: 15 degrees per hour', And(X(A.hms_to_deg(q)).near(w, T), X(q.to_deg()).near(w, T)))
        cx.prove('hms_to_rad', And(X(A.hms_to_rad(q)).near(w * K, T), X(q.to_rad()).near(w * K, T)))
        cx.prove('hms_to_sec: 3600 h + 60 m + s', And(X(A.hms_to_sec(q)).near(w * 240, T), X(q.to_sec()).near(w * 240, T)))
        x = cx.real_input('x', -1000, 1000)
        cx.prove('deg_to_sec: 240 seconds of time per degree', X(A.deg_to_sec(x)).near(X(x) * 240, T))
        cx.prove('deg_to_rad / rad_to_deg', And(X(A.deg_to_rad(x)).near(X(x) * K, T), X(A.rad_to_deg(x)).near(X(x) / K, Fr(1, 10**8))))

    def chk_to(i):
        neg, d, m, s, h, x = bool(i.get('neg')), int(i['d']), int(i['m']), float(i['s']), int(i['h']), float(i.get('x', 0))
        if not s < 60:
            return None
        o = R.dms(neg, d, m, s)
        e = exact_dms(o)
        for n, v, w in (('dms_to_deg', R.dms_to_deg(o), e), ('dms.to_deg', o.to_deg(), e), ('dms_to_rad', R.dms_to_rad(o), float(e) * math.pi / 180),
                        ('dms.to_rad', o.to_rad(), float(e) * math.pi / 180), ('-dms', (-o).to_deg(), -e), ('dms after -dms', o.to_deg(), e)):
            if not abs(v - w) <= 1.1e-9:
                return '%s of %r = %r, expected %r' % (n, o, v, float(w))
        q = R.hms(h, m, s)
        e = exact_hms(q)
        for n, v, w in (('hms_to_deg', R.hms_to_deg(q), e), ('hms.to_deg', q.to_deg(), e), ('hms_to_rad', R.hms_to_rad(q), float(e) * math.pi / 180),
                        ('hms.to_rad', q.to_rad(), float(e) * math.pi / 180), ('hms_to_sec', R.hms_to_sec(q), e * 240), ('hms.to_sec', q.to_sec(), e * 240)):
            if not abs(v - w) <= 1.1e-9:
                return '%s of %r = %r, expected %r' % (n, q, v, float(w))
        if not abs(R.deg_to_sec(x) - x * 240) <= 1.1e-9 * max(1, abs(x)):
            return 'deg_to_sec(%r) = %r' % (x, R.deg_to_sec(x))
        if not abs(R.deg_to_rad(x) - x * math.pi / 180) <= 1.1e-9 or not abs(R.rad_to_deg(x) - x * 180 / math.pi) <= 1.1e-8:
            return 'deg_to_rad/rad_to_deg of %r: %r, %r' % (x, R.deg_to_rad(x), R.rad_to_deg(x))
    r.contract('sexagesimal to degrees', to_deg, [M + f for f in ('dms', 'hms', 'dms_to_deg', 'dms_to_rad', 'hms_to_deg', 'hms_to_rad', 'hms_to_sec', 'deg_to_sec',
               'deg_to_rad', 'rad_to_deg', 'dms.__neg__')], chk_to, float_mode='err')

    # ------------------------------------------------------------------ from degrees
    def from_deg(cx):
        x = cx.real_input('x', -359, 359)
        o = A.deg_to_dms(x)
        cx.prove('deg_to_dms: minutes and seconds in range', And(X(o.degrees) >= 0, X(o.minutes) >= 0, X(o.minutes) <= 59, X(o.seconds) >= 0, X(o.seconds) < 60))
        v = X(o.degrees) + X(o.minutes) / 60 + X(o.seconds) / 3600
        cx.prove('deg_to_dms: the angle given', X(-v if o.neg else v).near(X(x), T))
        cx.prove('deg_to_dms: sign', Or(X(x) == 0, (X(x) < 0) if o.neg else (X(x) > 0)))

    def from_deg_h(cx):
        # one turn at a time: the number of whole turns is an input
        k = cx.int_input('turn', -2, 2).__index__()
        x = cx.real_input('x', k * 360, k * 360 + 360)
        o = A.deg_to_hms(x)
        cx.prove('deg_to_hms: hours, minutes and seconds in range', And(X(o.hours) >= 0, X(o.hours) <= 23, X(o.minutes) >= 0, X(o.minutes) <= 59, X(o.seconds) >= 0, X(o.seconds) < 60))
        v = (X(o.hours) + X(o.minutes) / 60 + X(o.seconds) / 3600) * 15
        d = v - X(x)
        t = 2 * T
        cx.prove('deg_to_hms: the angle given, up to whole turns', Or(*[X(d).near(j * 360, t) for j in range(-3, 4)]))

    def chk_from(i):
        x = float(i['x'])
        o = R.deg_to_dms(x)
        if not ok_dms(o) or abs(exact_dms(o) - Fr(x)) > 1.1e-9 or (x != 0 and o.neg != (x < 0)):
            return 'deg_to_dms(%r) = %r' % (x, o)
        if abs(x) < 359 and abs(o.to_deg() - x) > 1.1e-9:
            return 'deg_to_dms(%r).to_deg() = %r' % (x, o.to_deg())
        h = R.deg_to_hms(x)
        if not ok_hms(h) or not wrapped(exact_hms(h), Fr(x)):
            return 'deg_to_hms(%r) = %r' % (x, h)
        for n, f, g, e in (('dms', R.rad_to_dms, ok_dms, exact_dms), ('hms', R.rad_to_hms, ok_hms, exact_hms)):
            q = f(x * math.pi / 180)
            if not g(q) or not wrapped(e(q), Fr(x)):
                return 'rad_to_%s(%r) = %r' % (n, x * math.pi / 180, q)
        hh = o.to_hms()
        if not ok_hms(hh) or not wrapped(exact_hms(hh), Fr(x)):
            return '%r.to_hms() = %r' % (o, hh)
        dd = h.to_dms()
        if not ok_dms(dd) or not wrapped(exact_dms(dd), Fr(x)):
            return '%r.to_dms() = %r' % (h, dd)
    r.contract('degrees to dms', from_deg, [M + 'deg_to_dms', M + '_float_to_sexa'], chk_from, float_mode='err')
    r.contract('degrees to hms', from_deg_h, [M + 'deg_to_hms', M + '_float_to_sexa', M + 'range_degrees'], chk_from, float_mode='err')

    def cases():
        rng = r.rng
        for k in range(-359 * 60, 359 * 60 + 1):
            yield {'x': k / 60.0}
        for k in range(-2000, 2000):
            yield {'x': k / 3600.0}
            yield {'x': k * 0.25}
        for k in range(20000):
            yield {'x': rng.uniform(-360, 360)}
        for k in range(0, 24 * 3600, 7):
            yield {'x': k / 240.0}
        for x in (0.0, -0.0, 1e-300, -1e-300, 360.0, -360.0, 359.99999999999994, -1e-18, 720.0, -720.0, 1e-13, -1e-13):
            yield {'x': x}
    r.concrete('every arc minute, on the real code', cases(), chk_from, limit_s=60)

    # ------------------------------------------------------------------ sums
    def sums(cx):
        a = [cx.int_input('h1', 0, 23), cx.int_input('m1', 0, 59), cx.int_input('s1', 0, 59)]
        b = [cx.int_input('h2', 0, 23), cx.int_input('m2', 0, 59), cx.int_input('s2', 0, 59)]
        va, vb = [15 * (X(p[0]) + X(p[1]) / 60 + X(p[2]) / 3600) for p in (a, b)]
        k = cx.int_input('kind', 0, 2).__index__()
        ha, hb = A.hms(*a), A.hms(*b)
        if k == 0:
            o, v = A.add_hms(ha, hb), va + vb
            cx.prove('add_hms returns its second argument and leaves the first alone', And(o is hb, X(ha.hours) == a[0], X(ha.minutes) == a[1], X(ha.seconds) == a[2]))
        elif k == 1:
            o, v = hb.__iadd__(ha), va + vb
        else:
            sec = cx.real_input('sec', -90000, 90000)
            o, v = A.add_secs_hms(ha, sec), va + X(sec) / 240
            cx.prove('add_secs_hms leaves its argument alone', And(X(ha.hours) == a[0], X(ha.minutes) == a[1], X(ha.seconds) == a[2]))
        cx.prove('sum: hours, minutes and seconds in range', And(X(o.hours) >= 0, X(o.hours) <= 23, X(o.minutes) >= 0, X(o.minutes) <= 59, X(o.seconds) >= 0, X(o.seconds) < 60))
        w = (X(o.hours) + X(o.minutes) / 60 + X(o.seconds) / 3600) * 15
        cx.prove('sum of the angles, up to whole turns', Or(*[X(w - v).near(j * 360, 4 * T) for j in range(-3, 4)]))

    def chk_sum(i):
        a, b = (int(i['h1']), int(i['m1']), float(i['s1'])), (int(i['h2']), int(i['m2']), float(i['s2']))
        sec = float(i.get('sec', 0))
        for n in ('add_hms', '+=', 'add_secs_hms'):
            x, y = R.hms(*a), R.hms(*b)
            ex, ey = exact_hms(x), exact_hms(y)
            if n == 'add_hms':
                o, w = R.add_hms(x, y), ex + ey
            elif n == '+=':
                o = y
                o += x
                w = ex + ey
            else:
                o, w = R.add_secs_hms(x, sec), ex + Fr(sec) / 240
            if not ok_hms(o) or not wrapped(exact_hms(o), w):
                return '%s of %r, %r (%r s): %r' % (n, R.hms(*a), R.hms(*b), sec, o)
            if exact_hms(x) != ex:
                return '%s changed its argument' % n
    r.contract('sums of hour angles', sums, [M + 'add_hms', M + 'add_secs_hms', M + 'hms.__iadd__'], chk_sum, float_mode='err', timeout_ms=60000)
    rng = r.rng
    r.concrete('sums on the real code', [dict(h1=rng.randrange(24), m1=rng.randrange(60), s1=rng.choice([0, 59.999, rng.random() * 60]), h2=rng.randrange(24),
                                              m2=rng.randrange(60), s2=rng.choice([0, rng.random() * 60]), sec=rng.uniform(-90000, 90000)) for k in range(4000)], chk_sum)

    # ------------------------------------------------------------------ order
    def order(cx):
        k = cx.int_input('kinds', 0, 5).__index__()
        def mk(n, kind):
            if kind == 2:
                return cx.real_input('f' + n, -360, 360), None
            d, m, s = cx.int_input('d' + n, 0, 359 if kind == 0 else 23), cx.int_input('m' + n, 0, 59), cx.int_input('s' + n, 0, 59)
            if kind == 0:
                neg = bool(cx.bool_input('neg' + n))
                return A.dms(neg, d, m, s), (neg, d, m, s)
            return A.hms(d, m, s), (d, m, s)
        ka, kb = ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (1, 2))[k]
        a, _ = mk('1', ka)
        b, _ = mk('2', kb)
        da = a.to_deg()
        db = b if kb == 2 else b.to_deg()
        for n, f, g in (('==', lambda p, q: p == q, lambda p, q: X(p) == X(q)), ('<', lambda p, q: p < q, lambda p, q: X(p) < X(q)), ('<=', lambda p, q: p <= q, lambda p, q: X(p) <= X(q)),
                        ('>', lambda p, q: p > q, lambda p, q: X(p) > X(q)), ('>=', lambda p, q: p >= q, lambda p, q: X(p) >= X(q)), ('!=', lambda p, q: p != q, lambda p, q: X(p) != X(q))):
            v = f(a, b)
            cx.prove('angles compare by degrees: %s' % n, g(da, db) if v else Not(g(da, db)))

    def chk_order(i):
        obs = []
        for n in '12':
            if 'd' + n in i:
                d, m, s = int(i['d' + n]), int(i['m' + n]), float(i['s' + n])
                obs.append((R.dms(bool(i.get('neg' + n)), d, m, s)))
                if d < 24:
                    obs.append(R.hms(d, m, s))
            if 'f' + n in i:
                obs.append(float(i['f' + n]))
        for a in obs:
            if isinstance(a, float):
                continue
            for b in obs:
                p, q = a.to_deg(), b if isinstance(b, float) else b.to_deg()
                if ((a == b), (a != b), (a < b), (a <= b), (a > b), (a >= b)) != ((p == q), (p != q), (p < q), (p <= q), (p > q), (p >= q)):
                    return 'comparing %r and %r (%r, %r degrees)' % (a, b, p, q)
    r.contract('angles compare by size', order, [M + 'dms.__cmp__', M + 'hms.__cmp__', M + 'dms.__lt__', M + 'hms.__lt__', M + 'dms.__eq__', M + 'hms.__eq__'], chk_order)

    # ------------------------------------------------------------------ ranges of the constructors
    def ranges(cx):
        k = cx.int_input('kind', 0, 1).__index__()
        d, m, s = cx.int_input('d', -400, 800), cx.int_input('m', -100, 100), cx.int_input('s', -100, 100)
        ok = And(d >= 0, d <= (359, 23)[k], m >= 0, m <= 59, s >= 0, s < 60)
        try:
            o = A.dms(False, d, m, s) if k == 0 else A.hms(d, m, s)
        except ValueError:
            cx.prove('dms/hms: only out of range parts are rejected', Not(ok))
            return
        cx.prove('dms/hms: out of range parts are rejected', ok)
        cx.prove('dms/hms: keeps its parts', And(X(o.degrees if k == 0 else o.hours) == d, X(o.minutes) == m, X(o.seconds) == s))

    def chk_ranges(i):
        for n, f, hi in (('dms', lambda d, m, s: R.dms(False, d, m, s), 359), ('hms', R.hms, 23)):
            d, m, s = int(i['d']), int(i['m']), float(i['s'])
            ok = 0 <= d <= hi and 0 <= m <= 59 and 0 <= s < 60
            try:
                o = f(d, m, s)
            except ValueError:
                if ok:
                    return '%s(%r, %r, %r) rejected' % (n, d, m, s)
                continue
            if not ok:
                return '%s(%r, %r, %r) accepted' % (n, d, m, s)
            if (getattr(o, 'degrees' if hi == 359 else 'hours'), o.minutes, o.seconds) != (d, m, s):
                return '%s(%r, %r, %r) is %r' % (n, d, m, s, o)
    r.contract('angle parts in range', ranges, [M + 'dms.__init__', M + 'hms.__init__'], chk_ranges)

    # ------------------------------------------------------------------ wraps
    def wraps(cx):
        x = cx.real_input('x', -2000, 2000)
        w = A.range_degrees(x)
        cx.prove('range_degrees: in [0, 360]', And(X(w) >= 0, X(w) <= 360))
        k = (X(x) / 360).floor()
        cx.prove('range_degrees: whole turns off', Or(X(w).near(X(x) - X(k) * 360, T), X(w).near(X(x) - X(k) * 360 + 360, T), X(w).near(X(x) - X(k) * 360 - 360, T)))
        h = cx.real_input('h', -200, 200)
        w = A.range_hours(h)
        cx.prove('range_hours: in [0, 24]', And(X(w) >= 0, X(w) <= 24))
        k = (X(h) / 24).floor()
        cx.prove('range_hours: whole days off', Or(*[X(w).near(X(h) - X(k) * 24 + j, T) for j in (0, 24, -24)]))

    def chk_wraps(i):
        x, h = float(i['x']), float(i['h'])
        w = R.range_degrees(x)
        if not 0 <= w <= 360 or not wrapped(w, x):
            return 'range_degrees(%r) = %r' % (x, w)
        w = R.range_hours(h)
        if not 0 <= w <= 24 or not wrapped(w * 15, h * 15):
            return 'range_hours(%r) = %r' % (h, w)
    r.contract('wrapping into one turn', wraps, [M + 'range_degrees', M + 'range_hours'], chk_wraps)
    r.concrete('wrapping on the real code', [dict(x=rng.choice([k * 22.5, rng.uniform(-1500, 1500)]), h=rng.choice([k / 2.0, rng.uniform(-100, 100)])) for k in range(-200, 200)], chk_wraps)

    # ------------------------------------------------------------------ position classes
    CL = {  # class: [(attr, lo, lo_ok, hi, hi_ok, sexagesimal kind)]
        'hrz_posn': [('az', 0, True, 360, False, None), ('alt', -90, True, 90, True, None)],
        'equ_posn': [('ra', 0, True, 360, False, 'hms'), ('dec', -90, True, 90, True, 'dms')],
        'gal_posn': [('l', -360, True, 360, False, None), ('b', -90, True, 90, True, 'dms')],
        'ecl_posn': [('lng', -360, True, 360, None, 'dms'), ('lat', -90, True, 90, True, 'dms')],
        'geo_posn': [('lng', -360, False, 360, False, 'dms'), ('lat', -90, True, 90, True, 'dms'), ('elv', None, True, None, True, None)],
        'rect_posn': [('X', None, True, None, True, None), ('Y', None, True, None, True, None), ('Z', None, True, None, True, None)],
    }

    def inside(v, spec, x=X):
        _, lo, lok, hi, hok, _k = spec
        c = []
        if lo is not None:
            c.append(x(v) >= lo if lok else x(v) > lo)
        if hi is not None:
            c.append(x(v) <= hi if hok else x(v) < hi)
        return c

    def posn(cn, spec):
        def fn(cx):
            C = getattr(A, cn)
            vals = [cx.real_input('v%d' % i, -800, 800) for i in range(len(spec))]
            how = cx.int_input('how', 0, 2).__index__()
            which = cx.int_input('which', 0, len(spec) - 1).__index__() if how else None
            p = C()
            old = [getattr(p, s[0]) for s in spec]
            for s, o in zip(spec, old):
                if s[3] is not None and s[4] is None:
                    cx.assume(vals[spec.index(s)] != s[3])     # the documentation and the test differ at this point
            changed = range(len(spec)) if how == 0 else [which]
            ok = [c for j in changed for c in inside(vals[j], spec[j])]
            ok = And(*ok) if ok else True
            try:
                if how == 0:
                    p = C(*vals)
                elif how == 1:
                    setattr(p, spec[which][0], vals[which])
                else:
                    p[which] = vals[which]
            except ValueError:
                cx.prove('%s: only out of range coordinates are rejected' % cn, Not(ok) if ok is not True else False)
                return
            cx.prove('%s: out of range coordinates are rejected' % cn, ok)
            for j, s in enumerate(spec):
                w = vals[j] if j in changed else old[j]
                cx.prove('%s.%s is what was set' % (cn, s[0]), X(getattr(p, s[0])) == X(w))
                cx.prove('%s[%d] is %s' % (cn, j, s[0]), X(p[j]) == X(w))
            bad = 0
            for j in (-1, len(spec), 99):
                try:
                    p[j]
                except (ValueError, IndexError):
                    bad += 1
                try:
                    p[j] = 0.0
                except (ValueError, IndexError):
                    bad += 1
            cx.prove('%s: no other index' % cn, bad == 6)
            f, args = p.__reduce__()
            cx.prove('%s: pickles as its coordinates' % cn, And(f is C, len(args) == len(spec), *[X(a) == X(getattr(p, s[0])) for a, s in zip(args, spec)]))
            if cn == 'hrz_posn':
                cx.prove('hrz_posn.zen: 90 degrees less the altitude', X(p.zen()) == 90 - X(p.alt))
                z = cx.real_input('z', -200, 400)
                try:
                    p.zen(z)
                except ValueError:
                    cx.prove('hrz_posn.zen: only [0, 180] can be set', Or(X(z) < 0, X(z) > 180))
                else:
                    cx.prove('hrz_posn.zen: sets the altitude', And(X(z) >= 0, X(z) <= 180, X(p.alt) == 90 - X(z), X(p.zen()) == X(z)))
                    az = p.az
                    n = A.hrz_to_nswe(p)
                    for w, lo, hi in (('E', 45, 135), ('S', 135, 225), ('W', 225, 315)):
                        cx.prove('hrz_to_nswe: %s' % w, And(X(az) >= lo, X(az) < hi) if n == w else Or(X(az) < lo, X(az) >= hi))
                    cx.prove('hrz_to_nswe: one of N, E, S, W', n in ('N', 'E', 'S', 'W'))

        def chk(i):
            C = getattr(R, cn)
            vals = [float(i['v%d' % j]) for j in range(len(spec))]
            for how in range(3):
                for which in (range(1) if how == 0 else range(len(spec))):
                    p = C()
                    old = [getattr(p, s[0]) for s in spec]
                    changed = range(len(spec)) if how == 0 else [which]
                    ok = all(c for j in changed for c in inside(vals[j], spec[j], float))
                    if any(spec[j][4] is None and vals[j] == spec[j][3] for j in changed):
                        continue
                    try:
                        if how == 0:
                            p = C(*vals)
                        elif how == 1:
                            setattr(p, spec[which][0], vals[which])
                        else:
                            p[which] = vals[which]
                    except ValueError:
                        if ok:
                            return '%s: %r rejected' % (cn, vals)
                        continue
                    if not ok:
                        return '%s: %r accepted (%s)' % (cn, vals, ('constructor', 'attribute', 'index')[how])
                    want = [vals[j] if j in changed else old[j] for j in range(len(spec))]
                    if [getattr(p, s[0]) for s in spec] != want or [p[j] for j in range(len(spec))] != want:
                        return '%s: set %r, reads %r / %r' % (cn, want, [getattr(p, s[0]) for s in spec], [p[j] for j in range(len(spec))])
                    for j in (-1, len(spec), 99):
                        for f in (lambda: p[j], lambda: p.__setitem__(j, 0.0)):
                            try:
                                f()
                            except (ValueError, IndexError):
                                continue
                            return '%s has an index %d' % (cn, j)
                    q = pickle.loads(pickle.dumps(p))
                    if type(q) is not C or [q[j] for j in range(len(spec))] != want:
                        return '%s %r pickles as %r' % (cn, want, q)
                    if cn != 'ecl_posn' and (not p == q or p != q):
                        return '%s: equal positions compare different' % cn
                    if cn != 'ecl_posn':
                        for j in range(len(spec)):
                            q = copy.copy(p)
                            q[j] = 1.25 if q[j] != 1.25 else 2.5
                            if p == q or not p != q:
                                return '%s: positions that differ in %s compare equal' % (cn, spec[j][0])
                    if hasattr(p, 'format'):
                        f = p.format()
                        for j in range(2):
                            w = exact_hms(f[j]) if isinstance(f[j], R.hms) else exact_dms(f[j])
                            if abs(w - Fr(want[j])) > 1e-8 or isinstance(f[j], R.hms) != (cn == 'equ_posn' and j == 0):
                                return '%s %r formats as %r' % (cn, want, f)
                    for j, s in enumerate(spec):
                        if s[5]:
                            v = abs(want[j]) % 90.0
                            o = R.deg_to_hms(v) if s[5] == 'hms' else R.deg_to_dms(v)
                            q = C()
                            setattr(q, s[0], o)
                            if getattr(q, s[0]) != o.to_deg():
                                return '%s.%s = %r reads %r' % (cn, s[0], o, getattr(q, s[0]))
                    if cn == 'hrz_posn':
                        z = float(i.get('z', 30.0))
                        if p.zen() != 90.0 - p.alt:
                            return '%r.zen() = %r' % (p, p.zen())
                        if R.hrz_to_nswe(p) != 'NESWN'[int((p.az + 45) // 90)]:
                            return 'hrz_to_nswe(%r) = %s' % (p, R.hrz_to_nswe(p))
                        try:
                            p.zen(z)
                            if not 0 <= z <= 180 or p.alt != 90.0 - z:
                                return 'zen(%r) gives alt %r' % (z, p.alt)
                        except ValueError:
                            if 0 <= z <= 180:
                                return 'zen(%r) rejected' % z
        r.contract(cn, fn, [M + cn] + ([M + 'hrz_to_nswe'] if cn == 'hrz_posn' else []), chk)
        edge = [0.0, 90.0, -90.0, 360.0, -360.0, 359.999999, 45.0, 135.0, 225.0, 315.0, 90.00001, -90.00001, -1e-9, 361.0, -361.0, 200.0]
        cs = [dict([('v%d' % j, rng.choice(edge + [rng.uniform(-400, 400), rng.uniform(0, 90), rng.uniform(0, 90)])) for j in range(len(spec))], z=rng.choice([0., 180., -1., 181., 30.])) for k in range(1500)]
        r.concrete('%s on the real code' % cn, cs, chk)
    with r.parallel():
        for cn, spec in CL.items():
            posn(cn, spec)

    # ------------------------------------------------------------------ direction cosines
    def dcos(cx):
        az = cx.real_input('az', 0, 359)
        alt = cx.real_input('alt', -90, 90)
        p = A.hrz_posn(az, alt)
        k = math.pi / 180.0
        sa, ca = math_shim.sin(az * k), math_shim.cos(az * k)
        sz, cz = math_shim.sin((90.0 - alt) * k), math_shim.cos((90.0 - alt) * k)
        # the two ways of writing the zenith distance
        cx.axiom((X(math_shim.sin(alt * k)) == X(cz)).e)
        cx.axiom((X(math_shim.cos(alt * k)) == X(sz)).e)
        for f in (A.dir_cos, lambda q: q.dir_cos()):
            l, m, n = f(p)
            cx.prove('dir_cos: east component', X(l) == X(sz) * X(sa))
            cx.prove('dir_cos: north component', X(m) == X(sz) * X(ca))
            cx.prove('dir_cos: zenith component', X(n) == X(cz))

    def chk_dcos(i):
        az, alt = float(i['az']), float(i['alt'])
        p = R.hrz_posn(az, alt)
        a, e = math.radians(az), math.radians(alt)
        w = (math.cos(e) * math.sin(a), math.cos(e) * math.cos(a), math.sin(e))
        for v in (R.dir_cos(p), p.dir_cos()):
            if max(abs(x - y) for x, y in zip(v, w)) > 1e-12:
                return 'dir_cos(az=%r, alt=%r) = %r, expected %r' % (az, alt, v, w)
    r.contract('direction cosines', dcos, [M + 'dir_cos', M + 'hrz_posn.dir_cos'], chk_dcos)
    r.concrete('direction cosines on the real code', [dict(az=rng.choice([0., 90., 180., 270., rng.uniform(0, 359)]), alt=rng.choice([0., 90., -90., rng.uniform(-90, 90)])) for k in range(500)], chk_dcos)
