"""C07: VDIF frames are written as the VDIF format says (and so read back the same, C04)."""
import datetime
import io
import os
import sys
import warnings
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SInt, SFloat, SComplex
from pv.models.tarr import TArr, tnp
from pv.models import cal
from pv.models.dtime import ordinal
from pv.runner import scratch
from checks.c04 import LV, decode

E2000 = 946684800
E2031 = 1956528000


def run(r):
    r.trust('numpy array arithmetic, wrapping and casting (contract pv/models/tarr.py)', 'time.gmtime, calendar.timegm (contract pv/models/cal.py)')
    sys.path.insert(0, '/repo')
    warnings.simplefilter('ignore')
    models = dict(cal.MODELS)
    models['numpy'] = tnp
    ld = SymLoader(models=models, symbolic={'lsl.writer.vdif'})
    S = ld.load('lsl.writer.vdif')
    from lsl.writer import vdif as RW
    from lsl.reader import vdif as RV
    from lsl.reader.base import FrameTimestamp
    fns = ['lsl/writer/vdif.py:Frame._data_adjust', 'lsl/writer/vdif.py:Frame._set_epoch', 'lsl/writer/vdif.py:Frame.create_raw_frame']

    def byte(raw, k):
        return raw[k].item0()

    # -- header and samples: every value of the fields and of every bit of the samples ------------
    def layout(bits, cplx, nw):
        def fn(cx):
            st = [cx.int_input('stand%d' % k, 0, 255) for k in (0, 1)]
            sec = [cx.int_input('sec%d' % k, 0, 255 if k else 63) for k in range(4)]
            frm = [cx.int_input('frame%d' % k, 0, 255) for k in range(3)]
            ep = cx.int_input('epoch', 0, 63)
            kHz = [cx.int_input('khz%d' % k, 0, 255 if k else 127) for k in range(3)]
            n = nw * 32 // bits
            vals = []
            if cplx:
                d = TArr.zeros(n // 2, 'c16')
                for k in range(n // 2):
                    a, b = [cx.int_input('%s%d' % (c, k), -(1 << (bits - 1)), (1 << (bits - 1)) - 1) for c in 'ri']
                    d[k] = SComplex(SFloat.of(a), SFloat.of(b))
                    vals += [a, b]
            else:
                d = TArr.zeros(n, 'i1')
                for k in range(n):
                    a = cx.int_input('r%d' % k, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                    d[k] = a
                    vals.append(a)
            f = S.Frame(stand=st[0] * 256 + st[1], time=(1262304000, 0.0), bits=bits, data=d, sample_rate=19.6e6)
            # the frame time is under contract on its own: any value here
            f.seconds = ((sec[0] * 256 + sec[1]) * 256 + sec[2]) * 256 + sec[3]
            f.frame = (frm[0] * 256 + frm[1]) * 256 + frm[2]
            f.epoch = ep
            f.sample_rate = ((kHz[0] * 256 + kHz[1]) * 256 + kHz[2]) * 1000
            raw = f.create_raw_frame()
            size = 32 + 4 * nw
            cx.prove('frame size', raw.shape == (size,) and raw.dtype == np.uint8)
            P = lambda nme, k, v: cx.prove(nme, X(byte(raw, k)) == X(v))
            for k in range(4):
                P('valid, standard header, seconds', 3 - k, sec[k])
            for k in range(3):
                P('frame in second', 6 - k, frm[k])
            P('reference epoch', 7, ep)
            for k in range(3):
                P('frame length', 8 + k, (size // 8) >> (8 * k) & 255)
            P('version 1-3, one channel', 11, byte(raw, 11) & 0xE0)
            P('station', 12, st[1])
            P('station', 13, st[0])
            P('thread', 14, 0)
            P('sample type and size', 15, (cplx << 7) | ((bits - 1) << 2))
            for k in range(3):
                P('sample rate', 18 - k, kHz[k])
            P('sample rate in kHz, extended data version 1', 19, 1)
            for k in range(20, 32):
                P('reserved', k, 0)
            per = 8 // bits
            for j in range(4 * nw):
                e = X(0)
                for p in range(per):
                    e = e + (X(vals[j * per + p]) + (1 << (bits - 1))) * (1 << (bits * p))
                P('samples, first in the low bits', 32 + j, e)
        return fn

    def rlayout(bits, cplx, nw):
        def f(i):
            g = lambda n: int(i.get(n) or 0)
            n = nw * 32 // bits
            if cplx:
                d = np.array([g('r%d' % k) + 1j * g('i%d' % k) for k in range(n // 2)])
            else:
                d = np.array([g('r%d' % k) for k in range(n)], np.int8)
            num = lambda p, m: sum(g('%s%d' % (p, k)) << (8 * (m - 1 - k)) for k in range(m))
            fr = RW.Frame(stand=num('stand', 2), time=(1262304000, 0.0), bits=bits, data=d, sample_rate=19.6e6)
            fr.seconds, fr.frame, fr.epoch, fr.sample_rate = num('sec', 4), num('frame', 3), g('epoch'), num('khz', 3) * 1000
            return same(fr.create_raw_frame(), bits, d, dict(station_id=num('stand', 2), seconds_from_epoch=num('sec', 4), frame_in_second=num('frame', 3), ref_epoch=g('epoch')), num('khz', 3))
        return f

    def same(raw, bits, d, e, khz):
        b = bytes(raw)
        h, v = decode(b, False)
        e = dict(e, frame_length=len(b) // 8, nchan=1, bits_per_sample=bits, is_complex=int(d.dtype.kind == 'c'), is_legacy=0, is_invalid=0, thread_id=0)
        for k, x in e.items():
            if h[k] != x:
                return 'header field %s is %r, not %r' % (k, h[k], x)
        if h['frame_length'] * 8 != len(b):
            return 'frame length'
        lev = np.array(LV[bits])
        o = 1 << (bits - 1)
        w = (lev[d.real.astype(int) + o] + 1j * lev[d.imag.astype(int) + o]) if d.dtype.kind == 'c' else lev[d.astype(int) + o]
        fr = RV.read_frame(io.BytesIO(b))
        g = fr.payload.data
        for x, who in ((v, 'the format'), (g, 'the reader')):
            if x is None or x.shape != w.shape or np.any(np.abs(x - w) > 1e-5):
                return 'samples %r come back as %r (%s)' % (d[:8], None if x is None else x[:8], who)
        if khz is not None:
            eud = fr.extended_user_data
            if eud.get('sample_rate') != khz or eud.get('sample_rate_units') != 'kHz':
                return 'sample rate of %r kHz comes back as %r' % (khz, eud)

    # -- frame time -------------------------------------------------------------------------------
    RATES = [(19600000, 4000), (196000000, 1000), (19600000, 19600000 // 25), (4900000, 50), (7000000, 7000000)]

    def ftime(kind, k):
        def fn(cx):
            rate, n = RATES[k]
            cx.inputs['rate'] = SInt.of(k)
            fps = rate // n
            s = cx.int_input('seconds', E2000, E2031 - 10)
            fr = cx.int_input('frame', 0, fps - 1)
            f = object.__new__(S.Frame)
            f.data = list(range(n)) if n < 10 ** 5 else _L(n)
            f.dataReal = True
            f.sample_rate = rate
            if kind == 'pair':
                # the fraction a frame starts at, off by less than what a two-part time keeps
                e = cx.real_input('err', -1e-7 / 4, 1e-7 / 4)
                frac = X(fr) / fps + X(e)
                cx.assume(frac >= 0)
                f.time = (s, SFloat(frac.e, 0, 1))
            elif kind == 'odd':
                w = cx.int_input('whole', -3, 3)
                e = cx.real_input('err', -1e-7 / 4, 1e-7 / 4)
                cx.assume(And(s + w >= E2000, X(w) + X(fr) / fps + X(e) > -3))
                f.time = (s, SFloat((X(w) + X(fr) / fps + X(e)).e, -4, 4))
            # where rounding and truncation can land (offered to the solver as candidates, checked by it)
            cx.hint(fr)
            cx.hint(SInt.of(fps))
            if kind == 'odd':
                cx.hint(w)
                cx.hint(w - 1)
            cx.hint(SInt.of(0))
            bool(fr == 0)
            bool(e < 0)
            f._set_epoch()
            cx.prove('fields in range', And(f.seconds >= 0, f.seconds < 2 ** 30, f.epoch >= 0, f.epoch < 64, f.frame >= 0, f.frame < fps))
            # the epoch is the half year the second is in, the seconds are counted from its start
            h = f.epoch % 2
            h = h if isinstance(h, int) else h.__index__()
            t0 = X((ordinal(2000 + f.epoch // 2, 1 + 6 * h, 1) - cal.E70) * 86400)
            inst = t0 + X(f.seconds) + X(f.frame) / fps
            cx.prove('epoch, seconds and frame denote the time', inst.near(X(f.time[0]) + X(f.time[1]), 1e-7))
            # half years are at most 184 days
            cx.prove('seconds since the latest epoch', f.seconds < 184 * 86400)
        return fn

    def rtime(kind):
        def g(i):
            rate, n = RATES[int(i.get('rate') or 0)]
            s, fr, e = int(i['seconds']), int(i.get('frame') or 0), float(i.get('err') or 0)
            fps = rate // n
            sf = int(i.get('whole') or 0) + fr / fps + e
            f = object.__new__(RW.Frame)
            f.data, f.dataReal, f.sample_rate, f.time = _L(n), True, rate, (s, sf)
            f._set_epoch()
            return chk(f, s, sf, fps)
        return g

    def chk(f, s, sf, fps, tol=1e-7):
        if not (0 <= f.epoch < 64 and 0 <= f.seconds < 184 * 86400 and 0 <= f.frame < fps):
            return 'time %r + %r gives epoch %r, seconds %r, frame %r of %r' % (s, sf, f.epoch, f.seconds, f.frame, fps)
        t = int(datetime.datetime(2000 + f.epoch // 2, 1 + 6 * (f.epoch % 2), 1, tzinfo=datetime.timezone.utc).timestamp())
        if abs((t + f.seconds - s) + f.frame / fps - sf) > tol:
            return 'time %r + %r is written as epoch %r, seconds %r, frame %r of %r: %r s off' % (s, sf, f.epoch, f.seconds, f.frame, fps, (t + f.seconds - s) + f.frame / fps - sf)

    with r.parallel():
        for bits in (1, 2, 4, 8):
            for cplx in (0, 1):
                nw = 2 if bits > 1 else 2
                r.contract('layout, %d-bit %s' % (bits, 'complex' if cplx else 'real'), layout(bits, cplx, nw), fns[:1] + fns[2:], rlayout(bits, cplx, nw),
                           bounded='%d words of samples; every header field and sample bit symbolic' % nw)
        for kind in ('pair', 'odd'):
            for k in range(len(RATES)):
                r.contract('frame time, %s, %d samples/s, %d a frame' % ((kind,) + RATES[k]), ftime(kind, k), fns[1:2], rtime(kind))

    # -- real code ----------------------------------------------------------------------------------
    def one(c):
        mode, seed = c
        rng = np.random.RandomState(seed)
        bits = int([1, 2, 4, 8][rng.randint(4)])
        cplx = rng.randint(2)
        rate, n = RATES[rng.randint(4)]
        if mode == 'small':
            rate, n = 19600000, 32 * int(rng.choice([2, 4, 10, 50]))
        if rate % n or n * (1 + cplx) % (64 // bits) or n > 5000:
            rate, n = 19600000, 3200
        o = 1 << (bits - 1)
        d = rng.randint(-o, o, (n, 2))
        d = (d[:, 0] + 1j * d[:, 1]).astype([np.complex64, np.complex128][rng.randint(2)]) if cplx else d[:, 0].astype([np.int8, np.int16, np.float32, np.int64][rng.randint(4)])
        keep = d.copy()
        fps = rate // n
        k = rng.randint(6)
        s = int(rng.randint(E2000, E2031))
        if k == 0:       # around the change of epoch and of year
            t = datetime.datetime(2000 + rng.randint(31), rng.choice([1, 7]), 1, tzinfo=datetime.timezone.utc).timestamp()
            s = max(E2000, int(t) + int(rng.randint(-2, 3)))
        if k == 1:       # days with a leap second
            m = cal.LEAP_DAYS[-1 - rng.randint(5)]
            s = (m - 40587) * 86400 + int(rng.randint(86400))
        fr = int(rng.choice([0, 1, fps - 1, rng.randint(fps)]))
        st = int(rng.randint(65536))
        form = rng.randint(3)
        sf = fr / fps
        t, tol = (s, sf), 1e-7
        if form == 1:
            t = FrameTimestamp(s, sf)
        elif form == 2:
            t = s + sf
            if fps > 10 ** 6:
                t = s
                sf = 0.0
        f = RW.Frame(stand=st, time=t, bits=bits, data=d, sample_rate=rate)
        if not np.array_equal(d, keep):
            return 'the samples of the caller were changed'
        m = chk(f, s, sf, fps, 0.51 / fps if form else 1e-7)
        if m:
            return m
        fn = os.path.join(scratch(), 'c07.dat')
        with open(fn, 'wb') as fh:
            f.write_raw_frame(fh)
            f.write_raw_frame(fh)
        with open(fn, 'rb') as fh:
            raw = fh.read()
        if raw[:len(raw) // 2] != raw[len(raw) // 2:]:
            return 'writing twice gives different bytes'
        raw = raw[:len(raw) // 2]
        m = same(raw, bits, d, dict(station_id=st, seconds_from_epoch=f.seconds, frame_in_second=f.frame, ref_epoch=f.epoch), rate // 1000)
        if m:
            return m
        if s // 86400 + 40587 in cal.LEAP_DAYS:
            return None         # astropy stretches these days
        for sr in (0.0, float(rate)):
            g = RV.read_frame(io.BytesIO(raw), sample_rate=sr)
            if abs((g.time - FrameTimestamp(s, sf))) > 0.51 / fps + 1e-6:
                return 'written at %r + %r, read back at %r' % (s, sf, g.time)

    def bad(c):
        try:
            RW.Frame(stand=1, time=0, bits=c, data=np.zeros(64, np.int8), sample_rate=19.6e6)
        except ValueError:
            return None
        return '%d-bit frames accepted' % c

    def cases():
        k = 10 ** 5 * r.seed % 2 ** 31
        for mode, n in (('small', 300), ('any', 200)):
            for j in range(n * (10 if r.thorough else 1)):
                k += 1
                yield (mode, k % 2 ** 31)
    r.concrete('frames written and read by the real code', cases(), one, limit_s=90)
    r.concrete('unsupported sample sizes are refused', [0, 3, 5, 6, 7, 9, 12, 16, 32], bad)


class _L:
    """something of a given length"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n
