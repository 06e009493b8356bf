"""C06: simulated DRX frames are written as the DRX format says (and so read back the same, C01)."""
import io
import os
import sys
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SInt, SComplex
from pv.models.tarr import TArr, tnp
from pv.runner import scratch

CI8 = np.dtype([('re', 'i1'), ('im', 'i1')])
POS = (0, 1, 2047, 4095)       # places of the samples with symbolic values


class Ci8:
    """array of 8-bit complex integers, as the readers make them"""
    def __init__(self, re, im):
        self.f = {'re': re, 'im': im}
        self.dtype = CI8
        self.shape = re.shape
        self.size = re.size
        self.ndim = 1

    def __getitem__(self, k):
        return self.f[k]

    def __len__(self):
        return self.shape[0]


def run(r):
    r.trust('numpy array arithmetic, wrapping and casting (contract pv/models/tarr.py)')
    sys.path.insert(0, '/repo')
    ld = SymLoader(models={'numpy': tnp}, symbolic={'lsl.sim.drx', 'lsl.reader.drx', 'lsl.common.ndp'})
    S = ld.load('lsl.sim.drx')
    D = ld.load('lsl.reader.drx')
    from lsl.sim import drx as RS
    from lsl.reader import drx as RD
    S.CI8 = CI8
    fns = ['lsl/sim/drx.py:frame_to_frame', 'lsl/sim/drx.py:SimFrame.create_raw_frame', 'lsl/sim/drx.py:SimFrame._update', 'lsl/sim/drx.py:SimFrame.is_valid',
           'lsl/sim/drx.py:SimFrame.load_frame']

    def data(cx, ci8):
        """samples and the 4-bit values they must be stored as"""
        exp = {}
        if ci8:
            re, im = TArr.zeros(4096, 'i1'), TArr.zeros(4096, 'i1')
            for p in POS:
                a, b = cx.int_input('re%d' % p, -8, 7), cx.int_input('im%d' % p, -8, 7)
                re[p], im[p] = a, b
                exp[p] = (a, b)
            return Ci8(re, im), exp
        d = TArr.zeros(4096, 'c8')
        for p in POS[:2]:
            a, b = cx.real_input('re%d' % p, -100, 100), cx.real_input('im%d' % p, -100, 100)
            d[p] = SComplex(a, b)
            exp[p] = (a, b)
        return d, exp

    def be(raw, o, n):
        v = X(0)
        for k in range(n):
            v = v * 256 + X(raw[o + k].item0())
        return v

    def num(cx, n, k, free=True):
        """a k-byte number as k free bytes"""
        v = 0
        for j in range(k):
            if free:
                b = cx.int_input('%s_%d' % (n, j), 0, 255)
            else:
                b = cx.inputs['%s_%d' % (n, j)] = SInt.of((37 * j + 11 * k + 5) % 100)
                b = b.lo
            v = v * 256 + b
        return v

    def rnum(i, n, k):
        v = 0
        for j in range(k):
            v = v * 256 + int(i.get('%s_%d' % (n, j)) or 0)
        return v

    def field(cx, raw, n, o, k):
        for j in range(k):
            cx.prove('field %s, byte %d' % (n, j), X(raw[o + j].item0()) == X(cx.inputs['%s_%d' % (n, j)]))

    def stored(cx, name, nib, want, ci8):
        """the 4-bit code stands for the sample: the nearest of -8..7"""
        v = nib - 16 * ((nib >= 8)._int() if not isinstance(nib, int) else int(nib >= 8))
        if ci8:
            cx.prove(name, v == want)
        else:
            w, v = X(want), X(v)
            cx.prove(name, And(v >= -8, v <= 7, Or(v == -8, v - w <= 0.5), Or(v == 7, w - v <= 0.5), Or(v > -8, w <= -7.5), Or(v < 7, w >= 6.5)))

    def samples(cx, raw, exp, ci8):
        cx.prove('samples that are zero are stored as zero', all(not isinstance(raw[32 + p].item0(), SInt) and raw[32 + p].item0() == 0 for p in range(4096) if p not in exp))
        for p, (a, b) in exp.items():
            by = raw[32 + p].item0()
            stored(cx, 'real part in the high four bits', by // 16, a, ci8)
            stored(cx, 'imaginary part in the low four bits', by % 16, b, ci8)

    F = [('drx_id', 4, 1), ('frame_count', 5, 3), ('second_count', 8, 4), ('decimation', 12, 2), ('time_offset', 14, 2), ('timetag', 16, 8), ('tuning_word', 24, 4), ('flags', 28, 4)]

    def whole(ci8):
        def fn(cx):
            v = {n: num(cx, n, k) for n, _, k in F}
            h = D.FrameHeader(frame_count=v['frame_count'], drx_id=v['drx_id'], second_count=v['second_count'], decimation=v['decimation'], time_offset=v['time_offset'])
            d, exp = data(cx, ci8)
            p = D.FramePayload(timetag=v['timetag'], tuning_word=v['tuning_word'], flags=v['flags'], iq=d)
            raw = S.frame_to_frame(D.Frame(header=h, payload=p))
            cx.prove('frame size', raw.shape == (4128,) and raw.dtype == np.uint8)
            cx.prove('sync word', [raw[k].item0() for k in range(4)] == [0xDE, 0xC0, 0xDE, 0x5C])
            for n, o, k in F:
                field(cx, raw, n, o, k)
            samples(cx, raw, exp, ci8)
        return fn

    def rdata(i, ci8):
        if ci8:
            d = np.zeros(4096, CI8)
            for p in POS:
                d['re'][p], d['im'][p] = int(i.get('re%d' % p) or 0), int(i.get('im%d' % p) or 0)
        else:
            d = np.zeros(4096, np.complex64)
            for p in POS[:2]:
                d[p] = float(i.get('re%d' % p) or 0) + 1j * float(i.get('im%d' % p) or 0)
        return d

    def want(d):
        if d.dtype == CI8:
            return d['re'].astype(int) + 1j * d['im'].astype(int)
        return np.clip(np.round(d.real), -8, 7) + 1j * np.clip(np.round(d.imag), -8, 7)

    def same(raw, v, d):
        fr = RD.read_frame(io.BytesIO(bytes(raw)))
        for n, _, k in F:
            g = getattr(fr.header if n in ('drx_id', 'frame_count', 'second_count', 'decimation', 'time_offset') else fr.payload, n)
            if n in v and g != v[n]:
                return 'wrote %s=%r, read back %r' % (n, v[n], g)
        g = fr.payload.data
        bad = np.argwhere(np.abs(g - want(d)) > 1e-6)
        if len(bad):
            k = bad[0][0]
            return 'wrote sample %d = %r, read back %r' % (k, d[k], g[k])

    def rwhole(ci8):
        def f(i):
            v = {n: rnum(i, n, k) for n, _, k in F}
            d = rdata(i, ci8)
            fr = RD.Frame(header=RD.FrameHeader(frame_count=v['frame_count'], drx_id=v['drx_id'], second_count=v['second_count'], decimation=v['decimation'], time_offset=v['time_offset']),
                          payload=RD.FramePayload(timetag=v['timetag'], tuning_word=v['tuning_word'], flags=v['flags'], iq=d))
            return same(RS.frame_to_frame(fr), v, d)
        return f

    SF = ['decimation', 'time_offset', 'flags']

    def sim(ci8, load):
        def fn(cx):
            v = {n: num(cx, n, k, ci8) for n, _, k in F if n in SF}
            tt = num(cx, 'timetag', 8, ci8)
            if ci8:
                beam, tune, pol = cx.int_input('beam', 1, 4), cx.int_input('tune', 1, 2), cx.int_input('pol', 0, 1)
                fc, sc = cx.int_input('frame_count', 0, 2 ** 24 - 1), cx.int_input('second_count', 0, 2 ** 32 - 1)
            else:
                beam, tune, pol, fc, sc = 3, 2, 1, 7, 9       # every value in the contract with integer samples
                for n, x in (('beam', beam), ('tune', tune), ('pol', pol)):
                    cx.inputs[n] = SInt.of(x)
            d, exp = data(cx, ci8)
            if load:
                tw = num(cx, 'tuning_word', 4, ci8)
                fr = D.Frame(header=D.FrameHeader(frame_count=fc, drx_id=beam + 8 * tune + 128 * pol,
                                                  second_count=sc, decimation=v['decimation'], time_offset=v['time_offset']),
                             payload=D.FramePayload(timetag=tt, tuning_word=tw, flags=v['flags'], iq=d))
                f = S.SimFrame()
                f.load_frame(fr)
            else:
                tw = 0
                f = S.SimFrame(beam=beam, tune=tune, pol=pol, frame_count=fc, obs_time=tt, data=d, **v)
            cx.prove('a proper frame is valid', f.is_valid() is True)
            raw = f.create_raw_frame()
            cx.prove('beam, tuning, polarization', And(be(raw, 4, 1) == X(beam + 8 * tune + 128 * pol)))
            field(cx, raw, 'timetag', 16, 8)
            if load:
                field(cx, raw, 'tuning_word', 24, 4)
            else:
                cx.prove('no tuning word', be(raw, 24, 4) == 0)
            for n, o, k in F:
                if n in SF:
                    field(cx, raw, n, o, k)
            samples(cx, raw, exp, ci8)
        return fn

    def rsim(ci8, load):
        def f(i):
            v = {n: rnum(i, n, k) for n, _, k in F if n in SF}
            beam, tune, pol, tt = int(i.get('beam') or 1), int(i.get('tune') or 1), int(i.get('pol') or 0), rnum(i, 'timetag', 8)
            d = rdata(i, ci8)
            e = dict(v, drx_id=beam + 8 * tune + 128 * pol, timetag=tt)
            if load:
                e['tuning_word'] = rnum(i, 'tuning_word', 4)
                fr = RD.Frame(header=RD.FrameHeader(frame_count=int(i.get('frame_count') or 0), drx_id=e['drx_id'], second_count=int(i.get('second_count') or 0),
                                                    decimation=v['decimation'], time_offset=v['time_offset']),
                              payload=RD.FramePayload(timetag=tt, tuning_word=e['tuning_word'], flags=v['flags'], iq=d))
                s = RS.SimFrame()
                s.load_frame(fr)
            else:
                e['tuning_word'] = 0
                s = RS.SimFrame(beam=beam, tune=tune, pol=pol, frame_count=int(i.get('frame_count') or 0), obs_time=tt, data=d, **v)
            if s.is_valid() is not True:
                return 'a proper frame is called invalid'
            fn = os.path.join(scratch(), 'c06.dat')
            with open(fn, 'wb') as fh:
                s.write_raw_frame(fh)
            with open(fn, 'rb') as fh:
                raw = fh.read()
            if len(raw) != 4128:
                return '%d bytes written' % len(raw)
            return same(raw, e, d)
        return f

    def invalid(cx):
        beam, tune, pol = cx.int_input('beam', -2, 300), cx.int_input('tune', -2, 300), cx.int_input('pol', -2, 300)
        d = TArr.zeros(4096, 'c8')
        f = S.SimFrame(beam=beam, tune=tune, pol=pol, frame_count=0, decimation=10, time_offset=0, obs_time=10 ** 15, flags=0, data=d)
        good = And(beam >= 1, beam <= 4, tune >= 1, tune <= 2, pol >= 0, pol <= 1)
        ok = f.is_valid()
        try:
            raw = f.create_raw_frame()
            cx.prove('only proper beams, tunings and polarizations are written', And(ok is True, good))
        except ValueError:
            cx.prove('a proper frame is written', And(ok is False, Not(good)))

    def rinvalid(i):
        b, t, p = int(i.get('beam') or 0), int(i.get('tune') or 0), int(i.get('pol') or 0)
        f = RS.SimFrame(beam=b, tune=t, pol=p, frame_count=0, decimation=10, time_offset=0, obs_time=10 ** 15, flags=0, data=np.zeros(4096, np.complex64))
        good = b in (1, 2, 3, 4) and t in (1, 2) and p in (0, 1)
        try:
            f.create_raw_frame()
        except ValueError:
            return 'proper frame refused: beam %d tuning %d pol %d' % (b, t, p) if good or f.is_valid() else None
        return None if good and f.is_valid() else 'frame with beam %d tuning %d pol %d is written' % (b, t, p)

    with r.parallel():
        for ci8 in (False, True):
            k = 'integer' if ci8 else 'floating-point'
            r.contract('frame_to_frame, %s samples' % k, whole(ci8), fns[:1], rwhole(ci8))
            r.contract('SimFrame, %s samples' % k, sim(ci8, False), fns, rsim(ci8, False))
            r.contract('SimFrame from a frame, %s samples' % k, sim(ci8, True), fns, rsim(ci8, True))
        r.contract('ids out of range are refused', invalid, fns, rinvalid)

    # -- the real code end to end -----------------------------------------------------------------
    def one(c):
        mode, seed = c
        rng = np.random.RandomState(seed)
        if mode == 'bad':
            d = [None, np.zeros(4095, np.complex64), np.zeros(4096, np.float32), np.zeros(4097, CI8)][rng.randint(4)]
            f = RS.SimFrame(beam=1, tune=1, pol=0, frame_count=0, decimation=10, time_offset=0, obs_time=10 ** 15, flags=0, data=d)
            if f.is_valid():
                return 'data %r called valid' % (None if d is None else (d.shape, d.dtype),)
            try:
                f.create_raw_frame()
            except ValueError:
                return None
            return 'data %r written' % (None if d is None else (d.shape, d.dtype),)
        if mode == 'all':        # every sample value at every place
            d = np.zeros(4096, CI8)
            k = (np.arange(4096) + seed) % 256
            d['re'], d['im'] = k // 16 - 8, k % 16 - 8
            if seed % 2:
                d = (d['re'] + 1j * d['im']).astype([np.complex64, np.complex128][seed // 2 % 2])
        elif mode == 'float':
            d = ((rng.randn(4096) + 1j * rng.randn(4096)) * rng.choice([1, 4, 30])).astype([np.complex64, np.complex128][rng.randint(2)])
            d[::7] = np.floor(d.real[::7]) + 0.5 + 1j * (np.floor(d.imag[::7]) + 0.5)
        keep = d.copy()
        n = rng.randint(1, 5)
        fn = os.path.join(scratch(), 'c06b.dat')
        es = []
        with open(fn, 'wb') as fh:
            for k in range(n):
                v = dict(decimation=int(rng.randint(65536)), time_offset=int(rng.randint(65536)), flags=int(rng.randint(2 ** 32)), obs_time=int(rng.randint(2 ** 62)) * 2)
                b, t, p = int(rng.randint(1, 5)), int(rng.randint(1, 3)), int(rng.randint(2))
                s = RS.SimFrame(beam=b, tune=t, pol=p, frame_count=k, data=d, **v)
                s.write_raw_frame(fh)
                v['timetag'] = v.pop('obs_time')
                es.append(dict(v, drx_id=b + 8 * t + 128 * p))
        if not np.array_equal(d, keep):
            return 'the samples of the caller were changed'
        with open(fn, 'rb') as fh:
            raw = fh.read()
        if len(raw) != 4128 * n:
            return '%d bytes for %d frames' % (len(raw), n)
        out = b''
        for k, e in enumerate(es):
            m = same(raw[4128 * k:4128 * k + 4128], e, d)
            if m:
                return m
            fr = RD.read_frame(io.BytesIO(raw[4128 * k:4128 * k + 4128]))
            fr.payload.tuning_word = tw = int(rng.randint(2 ** 32))
            s = RS.SimFrame()
            s.load_frame(fr)
            m = same(s.create_raw_frame(), dict(e, tuning_word=tw), want(d).astype(np.complex64))
            if m:
                return 'written again: ' + m

    def cases():
        k = 10 ** 5 * r.seed % 2 ** 31
        for mode, n in (('all', 256), ('float', 60), ('bad', 8)):
            for j in range(n):
                yield (mode, j if mode == 'all' else (k + j) % 2 ** 31)
    r.concrete('frames written and read by the real code', cases(), one, limit_s=90)
