"""C14: the LDP file interface (lsl.reader.ldp): chunked reads of DRX, DRX8, TBX, COR and DR spectrometer files."""
import os
import random
import struct
import sys
import tempfile
import warnings
import numpy as np
from fractions import Fraction
from pv import frames as F
from pv.loader import SymLoader
from pv.runner import scratch
from pv.sym import And, X

LEVEL = 'exploration'
T0 = 61849368000000000            # 1980: DRXFile takes nothing older
T17, T38 = 1484000000 * 196000000, 2147000000 * 196000000      # no leap seconds in between
FS = 196000000
LUT4 = np.array([0, 1, 2, 3, 4, 5, 6, 7, -8, -7, -6, -5, -4, -3, -2, -1], np.float32)
TPS = [(1, 0), (1, 1), (2, 0), (2, 1)]


# ------------------------------------------------------------------ raw files, byte by byte ------
def rnd_bytes(seed, n):
    return np.random.default_rng(seed).integers(0, 256, n, dtype=np.uint8)


def drx_frame(beam, t, p, tt, dec, off, raw, eight, seq):
    b = beam | t << 3 | p << 7 | (0x40 if eight else 0)
    return struct.pack('>IIIHHQII', 0xDEC0DE5C, b << 24 | (seq & 0xFFFFFF), seq, dec, off, tt, 0x60000000 + t, 0) + raw.tobytes()


def drx_decode(raw, eight):
    if eight:
        v = raw.view(np.int8).astype(np.float32).reshape(-1, 2)
        return v[:, 0] + 1j * v[:, 1]
    return LUT4[raw >> 4] + 1j * LUT4[raw & 15]


class DrxSet:
    """what a DRX/DRX8 recording of nset frame sets holds, with `lost` (set, stream) frames missing"""
    def __init__(self, nset, lost, tps, dec, t0, off, eight, seed, shuffle=0):
        self.__dict__.update(locals())
        self.step = 4096 * dec
        self.data = {}
        out = []
        for k in range(nset):
            fr = []
            for a, (t, p) in enumerate(tps):
                raw = rnd_bytes((seed, k, t, p), 8192 if eight else 4096)
                f = drx_frame(2, t, p, t0 + k * self.step, dec, off, raw, eight, k + 1)
                if (k, a) not in lost:
                    fr.append(f)
                    self.data[k, 2 * (t - 1) + p] = raw
            if shuffle:
                random.Random(shuffle * 1000 + k).shuffle(fr)
            out.extend(fr)
        self.raw = b''.join(out)
        self.nframe = len(out)

    def samples(self, k, s):
        r = self.data.get((k, s))
        return np.zeros(4096, np.complex64) if r is None else drx_decode(r, self.eight)

    def rate(self):
        return Fraction(FS, self.dec)

    def problem(self, f, pos, n, ret, in_samples, ci8):
        """one read of n sets at set `pos`: the number of sets read, or what is wrong"""
        dur, t, data = ret
        m = int(round(dur * float(self.rate()) / 4096))
        if abs(dur - float(m * 4096 / self.rate())) > 1e-9:
            return None, 'duration %r is not a whole number of frames' % (dur,)
        want = min(n, self.nset - pos)
        if m != want:
            return None, 'read %d frames per stream at %d of %d, expected %d' % (m, pos, self.nset, want)
        tt = self.t0 + pos * self.step - self.off
        if in_samples:
            if t != tt:
                return None, 'time %r of the first sample, expected %r (set %d)' % (t, tt, pos)
        else:
            from lsl.reader.base import FrameTimestamp
            if t != FrameTimestamp.from_dp_timetag(self.t0 + pos * self.step, self.off):
                return None, 'time %r of the first sample of set %d' % (t, pos)
        if data.shape != (4, n * 4096):
            return None, 'shape %s for %d frames' % (data.shape, n)
        if ci8:
            data = data['re'].astype(np.float32) + 1j * data['im'].astype(np.float32)
        for s in range(4):
            for k in range(n):
                got = data[s, k * 4096:(k + 1) * 4096]
                w = self.samples(pos + k, s) if k < m else 0
                if (got != w).any():
                    return None, 'samples of stream %d, set %d are not those recorded%s' % (s, pos + k, '' if (pos + k, s) in self.data else ' (no frame: zeros expected)')
        return m, None


def tbx_frame(chan, nst, nch, tt, cnt, raw):
    return struct.pack('>IIIIHHq', 0xDEC0DE5C, 8 << 24 | cnt, 0, chan, nst, nch, tt) + raw.tobytes()


class TbxSet:
    def __init__(self, nset, lost, chans, step, t0, nst, nch, seed, shuffle=0):
        self.__dict__.update(locals())
        self.data = {}
        out = []
        for k in range(nset):
            fr = []
            for a, c in enumerate(chans):
                raw = rnd_bytes((seed, k, a), nst * nch * 2)
                f = tbx_frame(c, nst, nch, t0 + k * step, k + 1, raw)
                if (k, a) not in lost:
                    fr.append(f)
                    self.data[k, a] = raw
            if shuffle:
                random.Random(shuffle * 1000 + k).shuffle(fr)
            out.extend(fr)
        self.raw = b''.join(out)
        self.nframe = len(out)

    def rate(self):
        return Fraction(FS, self.step)

    def problem(self, f, pos, n, ret, in_samples, ci8):
        dur, t, data = ret
        m = int(round(dur * float(self.rate())))
        if abs(dur - float(m / self.rate())) > 1e-9:
            return None, 'duration %r is not a whole number of frames' % (dur,)
        if m < 1 or m > self.nset - pos or (n is not None and m > n):
            return None, 'read %d frame sets at %d of %d, %s were asked for' % (m, pos, self.nset, n)
        if n is not None and not self.lost and m != min(n, self.nset - pos):
            return None, 'read %d frame sets at %d of %d, expected %d' % (m, pos, self.nset, min(n, self.nset - pos))
        tt = self.t0 + pos * self.step
        from lsl.reader.base import FrameTimestamp
        if t != (tt if in_samples else FrameTimestamp.from_dp_timetag(tt)):
            return None, 'time %r of the first sample, expected time tag %r (set %d)' % (t, tt, pos)
        nch = self.nch
        if data.shape[:2] != (self.nst * 2, nch * len(self.chans)) or data.shape[2] < m:
            return None, 'shape %s for %d frame sets' % (data.shape, m)
        if ci8:
            data = data['re'].astype(np.float32) + 1j * data['im'].astype(np.float32)
        for k in range(data.shape[2]):
            for a in range(len(self.chans)):
                raw = self.data.get((pos + k, a)) if k < m else None
                got = data[:, a * nch:(a + 1) * nch, k]
                w = 0 if raw is None else (LUT4[raw >> 4] + 1j * LUT4[raw & 15]).reshape(nch, -1).T
                if (got != w).any():
                    return None, 'channels %d.. of set %d are not those recorded%s' % (self.chans[a], pos + k, '' if raw is not None else ' (no frame: zeros expected)')
        return m, None


def run(r):
    r.trust('the compiled frame readers (properties C01, C02, C03, C05) and the frame buffer (C12)')
    r.assume('gaps shorter than the configured autofill size, none before the first frame set; time tags a whole number of steps apart',
             'no leap second within the recording',
             'the recording starts with 32 DRX frames (what DRXFile needs to recognise the data)')
    sys.path.insert(0, '/repo')
    F.install_real()
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from lsl.reader import ldp, errors
    from lsl.reader.utils import SplitFileWrapper
    from lsl.config import LSL_CONFIG
    L = 'lsl.reader.ldp.'

    # ------------------------------------------------------------------ contracts (Engine A) -----
    def chunked(kind, nset, nseg):
        """a recording of nset sets with any frames lost and any first time tag, read in chunks of any length"""
        ld = SymLoader(symbolic={'lsl.reader.ldp', 'lsl.reader.buffer'})
        S = ld.load('lsl.reader.ldp')
        tbx = kind == 'TBX'
        from checks.c12 import make_frame

        class Tok:
            """the samples of one frame; only moved, never looked at"""
            def __init__(self, what):
                self.what = what
                self.shape, self.dtype = (4096,), np.dtype(np.complex64)

            def view(self, *a, **k):
                return self
            reshape = astype = copy = view
            T = property(lambda s: s)

            def __setitem__(self, i, v):
                self.what = v

            def __mul__(self, v):
                self_ = Tok(0 if isinstance(v, (int, float)) and v == 0 else ('*', self.what))
                return self_
            __imul__ = __mul__

            def __deepcopy__(self, memo):
                return Tok(self.what)

        class Out:
            """the output array: which token sits where"""
            def __init__(self, shape):
                self.shape, self.cells, self.dtype = tuple(shape), {}, np.dtype(np.float64)

            def view(self, *a, **k):
                return self

            def __setitem__(self, i, v):
                if tbx:
                    _, b, c = i
                    key = (b.start // 16, int(c))
                    assert b.stop - b.start == 16 and b.start % 16 == 0 and (b.step or 1) == 1
                else:
                    a, b = i
                    assert b.stop - b.start == 4096 and b.start % 4096 == 0 and (b.step or 1) == 1
                    key = (int(a), b.start // 4096)
                assert key not in self.cells, 'two frames in one place'
                self.cells[key] = v

        class NP:
            def zeros(self, shape, dtype=None):
                return Out([int(X(k).__index__() if hasattr(X(k), '__index__') else k) if not isinstance(k, int) else k for k in shape])

            def __getattr__(self, k):
                return getattr(np, k)

        class FH:
            def __init__(self, frames):
                self.frames, self.i, self.size = frames, 0, len(frames)
                self.name = 'model'

            def tell(self):
                return self.i

        def rf(fh):
            if fh.i >= len(fh.frames):
                raise S.errors.EOFError()
            fh.i += 1
            return fh.frames[fh.i - 1]

        class Mod:
            def __init__(self, real):
                self.real = real

            def __getattr__(self, k):
                return rf if k in ('read_frame', 'read_frame_ci8') else 1 if k == 'FRAME_SIZE' else getattr(self.real, k)
        from lsl.reader import drx as rdrx, drx8 as rdrx8, tbx as rtbx
        S.drx, S.drx8, S.tbx, S.np = Mod(rdrx), Mod(rdrx8), Mod(rtbx), NP()
        cls = {'DRX': S.DRXFile, 'DRX8': S.DRX8File, 'TBX': S.TBXFile}[kind]
        ids = [100, 116] if tbx else [(2, 1, 1), (2, 2, 0)]
        SB = S.TBXFrameBuffer if tbx else S.DRXFrameBuffer if kind == 'DRX' else S.DRX8FrameBuffer

        def fn(cx):
            cx.hashable = True
            t0 = cx.int_input('t0', T0 + 1, 2 ** 60)
            off = 0 if tbx else cx.int_input('off', 0, 65535)
            dec = 10 if tbx else [10, 98][cx.int_input('dec', 0, 1).__index__()]
            step = [8192, 7840][cx.int_input('adp', 0, 1).__index__()] if tbx else 4096 * dec
            rate = FS / step if tbx else FS / dec
            frames, have = [], {}
            for k in range(nset):
                for a, i in enumerate(ids):
                    if k and bool(cx.bool_input('lost_%d_%d' % (k, a))):
                        continue
                    f = make_frame(kind, t0 + k * step, i, 0)
                    if not tbx:
                        f.header.time_offset = off
                        f.header.decimation = dec
                    else:
                        f.header.frame_id = 8
                    f.payload._data = Tok((k, a))
                    frames.append(f)
                    have[k, a] = True
            last = max(k for k, a in have)
            o = cls.__new__(cls)
            o.fh, o.ignore_timetag_errors = FH(frames), False
            o.filename = 'model'
            o.description = dict(size=len(frames), nframe=len(frames), frame_size=1, sample_rate=rate)
            if tbx:
                o.mapper = list(ids)
                o.description.update(nchan=32, frame_channel_count=16, nantenna=128)
                o.buffer = SB(chans=list(ids), nsegments=nseg)
            else:
                o.description.update(nbeampol=2)
                o.buffer = SB(beams=[2], tunes=[1, 2], pols=[0, 1], nsegments=nseg)
                o.buffer.possibleFrames = set(ids) if hasattr(o.buffer, 'possibleFrames') else None
                o.buffer.nFrames = 2
            pos = 0
            n = cx.int_input('n', 1, nset).__index__()
            jit = cx.real_input('jitter', Fraction(-2, 5), Fraction(2, 5))
            for _ in range(nset + 2):
                d = (n + jit) * (1 if tbx else 4096) / Fraction(rate)
                try:
                    dur, t, data = o.read(d, time_in_samples=True)
                except S.errors.EOFError:
                    break
                m = round(float(dur) * rate / (1 if tbx else 4096))
                cx.prove('read: the duration is that of a whole number of frame sets, not more than asked for', And(m >= 1, m <= n, abs(float(dur) * rate / (1 if tbx else 4096) - m) < 1e-6))
                if not tbx:
                    cx.prove('read: as much as asked for, or what is left', m == min(n, last + 1 - pos))
                cx.prove('read: the time of the first sample', X(t) == X(t0 + pos * step - off))
                want, got = {}, {}
                for k in range(m):
                    for a, i in enumerate(ids):
                        place = (a, k) if tbx else (2 * (i[1] - 1) + i[2], k)
                        if (pos + k, a) in have:
                            want[place] = (pos + k, a)
                for place, v in data.cells.items():
                    w = v.what if isinstance(v, Tok) else v
                    if not (w is 0 or (isinstance(w, int) and w == 0)):
                        got[place] = w
                cx.prove('read: every frame in its place, once; places without a frame are zero', got == want, info='%r, expected %r' % (got, want))
                pos += m
            else:
                cx.prove('read: the end of the file is reached', False)
            cx.prove('read: everything up to the last frame', pos == last + 1)
        return fn

    def cfn(kind):
        c = {'DRX': 'DRXFile', 'DRX8': 'DRX8File', 'TBX': 'TBXFile'}[kind]
        return [L + c + '.read', L + 'LDPFileBase._zero_fill', 'lsl.reader.buffer.FrameBufferBase.append', 'lsl.reader.buffer.FrameBufferBase.get', 'lsl.reader.buffer.FrameBufferBase.flush']

    def creplay(kind, nset, nseg):
        def f(i):
            tbx = kind == 'TBX'
            lost = {(k, a) for k in range(nset) for a in range(2) if i.get('lost_%d_%d' % (k, a))}
            pad = 0 if tbx else 16
            if tbx:
                rec = TbxSet(nset, lost, [100, 116], [8192, 7840][int(i.get('adp', 0))], int(i['t0']), 64, 16, 1)
            else:
                # sixteen more sets, because the real file needs 32 frames
                rec = DrxSet(nset + pad, {(k + pad, a) for k, a in lost}, [(1, 1), (2, 0)], [10, 98][int(i.get('dec', 0))], int(i['t0']), int(i.get('off', 0)), kind == 'DRX8', 1)
            trim(rec)
            return whole(rec, kind, [int(i['n'])], nseg, True, False)
        return f

    # ------------------------------------------------------------------ battery on the real code -
    def trim(rec):
        """sets lost at the very end cannot be known"""
        if rec.data:
            rec.nset = max(k for k, _ in rec.data) + 1

    def with_file(raw, split, fn):
        with tempfile.TemporaryDirectory(dir=scratch()) as d:
            if split:
                cut = sorted(split)
                names = []
                for j, (a, b) in enumerate(zip([0] + cut, cut + [len(raw)])):
                    names.append(os.path.join(d, 'part%02d' % j))
                    with open(names[-1], 'wb') as fh:
                        fh.write(raw[a:b])
                return fn(dict(fh=SplitFileWrapper(names)))
            p = os.path.join(d, 'raw.dat')
            with open(p, 'wb') as fh:
                fh.write(raw)
            return fn(dict(filename=p))

    KEY = {'DRX': 'ldp.drx_buffer_size', 'DRX8': 'ldp.drx_buffer_size', 'TBX': 'ldp.tbx_buffer_size'}

    def whole(rec, kind, chunks, nseg, in_samples, ci8, split=(), seq=False, auto=False):
        cls = {'DRX': ldp.DRXFile, 'DRX8': ldp.DRX8File, 'TBX': ldp.TBXFile}[kind]
        unit = 1 if kind == 'TBX' else 4096
        lost = sorted(rec.lost)
        if seq:
            chunks, ci8 = chunks[:1], False

        def go(kw):
            with LSL_CONFIG.set_temp(KEY[kind], nseg):
                f = (ldp.LWADataFile if auto else cls)(**kw)
                try:
                    if type(f) is not cls:
                        return 'LWADataFile takes a %s file for %s' % (kind, type(f).__name__)
                    for rnd in range(2 if not seq else 1):
                        pos = i = 0
                        if seq:
                            gen = f.read_sequence(chunks[0] * unit / float(rec.rate()), time_in_samples=in_samples)
                        while True:
                            n = chunks[i % len(chunks)]
                            i += 1
                            try:
                                kws = {} if not ci8 else {'return_ci8': True}
                                if seq:
                                    ret = next(gen)
                                else:
                                    ret = f.read(None if n is None else (n + [0, .3, -.4][i % 3]) * unit / float(rec.rate()), time_in_samples=in_samples, **kws)
                            except (errors.EOFError, StopIteration):
                                break
                            except Exception as e:
                                return '%s: read %d of chunk %r at set %d of %d, frames %s lost: %s: %s' % (kind, i, n, pos, rec.nset, lost[:8], type(e).__name__, e)
                            m, p = rec.problem(f, pos, n, ret, in_samples, ci8)
                            if p:
                                return '%s, chunks %r, %d segments, %d sets, frames %s lost, read %d: %s' % (kind, chunks, nseg, rec.nset, lost[:8], i, p)
                            pos += m
                            if i > 4 * rec.nset + 8:
                                return '%s: no end of file' % kind
                        if pos != rec.nset:
                            return '%s, chunks %r, frames %s lost: %d of %d sets read' % (kind, chunks, lost[:8], pos, rec.nset)
                        if rnd == 0 and not seq:
                            f.reset()
                finally:
                    f.close()
        return with_file(rec.raw, split, go)

    def rand_lost(g, nset, ns, first):
        lost = set()
        for _ in range(g.choice([0, 1, 1, 2, 3])):
            k = g.randrange(first, nset)
            if g.random() < .5:
                for j in range(k, min(nset, k + g.choice([1, 1, 2, 4]))):
                    lost |= {(j, a) for a in range(ns)}
            else:
                lost.add((k, g.randrange(ns)))
        return lost

    def case_drx(c):
        kind, seed = c
        g = random.Random(repr((r.seed, kind, seed)))
        tps = g.choice([TPS, TPS, TPS[:2], TPS[2:], [TPS[0]], [TPS[3]], [TPS[1], TPS[2]]])
        nset = 36 // len(tps) + g.randint(1, 9)
        lost = {(k, a) for k, a in rand_lost(g, nset, len(tps), 1)}
        rec = DrxSet(nset, lost, tps, g.choice([10, 20, 40, 98, 196, 392, 784]), g.randrange(T17, T38), g.randrange(65536), kind == 'DRX8', seed, shuffle=g.choice([0, 0, seed + 1]))
        if rec.nframe < 32:
            return None
        trim(rec)
        split = sorted(g.sample(range(1, len(rec.raw)), 2)) if g.random() < .2 else ()
        return whole(rec, kind, [g.choice([1, 2, 3, 5, 8, 30]) for _ in range(g.randint(1, 4))], g.choice([1, 2, 3, 4, 20]), g.random() < .5, g.random() < .3, split, seq=g.random() < .15, auto=g.random() < .2)

    def case_tbx(c):
        seed = c
        g = random.Random(repr((r.seed, 'tbx', seed)))
        nst = g.choice([64, 64, 128, 256])
        nch = g.choice([16, 4] if False else [16])
        a = g.randrange(200)
        chans = g.choice([[a], [a, a + 16], [a, a + 16, a + 32], [a, a + 48], [a, a + 16, a + 64]])
        nset = g.randint(6, 14)
        # the step between time tags is taken from the data: most neighbours must be there
        lost = rand_lost(g, nset, len(chans), 3)
        whole_lost = {k for k in range(nset) if all((k, a) in lost for a in range(len(chans)))}
        ts = [k for k in range(nset) if k not in whole_lost]
        ones = sum(1 for x, y in zip(ts, ts[1:]) if y == x + 1)
        if 2 * ones <= len(ts) - 1 + 1 or any((0, a) in lost for a in range(len(chans))):
            return None
        rec = TbxSet(nset, lost, chans, g.choice([8192, 7840]), g.randrange(T17, T38), nst, nch, seed, shuffle=g.choice([0, 0, seed + 1]))
        trim(rec)
        split = sorted(g.sample(range(1, len(rec.raw)), 2)) if g.random() < .2 else ()
        return whole(rec, 'TBX', [g.choice([1, 2, 3, 5, 30, None]) for _ in range(g.randint(1, 3))], g.choice([2, 3, 4, 25]), g.random() < .5, g.random() < .3, split, auto=len(rec.raw) > 20000 and g.random() < .2)

    # offset(): what it returns is how far the next read moved
    def case_offset(c):
        kind, pre, off, dec = c
        unit = 1 if kind == 'TBX' else 4096
        nset = 40
        rec = TbxSet(nset, set(), [100, 116], [8192, 7840][dec], T17 + 5000, 64, 16, 7) if kind == 'TBX' else \
            DrxSet(nset, set(), [(1, 0), (1, 1)], [10, 40][dec], T17 + 5000, 3, kind == 'DRX8', 7)
        cls = {'DRX': ldp.DRXFile, 'DRX8': ldp.DRX8File, 'TBX': ldp.TBXFile}[kind]
        step = unit / float(rec.rate())

        def go(kw):
            with LSL_CONFIG.set_temp(KEY[kind], 3):
                f = cls(**kw)
                try:
                    if pre:
                        f.read(pre * step)
                    # half a millionth of a step, so that the request is not rounded down a whole set
                    o = f.offset((off + 1e-6) * step) / step
                    what = '%s: offset(%.2f steps) after reading %d sets' % (kind, off, pre)
                    if abs(o - round(o)) > 1e-6:
                        return '%s returns %.6f steps' % (what, o)
                    if abs(o - off) > (1 if kind == 'TBX' or not pre else 2) + 1e-6:
                        return '%s moves %.3f steps' % (what, o)
                    pos = pre + int(round(o))
                    if f.get_remaining_frame_count() != (nset - pos) * 2:
                        return '%s: %d frames remain, expected %d' % (what, f.get_remaining_frame_count(), (nset - pos) * 2)
                    k = 0
                    while pos < nset:
                        m, p = rec.problem(f, pos, 4, f.read(4 * step, time_in_samples=True), True, False)
                        if p:
                            return '%s returns %.3f steps, but then %s' % (what, o, p)
                        pos += m
                        k += 1
                    try:
                        f.read(step)
                        return '%s: reads on after the end' % what
                    except errors.EOFError:
                        pass
                finally:
                    f.close()
        return with_file(rec.raw, (), go)

    # the description and the file position
    def case_info(c):
        kind, v = c
        g = random.Random(repr(('info', kind, v)))
        t0 = g.randrange(T17, T38)
        if kind == 'TBX':
            nst = g.choice([64, 128, 256])
            chans = g.choice([[16], [16, 32], [16, 48]])
            step = g.choice([8192, 7840])
            rec = TbxSet(6, set(), chans, step, t0, nst, 16, v)
        else:
            tps = g.choice([TPS, TPS[:2], TPS[2:], [TPS[1]]])
            rec = DrxSet(40 // len(tps), set(), tps, g.choice([10, 20, 40, 98, 196, 392, 784]), t0, g.randrange(65536), kind == 'DRX8', v)
        cls = {'DRX': ldp.DRXFile, 'DRX8': ldp.DRX8File, 'TBX': ldp.TBXFile}[kind]

        def go(kw):
            from lsl.reader.base import FrameTimestamp
            f = cls(**kw)
            try:
                if f.fh.tell() != 0:
                    return '%s: opened at byte %d' % (kind, f.fh.tell())
                size = len(rec.raw) // rec.nframe
                want = dict(size=len(rec.raw), nframe=rec.nframe, frame_size=size)
                if kind == 'TBX':
                    want.update(nantenna=2 * nst, nchan=16 * len(chans), frame_channel_count=16, start_time_samples=t0, start_time=FrameTimestamp.from_dp_timetag(t0), data_bits=4)
                    freq = np.concatenate([c + np.arange(16) for c in chans]) * float(rec.rate())
                    if f.get_info('freq1').shape != freq.shape or not np.allclose(f.get_info('freq1'), freq, rtol=1e-12):
                        return 'TBX: frequencies %s, expected %s' % (f.get_info('freq1'), freq)
                    if abs(f.get_info('sample_rate') - float(rec.rate())) > 1e-6:
                        return 'TBX: sample rate %r, expected %r' % (f.get_info('sample_rate'), float(rec.rate()))
                else:
                    w = {t: (0x60000000 + t) * FS / 2 ** 32 for t in (1, 2)}
                    want.update(nbeampol=len(tps), beam=2, data_bits=8 if kind == 'DRX8' else 4, start_time_samples=t0 - rec.off, start_time=FrameTimestamp.from_dp_timetag(t0, rec.off))
                    for k in (1, 2):
                        e = w[k] if any(t == k for t, _ in tps) else 0.0
                        if abs(f.get_info('freq%d' % k) - e) > 1e-3:
                            return '%s: freq%d is %r, expected %r' % (kind, k, f.get_info('freq%d' % k), e)
                    if abs(f.get_info('sample_rate') - FS / rec.dec) > 1e-6:
                        return '%s: sample rate %r, expected %r' % (kind, f.get_info('sample_rate'), FS / rec.dec)
                for k, e in want.items():
                    if f.get_info(k) != e or getattr(f, k) != e or f.info[k] != e:
                        return '%s: %s is %r, expected %r' % (kind, k, f.get_info(k), e)
                for k in range(rec.nframe):
                    if f.nframe_remaining != rec.nframe - k:
                        return '%s: %d frames remain after %d of %d' % (kind, f.nframe_remaining, k, rec.nframe)
                    fr = f.read_frame()
                    if f.fh.tell() != (k + 1) * size:
                        return '%s: read_frame leaves the file at %d' % (kind, f.fh.tell())
                    tt, = struct.unpack('>q', rec.raw[k * size + (20 if kind == 'TBX' else 16):][:8])
                    if fr.payload.timetag != tt:
                        return '%s: read_frame %d has time tag %r, expected %r' % (kind, k, fr.payload.timetag, tt)
                try:
                    f.read_frame()
                    return '%s: read_frame after the end' % kind
                except errors.EOFError:
                    pass
                f.reset()
                if f.fh.tell() != 0:
                    return '%s: reset leaves the file at %d' % (kind, f.fh.tell())
                if kind != 'TBX':
                    lv = f.estimate_levels(nframe=5, sigma=g.choice([1., 3.]))
                    if f.fh.tell() != 0:
                        return '%s: estimate_levels moves the file' % kind
                    if len(lv) != 4 or any(not (x >= 0) for x in lv):
                        return '%s: levels %r' % (kind, lv)
            finally:
                f.close()
            if not f.fh.closed:
                return '%s: close leaves the file open' % kind
        return with_file(rec.raw, (), go)

    # DR spectrometer
    def case_drspec(c):
        seed = c
        from checks.c05 import build, products, norm_of, FORMATS
        g = random.Random(repr((r.seed, 'drspec', seed)))
        fmt, nf, nints = g.choice(FORMATS), g.choice([32, 64, 128]), g.choice([96, 768, 6144])
        dec = g.choice([10, 20, 98, 196])
        prods = products(fmt)
        nset = g.randint(3, 20)
        t0, off = g.randrange(T17, T38), g.randrange(65536)
        step = nints * nf * dec
        fills = (nints, nints, nints, nints)
        D, out = [], []
        for k in range(nset):
            d = np.random.default_rng((seed, k)).random(2 * nf * len(prods)).astype('<f4')
            D.append(d.reshape(2, nf, len(prods)))
            out.append(build(fmt, nf, d, timetag=t0 + k * step, offset=off, dec=dec, words=(0x60000001, 0x60000002), fills=fills, nints=nints, beam=2))
        raw = b''.join(out)
        tint = step / FS
        chunks = [g.choice([1, 2, 3, 7, 50]) for _ in range(g.randint(1, 3))]
        in_samples = g.random() < .5
        auto = g.random() < .3
        pre, move = g.choice([(0, 0), (0, 0), (1, 1), (2, 0), (2, -1), (0, 2)])
        split = sorted(g.sample(range(1, len(raw)), 2)) if g.random() < .2 else ()

        def go(kw):
            from lsl.reader.base import FrameTimestamp
            f = (ldp.LWADataFile if auto else ldp.DRSpecFile)(**kw)
            try:
                if type(f) is not ldp.DRSpecFile:
                    return 'LWADataFile takes a spectrometer file for %s' % type(f).__name__
                want = dict(size=len(raw), nframe=nset, frame_size=len(out[0]), beam=2, LFFT=nf, nint=nints, nproduct=len(prods), data_products=prods,
                            start_time_samples=t0 - off, start_time=FrameTimestamp.from_dp_timetag(t0, off))
                for k, e in want.items():
                    if f.get_info(k) != e:
                        return 'DRSpec: %s is %r, expected %r' % (k, f.get_info(k), e)
                if abs(f.get_info('tint') - tint) > 1e-9 or abs(f.get_info('sample_rate') - FS / dec) > 1e-6:
                    return 'DRSpec: tint %r and sample rate %r, expected %r and %r' % (f.get_info('tint'), f.get_info('sample_rate'), tint, FS / dec)
                if f.fh.tell():
                    return 'DRSpec: opened at byte %d' % f.fh.tell()
                pos = i = 0
                if pre or move:
                    if pre:
                        f.read(pre * tint)
                    o = f.offset(move * tint) / tint
                    if abs(o - move) > 1e-6:
                        return 'DRSpec: offset by %d integrations returns %r' % (move, o)
                    pos = pre + move
                while True:
                    n = chunks[i % len(chunks)]
                    i += 1
                    try:
                        dur, t, data = f.read((n + [0, .3, -.4][i % 3]) * tint, time_in_samples=in_samples)
                    except errors.EOFError:
                        break
                    m = int(round(dur / tint))
                    if m != min(n, nset - pos) or abs(dur - m * tint) > 1e-9:
                        return 'DRSpec: duration %r (%d integrations) at %d of %d for %d' % (dur, m, pos, nset, n)
                    tt = t0 + pos * step
                    if t != (tt - off if in_samples else FrameTimestamp.from_dp_timetag(tt, off)):
                        return 'DRSpec: time %r for integration %d' % (t, pos)
                    if data.shape != (2 * len(prods), n, nf) or data.dtype != np.float32:
                        return 'DRSpec: shape %s' % (data.shape,)
                    for k in range(n):
                        for tun in (0, 1):
                            for j, p in enumerate(prods):
                                e = D[pos + k][tun, :, j] / np.float32(nf * nints) if k < m else 0
                                if not np.allclose(data[tun * len(prods) + j, k], e, rtol=2e-6, atol=0):
                                    return 'DRSpec: %s of tuning %d, integration %d is not what was recorded' % (p, tun + 1, pos + k)
                    pos += m
                    if i > nset + 5:
                        return 'DRSpec: no end of file'
                if pos != nset:
                    return 'DRSpec: %d of %d integrations read' % (pos, nset)
            finally:
                f.close()
        return with_file(raw, split, go)

    # correlator data: 32896 baselines for every integration
    def case_cor(c):
        nint, how = c
        nch, navg = 33, 5
        NB = 256 * 257 // 2
        blocks = (228 + nch, 228) if how == 'blocks' else (228,)
        t0, step = T17 + 12345, 0
        from lsl.common.ndp import T2
        step = int(round(navg * T2 * FS))
        pairs = [(i, j) for i in range(1, 257) for j in range(i, 257)]
        hdr = np.dtype([('sync', '>u4'), ('fc', '>u4'), ('sc', '>u4'), ('chan', '>i2'), ('gain', '>i2'), ('tt', '>i8'), ('navg', '>i4'), ('s0', '>i2'), ('s1', '>i2'), ('vis', '<f4', (nch * 8,))])
        lost = {(1, 77), (1, 32895)} if how == 'lost' else set()
        recs = []
        for k in range(nint):
            parts = []
            for blk in blocks:
                a = np.zeros(NB, hdr)
                a['sync'], a['fc'], a['chan'], a['gain'], a['tt'], a['navg'] = 0xDEC0DE5C, 2 << 24 | 1, blk, 1, t0 + k * step, navg
                a['s0'], a['s1'] = [p[0] for p in pairs], [p[1] for p in pairs]
                a['vis'] = (np.arange(NB)[:, None] * 16 + k) + (np.arange(nch * 8)[None, :] + (blk - 228) // nch * nch * 8) / 1024.
                keep = np.ones(NB, bool)
                for kk, b in lost:
                    if kk == k:
                        keep[b] = False
                parts.append(a[keep])
            both = np.zeros((len(parts[0]), len(parts)), hdr)
            for q, a in enumerate(parts):
                both[:, q] = a
            recs.append(both.tobytes())           # blocks of channels take turns (get_channel_count expects each within 64 frames)
        raw = b''.join(recs)

        def go(kw):
            from lsl.reader.base import FrameTimestamp
            with LSL_CONFIG.set_temp('ldp.cor_buffer_size', 2):
                f = ldp.CORFile(**kw)
                try:
                    tint = navg * T2
                    for k, e in dict(nframe=nint * NB * len(blocks) - len(lost), nbaseline=NB, nchan=nch * len(blocks), start_time_samples=t0, start_time=FrameTimestamp.from_dp_timetag(t0)).items():
                        if f.get_info(k) != e:
                            return 'COR: %s is %r, expected %r' % (k, f.get_info(k), e)
                    pos, i = 0, 0
                    while True:
                        i += 1
                        if how == 'offset' and i == 2:
                            o = f.offset(1.5 * tint) / tint
                            if abs(o - 1) > 1e-6:
                                return 'COR: offset by one integration returns %r' % o
                            pos += 1
                        try:
                            dur, t, data = f.read({'all': None, 'pairs': 2 * tint}.get(how, tint), time_in_samples=(how != 'lost'))
                        except errors.EOFError:
                            break
                        m = int(round(dur / tint))
                        if m != {'all': nint, 'pairs': min(2, nint - pos)}.get(how, 1):
                            return 'COR: %d integrations of %d read (%s)' % (m, nint, how)
                        tt = t0 + pos * step
                        if t != (tt if how != 'lost' else FrameTimestamp.from_dp_timetag(tt)):
                            return 'COR: time %r, expected time tag %r' % (t, tt)
                        for k in range(m):
                            w = ((np.arange(NB)[:, None] * 16 + pos + k) + np.arange(nch * len(blocks) * 8)[None, :] / 1024.).astype('<f4')
                            w = w.view('<c8').reshape(NB, nch * len(blocks), 2, 2).copy()
                            auto = np.array([p[0] == p[1] for p in pairs])
                            w[auto, :, 1, 0] = w[auto, :, 0, 1].conj()        # autocorrelations: YX from XY (C03)
                            for kk, b in lost:
                                if kk == pos + k:
                                    w[b] = 0
                            if data.shape[:4] != w.shape or (data[..., k] != w).any():
                                return 'COR: integration %d is not what was recorded' % (pos + k)
                        pos += m
                    if pos != nint:
                        return 'COR: %d of %d integrations read' % (pos, nint)
                finally:
                    f.close()
        return with_file(raw, (), go)

    N = 4 if r.thorough else 1
    r.functions.extend([L + 'LDPFileBase.' + m for m in ('__init__', 'get_info', 'get_remaining_frame_count', 'reset', 'close', 'read_sequence')] +
                       [L + c + '.' + m for c in ('DRXFile', 'DRX8File', 'TBXFile', 'CORFile', 'DRSpecFile') for m in ('_ready_file', '_describe_file', 'offset', 'read_frame', 'read')] + [L + 'LWADataFile'])
    r.bounded.append('contracts: recordings of up to 4 frame sets of 2 streams, ring buffers of 1 to 3 sets, any loss pattern, any first time tag, any chunk length; battery: recordings of up to 45 sets')
    with r.parallel():
        for kind in ('DRX', 'DRX8', 'TBX'):
            for nset, nseg in ((4, 1 if kind != 'TBX' else 3), (4, 2), (3, 3)) if not r.thorough else ((5, 2), (5, 3), (4, 4), (5, 1 if kind != 'TBX' else 5)):
                r.contract('%s read in chunks: %d sets, %d segments' % (kind, nset, nseg), chunked(kind, nset, nseg), cfn(kind), replay=creplay(kind, nset, nseg),
                           bounded='%d frame sets of two streams, ring buffer of %d' % (nset, nseg))
        r.concrete('DRX and DRX8 recordings read in chunks', [(k, s) for s in range(150 * N) for k in ('DRX', 'DRX8')], case_drx, limit_s=150 * N)
        r.concrete('TBX recordings read in chunks', list(range(400 * N)), case_tbx, limit_s=120 * N)
        r.concrete('DR spectrometer recordings read in chunks', list(range(120 * N)), case_drspec, limit_s=60 * N)
        r.concrete('offset', [(k, p, o, d) for d in (0, 1) for k in ('DRX', 'DRX8', 'TBX') for p in (0, 1, 2, 5, 9) for o in (0, 1, 1.5, 2, 3, 6, 10) + ((-1, -2) if p > 4 else ())], case_offset, limit_s=150)
        r.concrete('description, position and single frames', [(k, v) for v in range(8) for k in ('DRX', 'DRX8', 'TBX')], case_info, limit_s=60)
        r.concrete('COR recordings', [(3, 'all'), (3, 'one'), (3, 'offset'), (3, 'lost'), (3, 'pairs'), (2, 'blocks')], case_cor, limit_s=150)
