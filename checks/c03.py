"""C03: COR frames decode to exactly what the bytes say."""
import io
import struct
import sys
import numpy as np
from pv import frames as F, views
from pv.frames import be, le, bv, int_is, bits_is, prove_free, call_reader, guard
import z3

SYNC = bytes([0xDE, 0xC0, 0xDE, 0x5C])
CHANS = (33, 72, 112, 192)
HDR = 32


def size(nc):
    return HDR + nc * 32


def run(r):
    r.trust('clang 18 (C++ to LLVM IR at -O0) and LLVM mem2reg', 'contracts for the CPython/NumPy C API (pv/capi.py)')
    r.assume('g++ code generation (checked by the battery on the compiled extension)',
             'no visibility at channel 33, 72 or 112 has the bit pattern of the sync word (5.02e17): the frame format carries no channel count, so the reader uses the next sync word',
             'first channel and gain below 32768 (the channel number of real data is below 4096)',
             'the channel count does not grow between reads (known finding otherwise)')
    sys.path.insert(0, '/repo')
    F.install_real()
    views.cor(r)
    from lsl.reader import cor, errors
    from lsl.reader.base import FrameTimestamp

    def check_frame(fr, raw):
        nc = (len(raw) - HDR) // 32
        h = dict(adp_id=raw[4], frame_count=int.from_bytes(raw[5:8], 'big'), second_count=int.from_bytes(raw[8:12], 'big'),
                 first_chan=int.from_bytes(raw[12:14], 'big'), gain=int.from_bytes(raw[14:16], 'big'))
        for k, v in h.items():
            if getattr(fr.header, k) != v and not (k in ('first_chan', 'gain') and v > 32767):
                return 'header field %s is %r, the bytes say %r' % (k, getattr(fr.header, k), v)
        p = dict(zip(('timetag', 'navg', 'stand0', 'stand1'), struct.unpack('>qihh', raw[16:32])))
        for k, v in p.items():
            if getattr(fr.payload, k) != v:
                return 'payload field %s is %r, the bytes say %r' % (k, getattr(fr.payload, k), v)
        d = fr.payload.data
        if d.dtype != np.complex64 or d.shape != (nc, 2, 2):
            return 'data type %s shape %s for %d channels' % (d.dtype, d.shape, nc)
        e = np.frombuffer(raw[HDR:], '<u4').reshape(nc, 2, 2, 2).copy()
        if p['stand0'] == p['stand1']:
            e[:, 1, 0, 0] = e[:, 0, 1, 0]
            e[:, 1, 0, 1] = e[:, 0, 1, 1] ^ 0x80000000
        g = np.ascontiguousarray(d).view('<u4').reshape(nc, 2, 2, 2)
        isnan = np.isnan(e.view('<f4'))
        bad = np.argwhere((g != e) & ~(isnan & np.isnan(g.view('<f4'))))
        if len(bad):
            k = tuple(bad[0])
            return 'visibility %s has bits %08x, the bytes say %08x' % (k, g[k], e[k])
        if tuple(fr.id) != (p['stand0'], p['stand1']) or fr.is_cor != (raw[4] in (2, 6)) or fr.gain != fr.header.gain or fr.adp_id != raw[4]:
            return 'frame views'
        if abs(fr.integration_time - p['navg'] * 0.01) > 1e-9 * abs(p['navg']) + 1e-12:
            return 'integration time of %d' % p['navg']
        f = (np.arange(nc) + fr.header.first_chan) * (196e6 / 8192)
        if fr.channel_freqs.shape != (nc,) or not np.allclose(fr.channel_freqs, f, rtol=3e-7, atol=0.01):
            return 'channel frequencies'
        if 0 <= p['timetag'] < 196000000 * 6e9:
            if fr.time != FrameTimestamp.from_dp_timetag(p['timetag']) or abs(float(fr.time) - p['timetag'] / 196e6) > 1e-5:
                return 'time of timetag %d' % p['timetag']
        return None

    def reset():
        """bring the reader back to its start-up state (192 channels): a bad sync word does that"""
        for _ in range(5):
            try:
                cor.read_frame(io.BytesIO(bytes(8000)))
            except errors.SyncError:
                pass

    def markers(raw):
        nc = (len(raw) - HDR) // 32
        return any(c < nc and raw[HDR + c * 32:HDR + c * 32 + 4] == SYNC for c in CHANS)

    def check_bytes(raw, tail, pre=True):
        """raw: one frame; tail: what follows it in the file"""
        if pre:
            reset()
        fh = io.BytesIO(b'\x00' * 7 + raw + tail)
        fh.seek(7)
        good = raw[:4] == SYNC
        try:
            fr = cor.read_frame(fh)
        except errors.SyncError as e:
            if good:
                return 'frame with a good sync word rejected'
            if e.location != 7 or fh.tell() != 7:
                return 'sync error location %r, file left at %d, instead of 7' % (e.location, fh.tell())
            return None
        except errors.EOFError:
            if good:
                return 'complete frame of %d bytes reported as end of file (%d bytes follow)' % (len(raw), len(tail))
            return None
        if not good:
            return 'frame with sync word %s accepted' % raw[:4].hex()
        if fh.tell() != 7 + len(raw):
            return 'file left at %d after a %d byte frame' % (fh.tell() - 7, len(raw))
        return check_frame(fr, raw)

    def truncated(nc, cuts, rng):
        raw = make(rng, nc)
        for k in cuts:
            if k - HDR in [c * 32 for c in CHANS if c < nc]:
                continue                      # what is left is a complete frame of fewer channels
            reset()
            try:
                cor.read_frame(io.BytesIO(raw[:k]))
            except errors.EOFError:
                continue
            return '%d of %d bytes did not raise EOFError' % (k, len(raw))

    def failing():
        class Bad:
            def read(self, n):
                raise OSError('boom')

            def tell(self):
                return 0
        for b in (Bad(), object()):
            try:
                cor.read_frame(b)
            except (errors.EOFError, errors.SyncError):
                return 'failing read reported as end of file'
            except Exception:
                continue
            return 'failing read not reported'

    def make(rng, nc, auto=None):
        while True:
            raw = bytearray(rng.randint(0, 256, size(nc), dtype=np.uint8).tobytes())
            raw[:4] = SYNC
            if auto is None:
                auto = rng.randint(3) == 0
            if rng.rand() < 0.7:
                raw[4] = 2
                raw[16:24] = struct.pack('>q', 196000000 * (1400000000 + rng.randint(1000000)) + rng.randint(0, 196000000))
                raw[HDR:] = rng.randn(nc * 8).astype('<f4').tobytes()
            raw[12] &= 127
            raw[14] &= 127
            s = rng.randint(1, 257)
            raw[28:32] = struct.pack('>hh', s, s if auto else s + 1 + rng.randint(5))
            if not markers(raw):
                return bytes(raw)

    fns = ['lsl/reader/cor.cpp:read_cor', 'lsl/reader/cor.cpp:read_cor_impl']
    M = 'read_cor'
    fxs = {k: SYNC[k] for k in range(4)}

    def unmarked(cx, f, nc, base=0):
        for c in CHANS:
            if c < nc:
                cx.assume(be(f, base + HDR + 32 * c, 4) != 0xDEC0DE5C)

    class PreFile:
        def __init__(self, cx):
            self.cx = cx

        def byte(self, k):
            return z3.BitVec('b%d' % k, 8)

    def prove_decoded(cx, res, nc, base):
        f = res.file
        cx.prove(M + ': a complete frame is accepted', res.err is None and res.frame_ok)
        if res.err:
            return
        P = lambda n, g: prove_free(cx, '%s: %s' % (M, n), g)
        P('id', int_is(res.env, res.h.get('adp_id'), be(f, base + 4, 1)))
        P('frame count', int_is(res.env, res.h.get('frame_count'), be(f, base + 5, 3)))
        P('second count', int_is(res.env, res.h.get('second_count'), be(f, base + 8, 4)))
        for nm, at, o in (('first channel', 'first_chan', 12), ('gain', 'gain', 14)):
            P(nm, z3.Implies(z3.ULT(be(f, base + o, 2), 32768), int_is(res.env, res.h.get(at), be(f, base + o, 2))))
        P('timetag', int_is(res.env, res.p.get('timetag'), be(f, base + 16, 8), True))
        P('integration count', int_is(res.env, res.p.get('navg'), be(f, base + 24, 4), True))
        P('first stand', int_is(res.env, res.p.get('stand0'), be(f, base + 28, 2), True))
        P('second stand', int_is(res.env, res.p.get('stand1'), be(f, base + 30, 2), True))
        cx.prove(M + ': file left at the end of the frame', res.end == base + size(nc))
        d = res.p['_data'].o.attrs
        cx.prove(M + ': array shape', d['typ'] == 14 and d['dims'] == [nc, 2, 2] and not d.get('order'))
        m = d['mem']
        same = be(f, base + 28, 2) == be(f, base + 30, 2)
        auto = cx._check(z3.Not(same)) == z3.unsat
        if not auto and cx._check(same) != z3.unsat:
            cx.prove(M + ': auto-correlations are treated apart', z3.BoolVal(False))
            return
        cx.cover('auto' if auto else 'cross')
        for i in range(nc * 4):
            o = 8 * i
            s = o - 8 if auto and i % 4 == 2 else o          # YX of an auto-correlation is the conjugate of XY
            P('visibility real part', bits_is(res.ex, m, o, le(f, base + HDR + s, 4)))
            P('visibility imaginary part', bits_is(res.ex, m, o + 4, le(f, base + HDR + s + 4, 4), neg=s != o))

    F.module()
    with r.parallel():
        for nc in CHANS:
            N = size(nc)

            def dec(cx, nc=nc, N=N):
                last = bool(cx.decide(z3.Bool('last')))
                cx.inputs['last'] = last
                fx = dict(fxs)
                if not last:
                    fx.update((N + k, SYNC[k]) for k in range(4))
                unmarked(cx, PreFile(cx), nc)
                res = guard(cx, M, lambda: call_reader(cx, M, fx, size=N if last else N + 6200))
                if res is not None:
                    prove_decoded(cx, res, nc, 0)

            def rep(inputs, nc=nc, N=N):
                raw = F.inputs_to_bytes(inputs, N, fxs)
                return check_bytes(raw, b'') or check_bytes(raw, SYNC + bytes(8000))
            r.contract('read_cor decodes every %d channel frame' % nc, dec, fns, rep, covers=['auto', 'cross'])

            def hist(cx, nc=nc, N=N):
                fx = dict(fxs)
                fx.update((N + k, SYNC[k]) for k in range(4))
                fx.update((2 * N + k, SYNC[k]) for k in range(4))
                unmarked(cx, PreFile(cx), nc)
                unmarked(cx, PreFile(cx), nc, N)
                for b in (0, N):
                    cx.assume(be(PreFile(cx), b + 28, 2) != be(PreFile(cx), b + 30, 2))
                out = guard(cx, M, lambda: call_reader(cx, M, fx, size=2 * N, calls=2))
                if out is not None:
                    prove_decoded(cx, out[1], nc, N)

            def hrep(inputs, nc=nc):
                return sequence([nc] * 3, 7)
            r.contract('read_cor: second %d channel frame of a file' % nc, hist, fns, hrep, covers=['cross'])

            def cut(cx, nc=nc, N=N):
                c = z3.BitVec('cut', 64)
                cx.inputs['cut'] = c
                cx.assume(z3.ULT(c, N))
                for k in CHANS:
                    if k < nc:
                        cx.assume(c != size(k))
                unmarked(cx, PreFile(cx), nc)
                res = guard(cx, M, lambda: call_reader(cx, M, fxs, size=c))
                if res is not None:
                    cx.prove('%s: fewer than %d bytes is end of file' % (M, N), res.err == 'EOFError' and not res.h and not res.p)
            r.contract('read_cor: truncated frame (%d channels)' % nc, cut, fns,
                       lambda i, nc=nc: truncated(nc, [int(i.get('cut') or 0)], np.random.RandomState(3)))

        def sync(cx):
            N = size(192)
            unmarked(cx, PreFile(cx), 192)
            res = guard(cx, M, lambda: call_reader(cx, M, None, size=N + 100))
            if res is None:
                return
            good = be(res.file, 0, 4) == 0xDEC0DE5C
            cx.prove(M + ': accepted if and only if the sync word is right', good if res.err is None else z3.Not(good))
            if res.err is not None:
                cx.prove(M + ': bad sync word reported, file back at the frame start', res.err == 'SyncError' and not res.h and not res.p and res.file.pos == 0)
                cx.cover('bad')
            else:
                cx.cover('good')
        r.contract('read_cor sync word', sync, ['lsl/reader/readers.hpp:validSync5C'],
                   lambda i: check_bytes(F.inputs_to_bytes(i, size(192)), bytes(100)), covers=['bad', 'good'])

        def fail(cx):
            which = cx.int_input('mode', 0, 1).__index__()
            res = guard(cx, M, lambda: call_reader(cx, M, None, mode=('error', 'noread')[which]))
            if res is not None:
                cx.prove('%s: failing read is an error' % M, res.err is not None and not res.h and not res.p)
        r.contract('read_cor: read failure', fail, fns, lambda i: failing())

    def sequence(ncs, seed, pre=True):
        rng = np.random.RandomState(seed)
        if pre:
            reset()
        raws = [make(rng, nc) for nc in ncs]
        fh = io.BytesIO(b''.join(raws))
        for k, raw in enumerate(raws):
            try:
                fr = cor.read_frame(fh)
            except Exception as e:
                return 'frame %d of channels %s: %s' % (k, ncs, type(e).__name__)
            e = check_frame(fr, raw)
            if e:
                return 'frame %d of channels %s: %s' % (k, ncs, e)
        try:
            cor.read_frame(fh)
            return 'frame read past the end'
        except errors.EOFError:
            pass

    def one(c):
        mode, seed = c[0], c[-1]
        rng = np.random.RandomState(seed % (1 << 31))
        nc = CHANS[rng.randint(4)]
        if mode == 'seq':
            return sequence([c[1]] * (1 + rng.randint(6)), seed)
        if mode == 'two files':
            return sequence([c[1]] * 4, seed) or sequence([c[2]] * 4, seed, pre=False)
        raw = bytearray(make(rng, nc))
        if mode == 'bad':
            raw[rng.randint(4)] ^= 1 << rng.randint(8)
            return check_bytes(bytes(raw), SYNC + bytes(9000))
        if mode == 'trunc':
            N = size(nc)
            return truncated(nc, [0, 1, 31, 32, N - 1, rng.randint(N)], rng)
        if mode == 'fail':
            return failing()
        return check_bytes(bytes(raw), b'') or check_bytes(bytes(raw), SYNC + bytes(9000)) or check_bytes(bytes(raw), SYNC + bytes(rng.randint(6000)))

    def cases():
        k = r.seed * 100003
        yield ('fail', 0)
        for a in CHANS:
            for j in range(6):
                yield ('seq', a, k + 1000 + j)
            for b in CHANS:
                yield ('two files', a, b, k)
        for mode, n in (('one', 60), ('bad', 60), ('trunc', 30)):
            for j in range(n * (10 if r.thorough else 1)):
                k += 1
                yield (mode, k)
    r.concrete('COR frames read by the compiled extension', cases(), one, limit_s=90)
