"""C02: TBX frames decode to exactly what the bytes say, whatever was read before."""
import io
import struct
import sys
import numpy as np
from pv import frames as F, views
from pv.frames import be, bv, int_is, float_is, int8_is, nib, prove_free, call_reader, guard
import z3

SYNC = bytes([0xDE, 0xC0, 0xDE, 0x5C])
STANDS = (64, 128, 256)
CHANS = (4, 8, 12, 16)
HDR = 28


def size(ns, nc):
    return HDR + ns * nc * 2


def fixed(ns, nc, base=0, sync=True):
    f = {}
    if sync:
        f.update((base + k, SYNC[k]) for k in range(4))
    for k, v in enumerate(struct.pack('>HH', ns, nc)):
        f[base + 16 + k] = v
    return f


def run(r):
    r.trust('clang 18 (C++ to LLVM IR at -O0) and LLVM mem2reg', 'contracts for the CPython/NumPy C API (pv/capi.py)')
    r.assume('g++ code generation (checked by the battery on the compiled extension)', 'first channel numbers below 2^31 (the channel field of real data is below 4096)')
    sys.path.insert(0, '/repo')
    F.install_real()
    views.tbx(r)
    from lsl.reader import tbx, errors
    from lsl.reader.base import FrameTimestamp, CI8

    def check_frame(fr, raw, ci8):
        ns, nc = struct.unpack('>HH', raw[16:20])
        h = dict(frame_id=raw[4], frame_count=int.from_bytes(raw[5:8], 'big'), second_count=int.from_bytes(raw[8:12], 'big'),
                 nstand=ns, nchan=nc)
        fc = int.from_bytes(raw[12:16], 'big')
        if fc < 1 << 31:
            h['first_chan'] = fc
        for k, v in h.items():
            if getattr(fr.header, k) != v:
                return 'header field %s is %r, the bytes say %r' % (k, getattr(fr.header, k), v)
        tt = struct.unpack('>q', raw[20:28])[0]
        if fr.payload.timetag != tt:
            return 'timetag is %r, the bytes say %r' % (fr.payload.timetag, tt)
        b = np.frombuffer(raw[HDR:], np.uint8).astype(int)
        hi, lo = b >> 4, b & 15
        re, im = np.where(hi > 7, hi - 16, hi).reshape(nc, ns, 2), np.where(lo > 7, lo - 16, lo).reshape(nc, ns, 2)
        d = fr.payload.data
        if d.dtype != (CI8 if ci8 else np.complex64):
            return 'data type %s' % d.dtype
        if ci8 and d.shape == (nc, ns, 2, 1):
            d = d[..., 0]
        if d.shape != (nc, ns, 2):
            return 'data shape %s for %d channels and %d stands' % (d.shape, nc, ns)
        dre, dim = (d['re'].astype(int), d['im'].astype(int)) if ci8 else (d.real, d.imag)
        bad = np.argwhere((dre != re) | (dim != im))
        if len(bad):
            k = tuple(bad[0])
            return 'sample %s is %s,%s, the bytes say %d,%d' % (k, dre[k], dim[k], re[k], im[k])
        if fr.is_tbx != (raw[4] == 8) or fr.header.is_tbx != (raw[4] == 8):
            return 'TBX mark for id %d' % raw[4]
        if fr.nstand != ns or fr.nchan != nc or fr.frame_id != raw[4]:
            return 'frame views'
        if fc < 1 << 31:
            e = (np.arange(nc) + fc) * (196e6 / 8192)
            if fr.channel_freqs.shape != (nc,) or not np.allclose(fr.channel_freqs, e, rtol=3e-7, atol=0.01):
                return 'channel frequencies for first channel %d' % fc
        if 0 <= tt < 196000000 * 6e9:
            if fr.time != FrameTimestamp.from_dp_timetag(tt) or abs(float(fr.time) - tt / 196e6) > 1e-5:
                return 'time of timetag %d' % tt
        return None

    def reset():
        """leave the reader in its start-up state (256 stands, 16 channels)"""
        raw = bytearray(size(256, 16))
        raw[:4] = SYNC
        raw[16:20] = struct.pack('>HH', 256, 16)
        tbx.read_frame(io.BytesIO(bytes(raw) * 2))

    def check_bytes(raw, ci8, tail=b'', pre=True):
        if pre:
            reset()
        rd = tbx.read_frame_ci8 if ci8 else tbx.read_frame
        fh = io.BytesIO(b'\x00' * 7 + raw + tail)
        fh.seek(7)
        ns, nc = struct.unpack('>HH', raw[16:20])
        good = raw[:4] == SYNC and ns in STANDS and nc in CHANS
        try:
            fr = rd(fh)
        except errors.SyncError as e:
            if good:
                return 'good frame of %d stands and %d channels rejected' % (ns, nc)
            if e.location != 7 or fh.tell() != 7:
                return 'sync error location %r, file left at %d, instead of 7' % (e.location, fh.tell())
            return None
        except errors.EOFError:
            if good:
                return 'complete frame of %d stands and %d channels reported as end of file' % (ns, nc)
            return None if len(raw + tail) < size(256, 16) else 'end of file reported'
        if not good:
            return 'frame with sync word %s, %d stands, %d channels accepted' % (raw[:4].hex(), ns, nc)
        if fh.tell() != 7 + size(ns, nc):
            return 'file left at %d after a %d byte frame' % (fh.tell() - 7, size(ns, nc))
        return check_frame(fr, raw, ci8)

    def truncated(ns, nc, ci8, cuts):
        raw = bytearray(size(ns, nc))
        raw[:4] = SYNC
        raw[16:20] = struct.pack('>HH', ns, nc)
        for k in cuts:
            reset()
            try:
                (tbx.read_frame_ci8 if ci8 else tbx.read_frame)(io.BytesIO(bytes(raw[:k])))
            except errors.EOFError:
                continue
            return '%d of %d bytes did not raise EOFError' % (k, len(raw))

    def failing(ci8):
        class Bad:
            def read(self, n):
                raise OSError('boom')

            def tell(self):
                return 0
        for b in (Bad(), object()):
            try:
                (tbx.read_frame_ci8 if ci8 else tbx.read_frame)(b)
            except (errors.EOFError, errors.SyncError):
                return 'failing read reported as end of file'
            except Exception:
                continue
            return 'failing read not reported'

    def make(rng, ns, nc, real=False):
        raw = bytearray(rng.randint(0, 256, size(ns, nc), dtype=np.uint8).tobytes())
        raw[:4] = SYNC
        raw[16:20] = struct.pack('>HH', ns, nc)
        if real or rng.rand() < 0.7:
            raw[4] = 8
            raw[12:16] = struct.pack('>I', rng.randint(0, 4096))
            raw[20:28] = struct.pack('>q', 196000000 * (1400000000 + rng.randint(1000000)) + rng.randint(0, 196000000))
        return bytes(raw)

    def sequence(modes, ci8, seed):
        rng = np.random.RandomState(seed)
        raws = [make(rng, *m) for m in modes]
        fh = io.BytesIO(b''.join(raws))
        for k, raw in enumerate(raws):
            c = bool((k + ci8) % 2) if seed % 2 else ci8
            try:
                fr = (tbx.read_frame_ci8 if c else tbx.read_frame)(fh)
            except Exception as e:
                return 'frame %d of modes %s: %s' % (k, modes, type(e).__name__)
            e = check_frame(fr, raw, c)
            if e:
                return 'frame %d of modes %s: %s' % (k, modes, e)
        try:
            tbx.read_frame(fh)
            return 'frame read past the end'
        except errors.EOFError:
            pass

    def prove_decoded(cx, method, ci8, res, ns, nc, base, samples=True):
        f = res.file
        cx.prove(method + ': a complete frame is accepted', res.err is None and res.frame_ok)
        if res.err:
            return
        P = lambda n, g: prove_free(cx, '%s: %s' % (method, n), g)
        P('id', int_is(res.env, res.h.get('frame_id'), be(f, base + 4, 1)))
        P('frame count', int_is(res.env, res.h.get('frame_count'), be(f, base + 5, 3)))
        P('second count', int_is(res.env, res.h.get('second_count'), be(f, base + 8, 4)))
        fc = be(f, base + 12, 4)
        g = int_is(res.env, res.h.get('first_chan'), fc)
        P('first channel', z3.Implies(z3.ULT(fc, 1 << 31), g) if not isinstance(g, bool) else g)
        P('number of stands', int_is(res.env, res.h.get('nstand'), ns))
        P('number of channels', int_is(res.env, res.h.get('nchan'), nc))
        P('timetag', int_is(res.env, res.p.get('timetag'), be(f, base + 20, 8), True))
        cx.prove(method + ': file left at the end of the frame', res.end == base + size(ns, nc))
        d = res.p['_data'].o.attrs
        cx.prove(method + ': array shape', d['typ'] == (1 if ci8 else 14) and d['dims'] == [nc, ns, 4 if ci8 else 2] and not d.get('order'))
        if not samples:
            return
        m = d['mem']
        for i in range(ns * nc * 2):
            b = bv(f.byte(base + HDR + i), 8)
            for k in (0, 1):
                P('sample values', int8_is(res.ex, m, 2 * i + k, nib(b, not k)) if ci8 else float_is(res.ex, m, 8 * i + 4 * k, nib(b, not k)))

    fns = ['lsl/reader/tbx.cpp:read_tbx', 'lsl/reader/tbx.cpp:read_tbx_impl', 'lsl/reader/gofast.cpp:initLWALUTs']
    F.module()
    with r.parallel():
        for ci8 in (False, True):
            method = 'read_tbx_ci8' if ci8 else 'read_tbx'
            for ns in STANDS[::-1]:
                for nc in CHANS[::-1]:
                    N = size(ns, nc)

                    def dec(cx, ns=ns, nc=nc, N=N, method=method, ci8=ci8):
                        last = bool(cx.decide(z3.Bool('last')))
                        cx.inputs['last'] = last
                        res = guard(cx, method, lambda: call_reader(cx, method, fixed(ns, nc), size=N if last else N + 8220))
                        if res is not None:
                            prove_decoded(cx, method, ci8, res, ns, nc, 0, samples=not last)

                    def rep(inputs, ns=ns, nc=nc, N=N, ci8=ci8):
                        raw = F.inputs_to_bytes(inputs, N, fixed(ns, nc))
                        return check_bytes(raw, ci8) or check_bytes(raw, ci8, b'\x00' * 9000)
                    r.contract('%s decodes every %dx%d frame' % (method, ns, nc), dec, fns, rep)
            for ns, nc in ((256, 16), (64, 4), (128, 12)):
                N = size(ns, nc)

                def sync(cx, ns=ns, nc=nc, N=N, method=method):
                    res = guard(cx, method, lambda: call_reader(cx, method, fixed(ns, nc, sync=False), size=N + 8220))
                    if res is None:
                        return
                    good = be(res.file, 0, 4) == 0xDEC0DE5C
                    cx.prove(method + ': accepted if and only if the sync word is right', good if res.err is None else z3.Not(good))
                    if res.err is not None:
                        cx.prove(method + ': bad sync word reported, file back at the frame start', res.err == 'SyncError' and not res.h and not res.p and res.file.pos == 0)
                        cx.cover('bad')
                    else:
                        cx.cover('good')

                def srep(inputs, ns=ns, nc=nc, N=N, ci8=ci8):
                    return check_bytes(F.inputs_to_bytes(inputs, N, fixed(ns, nc, sync=False)), ci8, b'\x00' * 9000)
                r.contract('%s sync word (%dx%d)' % (method, ns, nc), sync, ['lsl/reader/readers.hpp:validSync5C'], srep, covers=['bad', 'good'])

                def cut(cx, ns=ns, nc=nc, N=N, method=method):
                    c = z3.BitVec('cut', 64)
                    cx.inputs['cut'] = c
                    cx.assume(z3.ULT(c, N))
                    res = guard(cx, method, lambda: call_reader(cx, method, fixed(ns, nc), size=c))
                    if res is not None:
                        cx.prove('%s: fewer than %d bytes is end of file' % (method, N), res.err == 'EOFError' and not res.h and not res.p)
                r.contract('%s: truncated frame (%dx%d)' % (method, ns, nc), cut, fns[:2],
                           lambda i, ns=ns, nc=nc, c=ci8: truncated(ns, nc, c, [int(i.get('cut') or 0)]))

            def unsup(cx, method=method):
                fx = {k: SYNC[k] for k in range(4)}
                f = [z3.BitVec('b%d' % k, 8) for k in range(16, 20)]
                ns, nc = z3.Concat(f[0], f[1]), z3.Concat(f[2], f[3])
                cx.assume(z3.Or(z3.And([ns != s for s in STANDS]), z3.And([nc != c for c in CHANS])))
                res = guard(cx, method, lambda: call_reader(cx, method, fx, size=9000))
                if res is not None:
                    cx.prove(method + ': unsupported stand/channel counts are a sync error at the frame start', res.err == 'SyncError' and not res.h and not res.p and res.file.pos == 0)
            r.contract(method + ': unsupported mode', unsup, fns[:2],
                       lambda i, c=ci8: check_bytes(F.inputs_to_bytes(i, 8220, dict(enumerate(SYNC))), c, b'\x00' * 780))

            def fail(cx, method=method):
                which = cx.int_input('mode', 0, 1).__index__()
                res = guard(cx, method, lambda: call_reader(cx, method, None, mode=('error', 'noread')[which]))
                if res is not None:
                    cx.prove('%s: failing read is an error' % method, res.err is not None and not res.h and not res.p)
            r.contract(method + ': read failure', fail, fns[:2], lambda i, c=ci8: failing(c))
            # history: a frame of one mode, then a frame of another
            pairs = [((64, 4), (128, 8)), ((64, 8), (64, 4)), ((128, 4), (64, 16))] if not r.thorough else \
                [((a, b), (c, d)) for a in STANDS for b in CHANS for c in STANDS for d in CHANS]
            for (a, b) in pairs:
                def hist(cx, a=a, b=b, method=method, ci8=ci8):
                    fx = fixed(*a)
                    fx.update(fixed(*b, base=size(*a)))
                    out = guard(cx, method, lambda: call_reader(cx, method, fx, size=size(*a) + size(*b), calls=2))
                    if out is None:
                        return
                    prove_decoded(cx, method, ci8, out[0], *a, 0, samples=False)
                    prove_decoded(cx, method, ci8, out[1], *b, size(*a), samples=False)

                def hrep(i, a=a, b=b, ci8=ci8):
                    return sequence([a, b], ci8, 5)
                r.contract('%s: %dx%d then %dx%d' % ((method,) + a + b), hist, fns[:2], hrep,
                           bounded='mode pairs %s' % (pairs if len(pairs) < 6 else 'all 144',))

    def one(c):
        mode, seed = c[0], c[-1]
        rng = np.random.RandomState(seed % (1 << 31))
        if mode == 'pair':
            return sequence([c[1], c[2]] + [c[2]] * (seed % 2) + [c[1]], c[3], seed)
        if mode == 'seq':
            ms = [(STANDS[rng.randint(3)], CHANS[rng.randint(4)]) for _ in range(8)]
            return sequence(ms, bool(seed % 2), seed)
        ns, nc = STANDS[rng.randint(3)], CHANS[rng.randint(4)]
        ci8 = bool(rng.randint(2))
        raw = bytearray(make(rng, ns, nc))
        if mode == 'bad':
            k = rng.randint(4)
            raw[k] ^= 1 << rng.randint(8)
            return check_bytes(bytes(raw), ci8, bytes(9000))
        if mode == 'unsup':
            raw[16 + rng.randint(4)] ^= 1 << rng.randint(8)
            if (struct.unpack('>HH', raw[16:20])[0] in STANDS and struct.unpack('>HH', raw[16:20])[1] in CHANS):
                return None
            return check_bytes(bytes(raw), ci8, bytes(9000))
        if mode == 'trunc':
            N = size(ns, nc)
            return truncated(ns, nc, ci8, [0, 1, 19, 20, 27, 28, N - 1, rng.randint(N)])
        if mode == 'fail':
            return failing(ci8)
        return check_bytes(bytes(raw), ci8) or check_bytes(bytes(raw), ci8, bytes(9000))

    def cases():
        k = r.seed * 100003
        yield ('fail', 0)
        yield ('fail', 1)
        for a in STANDS:
            for b in CHANS:
                for c in STANDS:
                    for d in CHANS:
                        for ci8 in (False, True):
                            k += 1
                            yield ('pair', (a, b), (c, d), ci8, k)
        for mode, n in (('one', 60), ('seq', 20), ('bad', 60), ('unsup', 60), ('trunc', 30)):
            for j in range(n * (10 if r.thorough else 1)):
                k += 1
                yield (mode, k)
    r.concrete('TBX frames read by the compiled extension', cases(), one, limit_s=90)
