"""C04: VDIF frames decode to exactly what the bytes say."""
import io
import itertools
import struct
import sys
import warnings
import numpy as np
from pv import frames as F, views
from pv.frames import le, bv, int_is, real_is, int8_is, level, prove_free, call_reader, guard
import z3

f4 = np.float32
LV = {1: [f4(-1), f4(1)], 2: [f4(-3.3359), f4(-1), f4(1), f4(3.3359)], 4: [f4(f4(k - 8) / f4(2.95)) for k in range(16)],
      8: [f4((2 * k - 255) / 256.0) for k in range(256)]}
LI = {1: [-1, 1], 2: [-3, -1, 1, 3], 4: [k - 8 for k in range(16)], 8: [k - 128 for k in range(256)]}


def header(sec=0, legacy=0, invalid=0, frame=0, epoch=0, unassigned=0, length=4, log2=0, version=0, station=0, thread=0, bits=8, cplx=0, ext=bytes(16)):
    w = struct.pack('<IIII', sec | legacy << 30 | invalid << 31, frame | epoch << 24 | unassigned << 30, length | log2 << 24 | version << 29,
                    station | thread << 16 | (bits - 1) << 26 | cplx << 31)
    return w + (b'' if legacy else ext)


def decode(raw, i8):
    w0, w1, w2, w3 = struct.unpack('<IIII', raw[:16])
    h = dict(seconds_from_epoch=w0 & (2 ** 30 - 1), is_legacy=(w0 >> 30) & 1, is_invalid=w0 >> 31, frame_in_second=w1 & (2 ** 24 - 1),
             ref_epoch=(w1 >> 24) & 63, frame_length=w2 & (2 ** 24 - 1), nchan=1 << ((w2 >> 24) & 31), version=w2 >> 29,
             station_id=w3 & 0xFFFF, thread_id=(w3 >> 16) & 1023, bits_per_sample=((w3 >> 26) & 31) + 1, is_complex=w3 >> 31)
    if h['is_legacy']:
        ext, off = (0, 0, 0, 0), 16
    else:
        ext, off = struct.unpack('<IIII', raw[16:32]), 32
    for k in range(4):
        h['extended_data_%d' % (k + 1)] = ext[k]
    b = h['bits_per_sample']
    if b not in LV:
        return h, None
    by = np.frombuffer(raw[off:h['frame_length'] * 8], np.uint8)
    lev = np.stack([(by >> (b * k)) & ((1 << b) - 1) for k in range(8 // b)], axis=1).ravel()
    v = np.array(LI[b] if i8 else LV[b])[lev]
    if h['is_complex']:
        v = (v[0::2] + 1j * v[1::2]).astype(np.complex64)
    else:
        v = v.astype(np.int8 if i8 else np.float32)
    if h['nchan'] > 1:
        if v.size % h['nchan']:
            return h, None
        v = v.reshape(-1, h['nchan']).T
    return h, v


def run(r):
    r.trust('clang 18 (C++ to LLVM IR at -O0) and LLVM mem2reg', 'contracts for the CPython/NumPy C API (pv/capi.py)')
    r.assume('g++ code generation (checked by the battery on the compiled extension)')
    sys.path.insert(0, '/repo')
    F.install_real()
    from lsl.reader import vdif, errors

    def check_frame(fr, raw, i8):
        h, v = decode(raw, i8)
        for k, x in h.items():
            if getattr(fr.header, k) != x:
                return 'header field %s is %r, the bytes say %r' % (k, getattr(fr.header, k), x)
        d = fr.payload.data
        if v is None:
            return 'unsupported frame accepted'
        if d.dtype != v.dtype or d.shape != v.shape:
            return 'data is %s %s, the bytes say %s %s' % (d.dtype, d.shape, v.dtype, v.shape)
        bad = np.argwhere(d != v)
        if len(bad):
            k = tuple(bad[0])
            return 'sample %s is %r, the bytes say %r' % (k, d[k], v[k])
        if tuple(fr.id) != (h['station_id'], h['thread_id']):
            return 'id'
        return None

    def check_bytes(raw, i8, tail=b'\x55' * 40, sr=0.0, cf=0.0):
        rd = vdif.read_frame_i8 if i8 else vdif.read_frame
        fh = io.BytesIO(b'\x00' * 7 + raw + tail)
        fh.seek(7)
        w0, _, w2, w3 = struct.unpack('<IIII', raw[:16])
        n = (w2 & (2 ** 24 - 1)) * 8
        small = n < (16 if (w0 >> 30) & 1 else 32)
        try:
            fr = rd(fh, sample_rate=sr, central_freq=cf)
        except errors.SyncError as e:
            if not small:
                return 'frame of %d bytes rejected' % n
            if e.location != 7 or fh.tell() != 7:
                return 'sync error location %r, file left at %d, instead of 7' % (e.location, fh.tell())
            return None
        except errors.EOFError:
            return None if not small and n > len(raw + tail) else 'complete frame reported as end of file'
        except Exception as e:
            h, v = decode((raw + tail)[:n], i8) if not small and n <= len(raw + tail) else ({}, 1)
            return None if v is None and (sys.exc_info()[0] in (RuntimeError, MemoryError)) else 'frame raised %s' % type(e).__name__
        if small:
            return 'frame of %d bytes accepted' % n
        if fh.tell() != 7 + n:
            return 'file left at %d after a %d byte frame' % (fh.tell() - 7, n)
        if abs(fr.sample_rate - sr) > 1e-6 * sr or abs(fr.central_freq - cf) > 1e-6 * cf:
            return 'sample rate / frequency not kept'
        return check_frame(fr, (raw + tail)[:n], i8)

    def truncated(raw, i8, cuts):
        for k in cuts:
            try:
                (vdif.read_frame_i8 if i8 else vdif.read_frame)(io.BytesIO(raw[:k]))
            except errors.EOFError:
                continue
            return '%d of %d bytes did not raise EOFError' % (k, len(raw))

    def failing(i8):
        class Bad:
            def __init__(self, n):
                self.n = n

            def read(self, n):
                self.n -= 1
                if self.n < 0:
                    raise OSError('boom')
                return header(length=8)[:16]

            def tell(self):
                return 0
        for b in (Bad(0), Bad(1), object()):
            try:
                (vdif.read_frame_i8 if i8 else vdif.read_frame)(b)
            except (errors.EOFError, errors.SyncError):
                return 'failing read reported as end of file'
            except Exception:
                continue
            return 'failing read not reported'

    def times(c):
        epoch, sec, frame, bits, cplx, log2, nd, sr = c
        raw = header(sec=sec, epoch=epoch, frame=frame, bits=bits, cplx=cplx, log2=log2, length=4 + nd) + bytes(8 * nd)
        fr = vdif.read_frame(io.BytesIO(raw), sample_rate=sr)
        import datetime
        t0 = datetime.datetime(2000 + epoch // 2, 1 + 6 * (epoch % 2), 1, tzinfo=datetime.timezone.utc).timestamp()
        ns = nd * 8 * 8 // bits // (2 if cplx else 1) // (1 << log2)
        e = t0 + sec + frame / (sr // ns)
        if abs(float(fr.time) - e) > 2e-6:
            return 'frame %d of second %d of epoch %d is at %r, expected %r' % (frame, sec, epoch, float(fr.time), e)

    fns = ['lsl/reader/vdif.cpp:read_vdif', 'lsl/reader/vdif.cpp:parse_vdif', 'lsl/reader/vdif.cpp:initVDIFLUTs']

    def fx(bits, cplx, log2, legacy, nbytes):
        """the header fields that steer the layout are constants, every other bit of the header is free"""
        B = lambda k: z3.BitVec('b%d' % k, 8)
        V = z3.BitVecVal
        X = z3.Extract
        n = (16 if legacy else 32) // 8 + nbytes // 8
        f = dict(enumerate(struct.pack('<I', n)[:3], 8))
        f[3] = z3.Concat(X(7, 7, B(3)), V(legacy, 1), X(5, 0, B(3)))
        f[11] = z3.Concat(X(7, 5, B(11)), V(log2, 5))
        if bits is not None:
            f[15] = z3.Concat(V(cplx, 1), V(bits - 1, 5), X(1, 0, B(15)))
        return f

    def fill(inputs, bits, cplx, log2, legacy, nbytes):
        n = (16 if legacy else 32) // 8 + nbytes // 8
        raw = bytearray(F.inputs_to_bytes(inputs, n * 8, dict(enumerate(struct.pack('<I', n)[:3], 8))))
        raw[3] = raw[3] & 0xBF | legacy << 6
        raw[11] = raw[11] & 0xE0 | log2
        if bits is not None:
            raw[15] = raw[15] & 3 | (bits - 1) << 2 | cplx << 7
        return bytes(raw)

    def steer(cx):
        for k in (3, 11, 15):
            cx.inputs['b%d' % k] = z3.BitVec('b%d' % k, 8)

    def prove_decoded(cx, M, i8, res, bits, cplx, log2, legacy, nbytes):
        f = res.file
        cx.prove(M + ': a complete frame is accepted', res.err is None and res.frame_ok)
        if res.err:
            return
        P = lambda n, g: prove_free(cx, '%s: %s' % (M, n), g)
        w = [le(f, 4 * k, 4) for k in range(4)]
        X = z3.Extract
        spec = dict(seconds_from_epoch=X(29, 0, w[0]), is_legacy=X(30, 30, w[0]), is_invalid=X(31, 31, w[0]), frame_in_second=X(23, 0, w[1]),
                    ref_epoch=X(29, 24, w[1]), frame_length=X(23, 0, w[2]), version=X(31, 29, w[2]), station_id=X(15, 0, w[3]),
                    thread_id=X(25, 16, w[3]), nchan=1 << log2, bits_per_sample=bits, is_complex=cplx)
        for k in range(4):
            spec['extended_data_%d' % (k + 1)] = z3.BitVecVal(0, 32) if legacy else le(f, 16 + 4 * k, 4)
        for k, s in spec.items():
            g = int_is(res.env, res.h.get(k), s)
            P('header field %s' % k, g)
        off = 16 if legacy else 32
        cx.prove(M + ': file left at the end of the frame', res.end == off + nbytes)
        d = res.p['_data'].o.attrs
        n = nbytes * 8 // bits // (2 if cplx else 1)
        dims = [n] if log2 == 0 else [1 << log2, n >> log2]
        typ = 14 if cplx else 1 if i8 else 11
        cx.prove(M + ': array type and shape', d['typ'] == typ and d['dims'] == dims and (d.get('order') == 'F') == (log2 > 0))
        m = d['mem']
        for i in range(nbytes * 8 // bits):
            by = bv(f.byte(off + i * bits // 8), 8)
            lo = i * bits % 8
            x = X(lo + bits - 1, lo, by) if bits < 8 else by
            if i8 and not cplx:
                P('sample values', int8_is(res.ex, m, i, level(x, LI[bits], 8)))
            else:
                P('sample values', real_is(res.ex, m, 4 * i, level(x, LI[bits] if i8 else LV[bits])))

    views.vdif_time(r)
    F.module()
    NB = [8, 48] if not r.thorough else [8, 48, 256]
    cfgs = [(b, c, l, g, n) for b in (1, 2, 4, 8) for c in (0, 1) for l in (0, 1, 2) for g in (0, 1) for n in NB
            if (n * 8 // b // (1 + c)) % (1 << l) == 0]

    with r.parallel():
        for i8 in (False, True):
            M = 'read_vdif_i8' if i8 else 'read_vdif'
            for b, c in itertools.product((1, 2, 4, 8), (0, 1)):
                part = [x for x in cfgs if x[:2] == (b, c)]

                def dec(cx, M=M, i8=i8, part=part):
                    k = cx.int_input('config', 0, len(part) - 1).__index__()
                    b, c, l, g, n = part[k]
                    steer(cx)
                    res = guard(cx, M, lambda: call_reader(cx, M, fx(b, c, l, g, n), size=(16 if g else 32) + n + 8))
                    if res is not None:
                        prove_decoded(cx, M, i8, res, b, c, l, g, n)

                def rep(inputs, i8=i8, part=part):
                    b, c, l, g, n = part[int(inputs.get('config') or 0)]
                    raw = fill(inputs, b, c, l, g, n)
                    return check_bytes(raw, i8)
                r.contract('%s decodes %d-bit %s frames' % (M, b, 'complex' if c else 'real'), dec, fns, rep,
                           bounded='payload of %s bytes, 1, 2 or 4 channels; every header and payload bit symbolic' % NB)

            def cut(cx, M=M):
                g = cx.int_input('legacy', 0, 1).__index__()
                c = z3.BitVec('cut', 64)
                cx.inputs['cut'] = c
                N = (16 if g else 32) + 48
                cx.assume(z3.ULT(c, N))
                steer(cx)
                res = guard(cx, M, lambda: call_reader(cx, M, fx(4, 0, 0, g, 48), size=c))
                if res is not None:
                    cx.prove('%s: fewer bytes than the frame length is end of file' % M, res.err == 'EOFError' and not res.h and not res.p)
            r.contract('%s: truncated frame' % M, cut, fns,
                       lambda i, i8=i8: truncated(header(length=(16 if int(i['legacy'] or 0) else 32) // 8 + 6, legacy=int(i['legacy'] or 0), bits=4) + bytes(48), i8, [int(i.get('cut') or 0)]), bounded='payload of 48 bytes; every cut point')

            def short(cx, M=M):
                b = lambda k: z3.BitVec('b%d' % k, 8)
                n = z3.Concat(b(10), b(9), b(8))
                lim = z3.If(z3.Extract(6, 6, b(3)) == 1, z3.BitVecVal(2, 24), z3.BitVecVal(4, 24))
                cx.assume(z3.ULT(n, lim))
                res = guard(cx, M, lambda: call_reader(cx, M, None, size=64))
                if res is not None:
                    cx.prove('%s: a frame length too short for its header is a sync error at the frame start' % M,
                             res.err == 'SyncError' and not res.h and not res.p and res.file.pos == 0)
            r.contract('%s: impossible frame length' % M, short, fns, lambda i, i8=i8: check_bytes(F.inputs_to_bytes(i, 64), i8))

            def unsup(cx, M=M):
                g = 0
                b = lambda k: z3.BitVec('b%d' % k, 8)
                bits = z3.Extract(6, 2, b(15))
                cx.assume(z3.And([bits != k - 1 for k in (1, 2, 4, 8)]))
                steer(cx)
                res = guard(cx, M, lambda: call_reader(cx, M, fx(None, 0, 0, g, 16), size=64))
                if res is not None:
                    cx.prove('%s: an unsupported sample size is an error' % M, res.err is not None and res.err not in ('EOFError',) and not res.h and not res.p)
            r.contract('%s: unsupported sample size' % M, unsup, fns, lambda i, i8=i8: check_bytes(fill(i, None, 0, 0, 0, 16), i8))

            def odd(cx, M=M):
                l = cx.int_input('log2', 3, 31).__index__()
                steer(cx)
                res = guard(cx, M, lambda: call_reader(cx, M, fx(8, 0, l, 0, 8 if l > 3 else 16), size=64))
                if res is not None:
                    ok = l <= 4 and (16 if l == 3 else 8) % (1 << l) == 0
                    cx.prove('%s: samples that do not fill the channels are an error' % M, (res.err is None) if ok else (res.err is not None and not res.h))
            r.contract('%s: channel counts that do not fit' % M, odd, fns,
                       lambda i, i8=i8: check_bytes(header(length=5 if int(i['log2']) > 3 else 6, log2=int(i['log2'])) + bytes(16), i8), bounded='payload of 8 or 16 bytes; every channel count')

            def fail(cx, M=M):
                which = cx.int_input('mode', 0, 1).__index__()
                res = guard(cx, M, lambda: call_reader(cx, M, None, mode=('error', 'noread')[which]))
                if res is not None:
                    cx.prove('%s: failing read is an error' % M, res.err is not None and not res.h and not res.p)
            r.contract(M + ': read failure', fail, fns, lambda i, i8=i8: failing(i8))

    def one(c):
        mode, seed = c[0], c[-1]
        rng = np.random.RandomState(seed % (1 << 31))
        if mode == 'time':
            sr = [7e6, 4.9e6, 19.6e6, 512e3][rng.randint(4)]
            b, cp, l, nd = [1, 2, 4, 8][rng.randint(4)], rng.randint(2), 0, [64, 100, 512][rng.randint(3)]
            ns = nd * 8 * 8 // b // (2 if cp else 1)
            return times((rng.randint(0, 64), rng.randint(0, 180 * 86400), rng.randint(0, int(sr // ns)), b, cp, l, nd, sr))
        i8 = bool(rng.randint(2))
        if mode == 'fail':
            return failing(i8)
        b = [1, 2, 4, 8][rng.randint(4)] if mode != 'unsup' else [3, 5, 6, 7, 16, 32, 12][rng.randint(7)]
        cp, l, g, nb = rng.randint(2), rng.randint(6), rng.randint(2), 8 * (1 + rng.randint(40))
        if mode == 'big':
            nb = [8000, 5000, 8192][rng.randint(3)]
        raw = header(rng.randint(2 ** 30), g, rng.randint(2), rng.randint(2 ** 24), rng.randint(64), rng.randint(4),
                     (16 if g else 32) // 8 + nb // 8, l, rng.randint(8), rng.randint(65536), rng.randint(1024), b, cp,
                     rng.randint(0, 256, 16, dtype=np.uint8).tobytes()) + rng.randint(0, 256, nb, dtype=np.uint8).tobytes()
        if mode == 'trunc':
            return truncated(raw, i8, [0, 1, 15, 16, 17, 31, len(raw) - 1, rng.randint(len(raw))])
        if mode == 'noise':
            raw = rng.randint(0, 256, 64, dtype=np.uint8).tobytes()
            if rng.randint(2):
                raw = raw[:8] + bytes([rng.randint(10), 0, 0]) + raw[11:]
            return check_bytes(raw, i8)
        if mode == 'seq':
            raws = []
            for k in range(4):
                nb = 8 * (1 + rng.randint(9))
                g = rng.randint(2)
                raws.append(header(length=(16 if g else 32) // 8 + nb // 8, legacy=g, frame=k, bits=[1, 2, 4, 8][rng.randint(4)], cplx=rng.randint(2)) +
                            rng.randint(0, 256, nb, dtype=np.uint8).tobytes())
            fh = io.BytesIO(b''.join(raws))
            for k, x in enumerate(raws):
                i8 = bool(rng.randint(2))
                e = check_frame((vdif.read_frame_i8 if i8 else vdif.read_frame)(fh), x, i8)
                if e:
                    return 'frame %d: %s' % (k, e)
            try:
                vdif.read_frame(fh)
                return 'frame read past the end'
            except errors.EOFError:
                return None
        return check_bytes(raw, i8, b'', [0.0, 7e6][rng.randint(2)], [0.0, 38e6][rng.randint(2)])

    def cases():
        k = r.seed * 100003
        for mode, n in (('one', 300), ('big', 20), ('seq', 40), ('noise', 100), ('unsup', 40), ('trunc', 30), ('fail', 6), ('time', 60)):
            for j in range(n * (10 if r.thorough else 1)):
                k += 1
                yield (mode, k)
    warnings.simplefilter('ignore')
    r.concrete('VDIF frames read by the compiled extension', cases(), one, limit_s=90)
