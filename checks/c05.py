"""C05: DR spectrometer frames decode to the normalised spectra their bytes say."""
import io
import struct
import sys
import warnings
import numpy as np
import z3
from pv import frames as F, views
from pv import irx
from pv.frames import le, bv, int_is, prove_free, call_reader, guard

HF = '<IQHH2I4I4BBBBBII4II'
HS = 76
FORMATS = [1, 2, 4, 8, 9, 6, 15, 16, 32, 64, 128, 144, 240]
NAMES = ['XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V']
M1, M2 = 0xC0DEC0DE, 0xED0CED0C
DECS = [784, 392, 196, 98, 40, 20, 10]


def products(fmt):
    return [n for k, n in enumerate(NAMES) if fmt >> k & 1]


def norm_of(name, t, fills):
    a, b = fills[2 * t], fills[2 * t + 1]
    return a if name == 'XX' else b if name == 'YY' else min(a, b)


def build(fmt, nf, data, timetag=0, offset=0, dec=10, words=(0, 0), fills=(1, 1, 1, 1), errors=(0, 0, 0, 0), beam=1, version=2, flags=0,
          nints=1, sats=(0, 0, 0, 0), m1=M1, m2=M2):
    return struct.pack(HF, m1, timetag, offset, dec, *words, *fills, *errors, beam, fmt, version, flags, nf, nints, *sats, m2) + np.asarray(data, '<f4').tobytes()


def run(r):
    r.trust('clang 18 (C++ to LLVM IR at -O0) and LLVM mem2reg', 'contracts for the CPython/NumPy C API (pv/capi.py)')
    r.assume('g++ code generation (checked by the battery on the compiled extension)',
             'float32 division treated as real division in the proof (checked exactly by the battery)',
             'fills times channel count below 2^32 (the hardware limit is far lower)',
             'the format byte is one of the 13 the data recorder writes')
    sys.path.insert(0, '/repo')
    F.install_real()
    views.drspec(r)
    from lsl.reader import drspec, errors
    fns = ['lsl/reader/drspec.cpp:read_drspec', 'lsl/reader/drspec.cpp:parse_linear_*', 'lsl/reader/drspec.cpp:parse_stokes_*', 'lsl/reader/drspec.cpp:pol_count']
    warnings.simplefilter('ignore')

    def _cmp(fr, raw):
        (m1, tt, off, dec, w0, w1, f0, f1, f2, f3, e0, e1, e2, e3, beam, fmt, ver, flags, nf, nints, s0, s1, s2, s3, m2) = struct.unpack(HF, raw[:HS])
        fills = (f0, f1, f2, f3)
        for o, k, x in ((fr.header, 'beam', beam), (fr.header, 'format', fmt), (fr.header, 'decimation', dec), (fr.header, 'time_offset', off),
                        (fr.header, 'nints', nints), (fr.payload, 'timetag', tt), (fr.payload, 'tuning_words', [w0, w1]), (fr.payload, 'fills', list(fills)),
                        (fr.payload, 'errors', [e0, e1, e2, e3]), (fr.payload, 'saturations', [s0, s1, s2, s3])):
            if getattr(o, k) != x:
                return '%s is %r, the bytes say %r' % (k, getattr(o, k), x)
        ps = products(fmt)
        d = np.frombuffer(raw[HS:], '<f4').reshape(2, nf, len(ps))
        for t in (0, 1):
            for k, p in enumerate(ps):
                v = getattr(fr.payload, '%s%d' % (p, t))
                e = d[t, :, k] / np.float32(nf * norm_of(p, t, fills))
                if v.dtype != np.float32 or v.shape != (nf,):
                    return '%s%d is %s %s' % (p, t, v.dtype, v.shape)
                if not np.allclose(v, e, rtol=3e-7, atol=0, equal_nan=True):
                    i = int(np.argwhere(~np.isclose(v, e, rtol=3e-7, atol=0, equal_nan=True))[0][0])
                    return '%s%d[%d] is %r, expected %r (%r over %d channels and %d fills)' % (p, t, i, v[i], e[i], d[t, i, k], nf, norm_of(p, t, fills))
        for p in NAMES:
            if p not in ps and getattr(fr.payload, p + '0', None) is not None:
                return 'product %s made up' % p
        if fr.header.data_products != ps or fr.data_products != ps or fr.is_linear != (fmt < 16) or fr.is_stokes != (fmt >= 16) or fr.id != beam:
            return 'data products %r of format %d' % (fr.data_products, fmt)
        if fr.transform_size != nf or fr.ffts_per_integration != nints:
            return 'transform size %r' % fr.transform_size
        if dec:
            sr = 196e6 / dec
            if fr.sample_rate != sr or abs(fr.integration_time - nints * nf / sr) > 1e-9 * (nints * nf / sr):
                return 'sample rate %r, integration time %r' % (fr.sample_rate, fr.integration_time)
            if dec in DECS and fr.filter_code != DECS.index(dec) + 1:
                return 'filter code %r for decimation %d' % (fr.filter_code, dec)
        for w, cf in zip((w0, w1), fr.central_freq):
            if abs(cf - w * 196e6 / 2 ** 32) > 1e-6:
                return 'central frequency %r of word %d' % (cf, w)
        if tt >= off and tt < 2 ** 60 and fr.time.dp_timetag != tt - off:
            return 'time %r of timetag %d - %d' % (fr.time.dp_timetag, tt, off)
        return None

    def check_bytes(raw, tail=b'\x55' * 99):
        fh = io.BytesIO(b'\x00' * 7 + raw + tail)
        fh.seek(7)
        good = struct.unpack('<I', raw[:4])[0] == M1 and struct.unpack('<I', raw[72:76])[0] == M2
        try:
            fr = drspec.read_frame(fh)
        except errors.SyncError as e:
            if good:
                return 'frame with the right magic numbers rejected'
            return None if e.location == 7 and fh.tell() == 7 else 'sync error location %r, file left at %d, instead of 7' % (e.location, fh.tell())
        except errors.EOFError:
            return 'complete frame reported as end of file'
        if not good:
            return 'frame with wrong magic numbers accepted'
        if fh.tell() != 7 + len(raw):
            return 'file left at %d after a frame of %d bytes' % (fh.tell() - 7, len(raw))
        return _cmp(fr, raw)

    def truncated(raw, cuts):
        for k in cuts:
            try:
                drspec.read_frame(io.BytesIO(raw[:k]))
            except errors.EOFError:
                continue
            return '%d of %d bytes did not raise EOFError' % (k, len(raw))

    def failing():
        class Bad:
            def __init__(self, n):
                self.n = n

            def read(self, n):
                self.n -= 1
                if self.n < 0:
                    raise OSError('boom')
                return build(15, 4, [])[:76]

            def tell(self):
                return 0
        for b in (Bad(0), Bad(1), object()):
            try:
                drspec.read_frame(b)
            except (errors.EOFError, errors.SyncError):
                return 'failing read reported as end of file'
            except Exception:
                continue
            return 'failing read not reported'

    def fixed(fmt, nf, magic=True):
        h = struct.pack(HF, M1, *([0] * 14), fmt, 0, 0, nf, 0, 0, 0, 0, 0, M2)
        off = struct.calcsize('<IQHH2I4I4BB')
        f = {off: fmt}
        for k in range(4):
            f[off + 3 + k] = h[off + 3 + k]
            if magic:
                f[k], f[72 + k] = h[k], h[72 + k]
        return f

    OFF = {}
    o = 0
    for n, s in (('m1', 4), ('tt', 8), ('off', 2), ('dec', 2), ('w0', 4), ('w1', 4), ('f0', 4), ('f1', 4), ('f2', 4), ('f3', 4), ('e0', 1), ('e1', 1), ('e2', 1),
                 ('e3', 1), ('beam', 1), ('fmt', 1), ('ver', 1), ('flags', 1), ('nf', 4), ('nints', 4), ('s0', 4), ('s1', 4), ('s2', 4), ('s3', 4), ('m2', 4)):
        OFF[n] = (o, s)
        o += s
    assert o == HS

    def prove_decoded(cx, res, fmt, nf):
        M = 'read_drspec'
        f = res.file
        P = lambda n, g: prove_free(cx, '%s: %s' % (M, n), g)
        fld = lambda n: le(f, *OFF[n])
        cx.prove(M + ': a complete frame is accepted', res.err is None and res.frame_ok)
        if res.err:
            return
        for k, n in (('beam', 'beam'), ('format', None), ('decimation', 'dec'), ('time_offset', 'off'), ('nints', 'nints')):
            P('header field %s' % k, int_is(res.env, res.h.get(k), fmt if n is None else fld(n)))
        P('timetag', int_is(res.env, res.p.get('timetag'), fld('tt')))
        for k, ns in (('tuning_words', ['w0', 'w1']), ('fills', ['f0', 'f1', 'f2', 'f3']), ('errors', ['e0', 'e1', 'e2', 'e3']), ('saturations', ['s0', 's1', 's2', 's3'])):
            l = res.p.get(k)
            it = l.o.attrs.get('items') if l is not None else None
            cx.prove('%s: %s has %d entries' % (M, k, len(ns)), it is not None and len(it) == len(ns))
            if it and len(it) == len(ns):
                for x, n in zip(it, ns):
                    P(k, int_is(res.env, x, fld(n)))
        ps = products(fmt)
        cx.prove(M + ': file left at the end of the frame', res.end == HS + 8 * nf * len(ps))
        cx.prove(M + ': exactly the products the format names', set(res.p) == {'timetag', 'tuning_words', 'fills', 'errors', 'saturations'} | {p + t for p in ps for t in '01'})
        f32 = z3.Function('f32', z3.BitVecSort(32), z3.RealSort())
        for t in (0, 1):
            a, b = fld('f%d' % (2 * t)), fld('f%d' % (2 * t + 1))
            for k, p in enumerate(ps):
                arr = res.p.get('%s%d' % (p, t))
                if arr is None:
                    continue
                d = arr.o.attrs
                cx.prove(M + ': array type and shape', d['typ'] == 11 and d['dims'] == [nf])
                nrm = a if p == 'XX' else b if p == 'YY' else z3.If(z3.ULT(a, b), a, b)
                den = z3.ToReal(z3.BV2Int(z3.ZeroExt(1, z3.BitVecVal(nf, 32) * nrm), True))
                for i in range(nf):
                    w = le(f, HS + 4 * ((t * nf + i) * len(ps) + k), 4)
                    v = res.ex.mload(irx.Ptr(d['mem'], 4 * i), irx.F32)
                    g = False if isinstance(v, (float, irx.Undef)) else v.real() == f32(w) / den
                    P('spectra are the stored sums over channels and fills', g)

    F.module()
    NF = [1, 2, 5] if not r.thorough else [1, 2, 3, 5, 16, 64]

    def fill_raw(inputs, fmt, nf):
        n = HS + 8 * nf * len(products(fmt))
        raw = bytearray(F.inputs_to_bytes(inputs, n, fixed(fmt, nf)))
        # data and fills that tell the products apart where the model leaves them open
        dflt = bytearray(build(fmt, nf, np.arange(2 * nf * len(products(fmt))) + 1.5, fills=(3, 5, 7, 11), dec=10))
        for k in range(n):
            if inputs.get('b%d' % k) is None and k not in fixed(fmt, nf):
                raw[k] = dflt[k]
        if any(struct.unpack('<4I', raw[24:40])[j] * nf == 0 or struct.unpack('<4I', raw[24:40])[j] * nf >= 2 ** 32 for j in range(4)):
            raw[24:40] = dflt[24:40]
        d = np.frombuffer(bytes(raw[HS:]), '<f4')
        if not np.isfinite(d).all() or (d == 0).all():
            raw[HS:] = dflt[HS:]
        return bytes(raw)

    with r.parallel():
        for fmt in FORMATS:
            def dec(cx, fmt=fmt):
                k = cx.int_input('nfreq', 0, len(NF) - 1).__index__()
                res = guard(cx, 'read_drspec', lambda: call_reader(cx, 'read_drspec', fixed(fmt, NF[k]), size=HS + 8 * NF[k] * len(products(fmt)) + 8))
                if res is not None:
                    prove_decoded(cx, res, fmt, NF[k])
            r.contract('read_drspec decodes format %d (%s)' % (fmt, ','.join(products(fmt))), dec, fns,
                       lambda i, fmt=fmt: check_bytes(fill_raw(i, fmt, NF[int(i.get('nfreq') or 0)])),
                       bounded='%s channels; every header and data bit symbolic' % NF)

        def cut(cx):
            c = z3.BitVec('cut', 64)
            cx.inputs['cut'] = c
            cx.assume(z3.ULT(c, HS + 8 * 4 * 3))
            res = guard(cx, 'read_drspec', lambda: call_reader(cx, 'read_drspec', fixed(15, 3), size=c))
            if res is not None:
                cx.prove('read_drspec: fewer bytes than the frame is end of file', res.err == 'EOFError' and not res.h and not res.p)
        r.contract('read_drspec: truncated frame', cut, fns, lambda i: truncated(build(15, 3, np.arange(24)), [int(i.get('cut') or 0)]),
                   bounded='frame of 3 channels, every cut point')

        def sync(cx):
            b = lambda k: z3.BitVec('b%d' % k, 8)
            w = lambda o: z3.Concat(b(o + 3), b(o + 2), b(o + 1), b(o))
            cx.assume(z3.Or(w(0) != M1, w(72) != M2))
            fx = fixed(15, 3, magic=False)
            res = guard(cx, 'read_drspec', lambda: call_reader(cx, 'read_drspec', fx, size=HS + 96))
            if res is not None:
                cx.prove('read_drspec: wrong magic numbers are a sync error at the frame start', res.err == 'SyncError' and not res.h and not res.p and res.file.pos == 0)
        r.contract('read_drspec: magic numbers', sync, fns, lambda i: check_bytes(F.inputs_to_bytes(i, HS + 96, fixed(15, 3, magic=False))))

        def fail(cx):
            which = cx.int_input('mode', 0, 1).__index__()
            res = guard(cx, 'read_drspec', lambda: call_reader(cx, 'read_drspec', None, mode=('error', 'noread')[which]))
            if res is not None:
                cx.prove('read_drspec: failing read is an error', res.err is not None and not res.h and not res.p)
        r.contract('read_drspec: read failure', fail, fns, lambda i: failing())

    def rnd(rng, fmt=None, nf=None):
        fmt = FORMATS[rng.randint(13)] if fmt is None else fmt
        nf = nf or [1, 2, 3, 8, 32, 100, 1024][rng.randint(7)]
        return build(fmt, nf, rng.randn(2 * nf * len(products(fmt))) * 1e4, rng.randint(2 ** 60), rng.randint(2 ** 16), DECS[rng.randint(7)],
                     rng.randint(0, 2 ** 32, 2), rng.randint(1, 2 ** 21, 4), rng.randint(0, 256, 4), rng.randint(256), rng.randint(256), rng.randint(256),
                     rng.randint(2 ** 20), rng.randint(0, 2 ** 32, 4))

    def one(c):
        mode, seed = c[0], c[-1]
        rng = np.random.RandomState(seed % (1 << 31))
        if mode == 'one':
            return check_bytes(rnd(rng, FORMATS[seed % 13]), tail=[b'', b'\x55' * 99][rng.randint(2)])
        if mode == 'magic':
            raw = bytearray(rnd(rng))
            raw[[0, 1, 2, 3, 72, 73, 74, 75][rng.randint(8)]] ^= 1 << rng.randint(8)
            return check_bytes(bytes(raw))
        if mode == 'trunc':
            raw = rnd(rng, nf=8)
            return truncated(raw, [0, 1, 75, 76, 77, len(raw) - 1, rng.randint(len(raw))])
        if mode == 'fail':
            return failing()
        if mode == 'helpers':
            raw = rnd(rng)
            fh = io.BytesIO(b'abc' + raw + raw)
            fh.seek(3)
            fr = drspec.read_frame(io.BytesIO(raw))
            for fn, e in ((drspec.get_frame_size, len(raw)), (drspec.get_data_products, fr.data_products), (drspec.is_linear, fr.is_linear),
                          (drspec.is_stokes, fr.is_stokes), (drspec.get_sample_rate, fr.sample_rate), (drspec.get_ffts_per_integration, fr.ffts_per_integration),
                          (drspec.get_transform_size, fr.transform_size), (drspec.get_integration_time, fr.integration_time),
                          (lambda f: drspec.get_sample_rate(f, filter_code=True), fr.filter_code)):
                if fn(fh) != e or fh.tell() != 3:
                    return '%s gives %r (frame: %r), file at %d' % (fn.__name__, fn(fh), e, fh.tell())
            return None
        if mode == 'seq':
            raws = [rnd(rng, nf=[4, 8, 16][rng.randint(3)]) for _ in range(4)]
            fh = io.BytesIO(b''.join(raws))
            for k, x in enumerate(raws):
                e = _cmp(drspec.read_frame(fh), x)
                if e:
                    return 'frame %d: %s' % (k, e)
            try:
                drspec.read_frame(fh)
                return 'frame read past the end'
            except errors.EOFError:
                return None
        raw, raw2 = rnd(rng, 15, 8), rnd(rng, 15, 8)          # arithmetic
        a, b = drspec.read_frame(io.BytesIO(raw)), drspec.read_frame(io.BytesIO(raw2))
        y = [b, np.float32(1 + rng.randint(9))][rng.randint(2)]
        for nm, op in (('+', lambda x, y: x + y), ('-', lambda x, y: x - y), ('*', lambda x, y: x * y), ('/', lambda x, y: x / y), ('//', lambda x, y: x // y)):
            for inplace in (False, True):
                src = drspec.read_frame(io.BytesIO(raw))
                if inplace:
                    ns = {'s': src, 'y': y}
                    exec('s %s= y' % nm, ns)
                    res = ns['s']
                    if res is not src:
                        return 'in-place %s made a new frame' % nm
                else:
                    res = op(src, y)
                    e = _cmp(src, raw)
                    if e:
                        return '%s changed its operand: %s' % (nm, e)
                for p in products(15):
                    for t in '01':
                        x, z = getattr(a.payload, p + t), getattr(y.payload, p + t) if y is b else y
                        if not np.array_equal(getattr(res.payload, p + t), op(x, z), equal_nan=True):
                            return 'frame %s %s: %s%s is %r, expected %r' % (nm, type(y).__name__, p, t, getattr(res.payload, p + t), op(x, z))

    def cases():
        k = r.seed * 100003
        for mode, n in (('one', 130), ('magic', 20), ('seq', 20), ('trunc', 20), ('fail', 2), ('helpers', 40), ('arith', 20)):
            for j in range(n * (10 if r.thorough else 1)):
                k += 1
                yield (mode, k)
    r.concrete('DR spectrometer frames read by the compiled extension', cases(), one, limit_s=90)
