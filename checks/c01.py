"""C01: DRX and DRX8 frames decode to exactly what the bytes say."""
import io
import os
import struct
import sys
import numpy as np
from pv import frames as F, views
from pv.frames import be, bv, int_is, float_is, int8_is, nib, prove_free, call_reader, guard
from pv.runner import Failure, scratch
import z3

SYNC = bytes([0xDE, 0xC0, 0xDE, 0x5C])
FIXED = dict(enumerate(SYNC))


def decode(raw, eight):
    """the oracle: independent decoding from the published layout"""
    h = dict(frame_count=int.from_bytes(raw[5:8], 'big'), drx_id=raw[4], second_count=int.from_bytes(raw[8:12], 'big'),
             decimation=int.from_bytes(raw[12:14], 'big'), time_offset=int.from_bytes(raw[14:16], 'big'))
    p = dict(timetag=int.from_bytes(raw[16:24], 'big'), tuning_word=int.from_bytes(raw[24:28], 'big'), flags=int.from_bytes(raw[28:32], 'big'))
    b = np.frombuffer(raw[32:], np.uint8).astype(int)
    if eight:
        s = np.where(b > 127, b - 256, b)
        re, im = s[0::2], s[1::2]
    else:
        hi, lo = b >> 4, b & 15
        re, im = np.where(hi > 7, hi - 16, hi), np.where(lo > 7, lo - 16, lo)
    return h, p, re, im


def run(r):
    r.trust('clang 18 (C++ to LLVM IR at -O0) and LLVM mem2reg', 'contracts for the CPython/NumPy C API (pv/capi.py)')
    r.assume('g++ code generation (checked by the battery on the compiled extension)')
    # ---- Python layer
    sys.path.insert(0, '/repo')
    F.install_real()
    views.drx(r)
    from lsl.reader import drx, drx8, errors
    from lsl.reader.base import FrameTimestamp, CI8
    MOD = {False: drx, True: drx8}

    def chk_views(i):
        m = (drx, drx8)[int(i['which'])]
        v = int(i['id'])
        fr = m.Frame(header=m.FrameHeader(drx_id=v), payload=m.FramePayload())
        for o in (fr, fr.header):
            if tuple(o.id) != (v & 7, (v >> 3) & 7, v >> 7):
                return 'id %d gives %r' % (v, o.id)
            if (o.is_drx8 if int(i['which']) else o.is_drx) != ((v >> 6 & 1) == int(i['which'])):
                return 'id %d marked wrongly' % v
    # the tuning field is 3 bits (bits 3-5), bit 6 marks DRX8
    def views2(cx):
        which = cx.int_input('which', 0, 1).__index__()
        m = (drx, drx8)[which]
        i = cx.int_input('id', 0, 255)
        fr = m.Frame(header=m.FrameHeader(drx_id=i), payload=m.FramePayload())
        for o in (fr, fr.header):
            b, t, p = o.id
            cx.prove('beam, tuning and polarization of the id', (b == i % 8) & (t == (i // 8) % 8) & (p == i // 128))
            flag = o.is_drx8 if which else o.is_drx
            cx.prove('DRX/DRX8 mark of the id', flag == ((i // 64) % 2 == which))
    r.contract('beam, tuning, polarization views', views2, ['lsl.reader.drx.FrameHeader.id', 'lsl.reader.drx.FrameHeader.is_drx',
               'lsl.reader.drx8.FrameHeader.id', 'lsl.reader.drx8.FrameHeader.is_drx8'], chk_views)

    def check_frame(fr, raw, eight, ci8, gain=None):
        h, p, re, im = decode(raw, eight)
        for k, v in h.items():
            if getattr(fr.header, k) != v:
                return 'header field %s is %r, the bytes say %r' % (k, getattr(fr.header, k), v)
        for k, v in p.items():
            if getattr(fr.payload, k) != v:
                return 'payload field %s is %r, the bytes say %r' % (k, getattr(fr.payload, k), v)
        d = fr.payload.data
        if ci8:
            if d.dtype != CI8 or d.shape != (4096,):
                return 'ci8 data has type %s shape %s' % (d.dtype, d.shape)
            dre, dim = d['re'].astype(int), d['im'].astype(int)
        else:
            if d.dtype != np.complex64 or d.shape != (4096,):
                return 'data has type %s shape %s' % (d.dtype, d.shape)
            dre, dim = d.real, d.imag
        bad = np.where((dre != re) | (dim != im))[0]
        if len(bad):
            k = bad[0]
            return 'sample %d is %s%+sj, the bytes say %d%+dj' % (k, dre[k], dim[k], re[k], im[k])
        i = h['drx_id']
        if tuple(fr.id) != (i & 7, (i >> 3) & 7, i >> 7):
            return 'id %d gives %r' % (i, fr.id)
        if (fr.is_drx8 if eight else fr.is_drx) != ((i >> 6) & 1 == int(eight)):
            return 'id %d format mark' % i
        if h['decimation']:
            if abs(fr.sample_rate - 196e6 / h['decimation']) > 1e-6:
                return 'sample rate %r for decimation %d' % (fr.sample_rate, h['decimation'])
            rates = {250000: 1, 500000: 2, 1000000: 3, 2000000: 4, 4900000: 5, 9800000: 6, 19600000: 7}
            if 196e6 / h['decimation'] in rates and fr.filter_code != rates[196e6 / h['decimation']]:
                return 'filter code %r' % fr.filter_code
        if abs(fr.central_freq - p['tuning_word'] * 196e6 / 2 ** 32) > 1e-3:
            return 'tuning word %d gives %r Hz' % (p['tuning_word'], fr.central_freq)
        if p['timetag'] < 196000000 * 6e9 and p['timetag'] >= h['time_offset']:
            e = FrameTimestamp.from_dp_timetag(p['timetag'], h['time_offset'])
            if fr.time != e or abs(float(fr.time) - (p['timetag'] - h['time_offset']) / 196e6) > 1e-5:
                return 'time of timetag %d offset %d' % (p['timetag'], h['time_offset'])
        if gain is not None and fr.gain != gain:
            return 'gain'
        return None

    def check_bytes(raw, eight, ci8):
        m = MOD[eight]
        rd = m.read_frame_ci8 if ci8 else m.read_frame
        fh = io.BytesIO(b'\x00' * 7 + raw + b'\x11' * 50)
        fh.seek(7)
        try:
            fr = rd(fh, gain=6)
        except errors.SyncError as e:
            if raw[:4] == SYNC:
                return 'frame with a good sync word rejected'
            if e.location != 7:
                return 'sync error location %r instead of 7' % e.location
            return None
        if raw[:4] != SYNC:
            return 'frame with sync word %s accepted' % raw[:4].hex()
        if fh.tell() != 7 + len(raw):
            return 'file left at %d after a %d byte frame' % (fh.tell() - 7, len(raw))
        return check_frame(fr, raw, eight, ci8, 6)

    def truncated(eight, ci8, i, N):
        raw = bytes(N)
        raw = SYNC + raw[4:]
        for k in [0, 1, 15, 31, 32, N // 2, N - 1] + ([int(i['cut'])] if 'cut' in i else []):
            m = MOD[eight]
            try:
                (m.read_frame_ci8 if ci8 else m.read_frame)(io.BytesIO(raw[:k]))
            except errors.EOFError:
                continue
            return '%d of %d bytes did not raise EOFError' % (k, N)

        class Bad:
            def read(self, n):
                raise OSError('boom')

            def tell(self):
                return 0
        for b in (Bad(), object()):
            try:
                (m.read_frame_ci8 if ci8 else m.read_frame)(b)
            except (errors.EOFError, errors.SyncError):
                return 'failing read reported as end of file'
            except Exception:
                continue
            return 'failing read not reported'

    def battery_one(c):
        kind, ci8, mode, seed = c
        eight = kind == 'drx8'
        N = 8224 if eight else 4128
        rng = np.random.RandomState(seed)
        raw = bytearray(rng.randint(0, 256, N, dtype=np.uint8).tobytes())
        raw[:4] = SYNC
        if mode == 'sync':
            raw[rng.randint(4)] ^= 1 << rng.randint(8)
        elif mode == 'real':
            raw[12:14] = struct.pack('>H', [784, 392, 196, 98, 40, 20, 10][seed % 7])
            raw[14:16] = struct.pack('>H', rng.randint(0, 2000))
            raw[16:24] = struct.pack('>Q', 196000000 * (1400000000 + seed) + rng.randint(0, 196000000))
        elif mode == 'trunc':
            return truncated(eight, ci8, {}, N)
        elif mode == 'all':
            raw[32:] = bytes((k + seed) % 256 for k in range(N - 32))
        elif mode == 'ones':
            raw[4:] = b'\xff' * (N - 4)
        elif mode == 'seq':
            # several frames of a real file, read one after the other, both flavours agree
            fn = os.path.join(scratch(), 'seq.dat')
            raws = []
            for k in range(5):
                x = bytearray(rng.randint(0, 256, N, dtype=np.uint8).tobytes())
                x[:4] = SYNC
                raws.append(bytes(x))
            with open(fn, 'wb') as fh:
                fh.write(b''.join(raws) + b'\xde\xc0')
            m = MOD[eight]
            with open(fn, 'rb') as fh:
                for k in range(5):
                    fr = (m.read_frame_ci8 if (k + ci8) % 2 else m.read_frame)(fh)
                    e = check_frame(fr, raws[k], eight, bool((k + ci8) % 2))
                    if e:
                        return 'frame %d of a file: %s' % (k, e)
                try:
                    m.read_frame(fh)
                    return 'frame read past the end of the file'
                except errors.EOFError:
                    pass
            return None
        return check_bytes(bytes(raw), eight, ci8)

    F.module()
    par = r.parallel()
    par.__enter__()
    for eight in (False, True):
        N = 8224 if eight else 4128
        kind = 'drx8' if eight else 'drx'
        for ci8 in (False, True):
            method = 'read_' + kind + ('_ci8' if ci8 else '')

            def rep(inputs, eight=eight, ci8=ci8, N=N):
                fx = None if any('b%d' % k in inputs for k in range(4)) else FIXED
                return check_bytes(F.inputs_to_bytes(inputs, N, fx), eight, ci8)

            def dec(cx, eight=eight, ci8=ci8, N=N, method=method):
                res = guard(cx, method, lambda: call_reader(cx, method, FIXED, size=N + 100))
                if res is None:
                    return
                f = res.file
                cx.prove(method + ': a frame with the sync word is accepted', res.err is None and res.frame_ok)
                if res.err:
                    return
                P = lambda n, g: prove_free(cx, '%s: %s' % (method, n), g)
                P('frame count', int_is(res.env, res.h.get('frame_count'), be(f, 5, 3)))
                P('id', int_is(res.env, res.h.get('drx_id'), be(f, 4, 1)))
                P('second count', int_is(res.env, res.h.get('second_count'), be(f, 8, 4)))
                P('decimation', int_is(res.env, res.h.get('decimation'), be(f, 12, 2)))
                P('time offset', int_is(res.env, res.h.get('time_offset'), be(f, 14, 2)))
                P('timetag', int_is(res.env, res.p.get('timetag'), be(f, 16, 8)))
                P('tuning word', int_is(res.env, res.p.get('tuning_word'), be(f, 24, 4)))
                P('flags', int_is(res.env, res.p.get('flags'), be(f, 28, 4)))
                cx.prove(method + ': file left at the end of the frame', f.pos == N)
                d = res.p['_data'].o.attrs
                cx.prove(method + ': 4096 samples', d['typ'] == (1 if ci8 else 14) and d['dims'] == [8192 if ci8 else 4096] and not d.get('order'))
                m = d['mem']
                for i in range(4096):
                    if eight:
                        s = (bv(f.byte(32 + 2 * i), 8), bv(f.byte(33 + 2 * i), 8))
                    else:
                        b = bv(f.byte(32 + i), 8)
                        s = (nib(b, True), nib(b, False))
                    for k in (0, 1):
                        P('sample values', int8_is(res.ex, m, 2 * i + k, s[k]) if ci8 else float_is(res.ex, m, 8 * i + 4 * k, s[k]))
            r.contract(method + ' decodes every frame', dec, ['lsl/reader/%s.cpp:read_%s' % (kind, kind), 'lsl/reader/gofast.cpp:initLWALUTs'],
                       rep, budget=200)

            def sync(cx, method=method, N=N):
                res = guard(cx, method, lambda: call_reader(cx, method, None, size=N))
                if res is None:
                    return
                f = res.file
                good = be(f, 0, 4) == 0xDEC0DE5C
                cx.prove(method + ': accepted if and only if the sync word is right', good if res.err is None else z3.Not(good))
                if res.err is not None:
                    cx.prove(method + ': bad sync word reported', res.err == 'SyncError' and not res.h and not res.p)
                    cx.cover('bad sync')
                else:
                    cx.cover('good sync')
            r.contract(method + ' sync word', sync, ['lsl/reader/readers.hpp:validSync5C'], rep, covers=['bad sync', 'good sync'], budget=200)
            F.short_reads(r, method, method, N, FIXED, [], lambda i, e=eight, c=ci8, N=N: truncated(e, c, i, N))

    par.__exit__(None, None, None)

    def cases():
        for kind in ('drx', 'drx8'):
            for ci8 in (False, True):
                for mode, n in (('random', 40), ('real', 40), ('sync', 24), ('trunc', 1), ('all', 3), ('ones', 1), ('seq', 3)):
                    for k in range(n * (10 if r.thorough else 1)):
                        yield (kind, ci8, mode, k + 1000 * r.seed)
    r.concrete('frames read by the compiled extension', cases(), battery_one, limit_s=90)
