"""C21: power spectra (SpecMaster) and Stokes spectra (StokesMaster)."""
import math
import sys
import numpy as np
import z3
from pv import dsp
from pv.dsp import Q, cadd, conj, cmul, eq, value
from checks.c20 import pfb_window, BOUND

LEVEL = 'exploration'
SPEC, STK = ['lsl/correlator/spec.cpp'], ['lsl/correlator/stokes.cpp']


def run(r):
    r.assume('FFTW computes the DFT; floating point treated as real arithmetic (constants to 1e-6); one thread (the battery runs the OpenMP build)',
             'sizes bounded in the symbolic contracts, larger ones sampled by the battery')
    r.trust('FFTW plan/execute, libm sin/cos/sqrt, NumPy C API (assumed contracts in pv/dsp.py)')
    exts = {'spec': dsp.ext('_spec', SPEC), 'stokes': dsp.ext('_stokes', STK)}

    def contract(which, label, typ, n, nS, nSamp, overlap=1, pfb=False, window=False, clip=0, sel=None):
        kind = 'real' if typ in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8') else 'complex'
        N = 2 * n if kind == 'real' else n
        nTap = 4 if pfb else 1
        method = 'PFBPSD' if pfb else 'FPSD'
        npol = 2 if which == 'stokes' else 1

        def sample(s, p, i, k):
            """(cells, (re, im))"""
            nm = 'xy'[p] + '%d_%d_' % (i, k)
            if sel is not None and (p, i, k) not in sel:
                a, b = (k % 5 - 2), (i + 1 if kind == 'complex' else 0)
                return ([a, b] if typ == 'ci8' else [(Q(a), Q(b))] if kind == 'complex' else [a]), (Q(a), Q(b))
            if typ == 'ci8':
                v = s.syms(nm, [2], 'i1')
                return v, (value(v[0]), value(v[1]))
            v = s.syms(nm, [], typ)[0]
            return [v], (v if kind == 'complex' else (value(v), Q(0)))

        def go(cx):
            s = dsp.Session(cx, exts[which])
            sig, X = [], []
            for p in range(npol):
                cells, rows = [], []
                for i in range(nS):
                    rows.append([])
                    for k in range(nSamp):
                        c, v = sample(s, p, i, k)
                        cells += c
                        rows[-1].append(v)
                sig.append(s.array([nS, nSamp] + ([2] if typ == 'ci8' else []), 'i1' if typ == 'ci8' else typ, cells))
                X.append(rows)
            kw = dict(LFFT=n, overlap=overlap, clip_level=clip)
            win = pfb_window(N) if pfb else None
            if window:
                win = s.syms('w', [N], 'f8')

                def call(env, a):
                    cx.prove('window function called with the transform length', z3.BoolVal(env.obj(a[0]).attrs.get('v') == N))
                    return s.array([N], 'f8', win)
                kw['window'] = s.env.new('function', call=call)
            nb = 0
            while N * nb // overlap + N <= nSamp:
                nb += 1
            # the blanking decisions of this path
            ret = s.call(method, sig, **kw)
            cx.prove('%s: returns' % method, z3.BoolVal(ret.o is not None))
            d, got = s.values(ret)
            cx.prove('%s: shape' % method, z3.BoolVal(list(d) == ([4] if npol == 2 else []) + [nS, n]))
            for i in range(nS):
                acc = [[Q(0)] * n for _ in range(4)]
                act = 0
                for j in range(nb):
                    st = N * j // overlap
                    if clip:
                        good = z3.BoolVal(True)
                        for p in range(npol):
                            for q in range(max(0, st - N * (nTap - 1)), st + N):
                                a, b = X[p][i][q]
                                good = z3.And(good, a * a + b * b < clip * clip) if kind == 'complex' else z3.And(good, a < clip, a > -clip)
                        if cx._check(good) == z3.unsat:
                            continue
                        if not cx.prove('%s: the path decides whether block %d is clipped' % (method, j), good):
                            return
                    act += 1
                    F = []
                    for p in range(npol):
                        f = [(Q(0), Q(0))] * N
                        for t in range(nTap):
                            blk = []
                            for k in range(N):
                                q = st - N * (nTap - 1) + t * N + k
                                v = X[p][i][q] if q >= 0 else (Q(0), Q(0))
                                w = Q(1) if win is None else win[t * N + k] if isinstance(win[t * N + k], z3.ExprRef) else Q(float(win[t * N + k]))
                                blk.append((v[0] * w, v[1] * w))
                            f = [cadd(a, b) for a, b in zip(f, dsp.dft(blk))]
                        if kind == 'complex':
                            f = f[n - n // 2:] + f[:n - n // 2]
                        F.append(f[:n])
                    for k in range(n):
                        a = F[0][k]
                        if npol == 1:
                            acc[0][k] = acc[0][k] + a[0] * a[0] + a[1] * a[1]
                        else:
                            b = F[1][k]
                            xx, yy, xy = a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1], cmul(a, conj(b))
                            for p, v in enumerate((xx + yy, xx - yy, 2 * xy[0], 2 * xy[1])):
                                acc[p][k] = acc[p][k] + v
                if act == 0:
                    continue
                for p in range(1 if npol == 1 else 4):
                    for k in range(n):
                        eq(cx, '%s %s (%s): %s of stand %d channel %d' % (which, method, label, 'power' if npol == 1 else 'IQUV'[p], i, k),
                           got[(p * nS + i) * n + k], acc[p][k] * Q(1.0 / (act * N)))

        def rep(inp):
            sig = []
            for p in range(npol):
                x = np.zeros((nS, nSamp), dtype=np.complex128)
                for i in range(nS):
                    for k in range(nSamp):
                        nm = 'xy'[p] + '%d_%d_' % (i, k)
                        if sel is not None and (p, i, k) not in sel:
                            x[i, k] = complex(k % 5 - 2, i + 1 if kind == 'complex' else 0)
                        elif typ == 'ci8':
                            q = [int(inp.get(nm + str(c), 0)) for c in (0, 1)]
                            x[i, k] = complex(*[u - 256 if u > 127 else u for u in q])
                        elif kind == 'complex':
                            x[i, k] = complex(dsp.number(inp, nm + '0.re'), dsp.number(inp, nm + '0.im'))
                        elif typ[0] == 'i':
                            u = int(inp.get(nm + '0', 0))
                            b = 8 * int(typ[1])
                            x[i, k] = u - (1 << b) if u >> (b - 1) else u
                        else:
                            x[i, k] = dsp.number(inp, nm + '0')
                sig.append(x)
            w = np.array([dsp.number(inp, 'w%d' % k) for k in range(N)])
            return creal(which, method, typ, sig, n, overlap, clip, (lambda L: w) if window else None)
        r.contract('%s %s: %s' % (which, method, label), go,
                   ['%s:%s' % ((SPEC if which == 'spec' else STK)[0], method), '%s:compute_%s_%s' % ((SPEC if which == 'spec' else STK)[0], which, kind), 'lsl/correlator/blas.hpp:blas_scal'],
                   rep, bounded=BOUND)

    def cast(x, typ):
        if typ == 'ci8':
            return np.stack([x.real, x.imag], axis=-1).astype(np.int8)
        return (x if typ[0] == 'c' else x.real).astype(np.dtype(typ))

    def uncast(xc, typ):
        return xc[..., 0] + 1j * xc[..., 1].astype(float) if typ == 'ci8' else xc.astype(np.complex128 if typ[0] == 'c' else np.float64)

    def ref(kind, sig, n, overlap, clip, w, nTap):
        nS, nSamp = sig[0].shape
        N = 2 * n if kind == 'real' else n
        out = np.zeros((4 if len(sig) == 2 else 1, nS, n))
        for i in range(nS):
            act, j = 0, 0
            while N * j // overlap + N <= nSamp:
                st = N * j // overlap
                j += 1
                segs = [np.concatenate([np.zeros(N * nTap), x[i]])[st + N * nTap - N * (nTap - 1):st + N * nTap + N] for x in sig]
                if clip:
                    mg = [abs(s.astype(np.complex64)) for s in segs]
                    if any(np.any(m >= clip) for m in mg):
                        continue
                act += 1
                F = []
                for s in segs:
                    f = np.fft.fft((s * (1 if w is None else w)).reshape(nTap, N), axis=1).sum(axis=0)
                    F.append(f[:n] if kind == 'real' else np.fft.fftshift(f))
                if len(F) == 1:
                    out[0, i] += abs(F[0])**2
                else:
                    xx, yy, xy = abs(F[0])**2, abs(F[1])**2, F[0] * F[1].conj()
                    out[:, i] += np.array([xx + yy, xx - yy, 2 * xy.real, 2 * xy.imag])
            with np.errstate(all='ignore'):
                out[:, i] /= np.float64(act) * N
        return out if len(sig) == 2 else out[0]

    def compare(what, got, want, amp, N):
        if got.shape != want.shape:
            return '%s: shape %s, expected %s' % (what, got.shape, want.shape)
        fin = np.isfinite(want)
        if np.any(np.isfinite(got) != fin) or np.any(abs(got - want)[fin] > 3e-5 * (amp**2 * N + 1e-30)):
            k = np.unravel_index(np.argmax(np.where(fin, abs(got - want), 0)), want.shape)
            return '%s: element %s = %s, expected %s' % (what, tuple(map(int, k)), got[k], want[k])

    def creal(which, method, typ, sig, n, overlap, clip, window):
        m = dsp.real('_spec', SPEC) if which == 'spec' else dsp.real('_stokes', STK)
        kind = 'complex' if typ[0] == 'c' else 'real'
        N = 2 * n if kind == 'real' else n
        xc = [cast(x, typ) for x in sig]
        got = getattr(m, method)(*xc, LFFT=n, overlap=overlap, clip_level=clip, window=window)
        xr = [uncast(x, typ) for x in xc]
        w = pfb_window(N) if method == 'PFBPSD' else window(N) if window else None
        want = ref(kind, xr, n, overlap, clip, w, 4 if method == 'PFBPSD' else 1)
        return compare('%s %s of %s data, %d stands, %d samples, LFFT=%d, overlap=%d, clip=%d' % (which, method, typ, *sig[0].shape, n, overlap, clip), got, want,
                       max(abs(x).max() for x in xr) * (1 if w is None else max(1, abs(w).max())), N)

    with r.parallel():
        for which in ('spec', 'stokes'):
            for typ in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8'):
                contract(which, '%s samples' % typ, typ, 2, 2, 9)
            for typ in ('ci8', 'c8', 'c16'):
                contract(which, '%s samples' % typ, typ, 4, 2, 9 if which == 'spec' else 5)
            contract(which, 'complex, odd channel count', 'c8', 3, 2, 6)
            contract(which, 'real, overlap 2', 'f4', 2, 1, 9, overlap=2)
            contract(which, 'complex, overlap 3', 'c8', 4, 1, 9, overlap=3)
            contract(which, 'real, window', 'f4', 2, 1, 8, window=True)
            contract(which, 'complex, window', 'c8', 2, 2, 4, window=True)
            contract(which, 'real, polyphase', 'f4', 1, 2, 7, pfb=True)
            contract(which, 'complex, polyphase', 'c8', 2, 1, 6, pfb=True)
            sel = [(0, 0, 1), (0, 0, 6)] + ([(1, 0, 5)] if which == 'stokes' else [])
            contract(which, 'real, blanking', 'f4', 2, 1, 12, clip=5, sel=sel)
            contract(which, 'real, blanking, integers', 'i1', 2, 2, 8, clip=5, sel=[(0, 0, 2), (0, 1, 7)])
            contract(which, 'complex, blanking', 'c8', 2, 1, 6, clip=5, sel=[(0, 0, 2), (1 if which == 'stokes' else 0, 0, 1)])

    # ------------------------------------------------------------------ real code
    rng = r.rng
    sys.modules['lsl.correlator._core'] = dsp.real('_core', ['lsl/correlator/core.cpp'])
    sys.modules['lsl.correlator._stokes'] = dsp.real('_stokes', STK)
    sys.modules['lsl.correlator._spec'] = dsp.real('_spec', SPEC)
    from lsl.correlator import fx
    from lsl.reader.base import CI8

    class Ant:
        def __init__(self, pol): self.pol = pol

    def battery(c):
        kind_, seed, method, typ, nS, n, nSamp, overlap, clip, win, opt = c
        rs = np.random.RandomState(seed)
        kind = 'complex' if typ[0] == 'c' else 'real'
        N = 2 * n if kind == 'real' else n
        npol = 2 if kind_ == 'stokes' else 1

        def data(m):
            x = rs.randn(m, nSamp) * 20 + (1j * rs.randn(m, nSamp) * 20 if kind == 'complex' else 0)
            return np.round(x) if typ[0] == 'i' or typ == 'ci8' or clip else x
        window = np.hanning if win else None
        if opt is None:
            return creal(kind_, method, typ, [data(nS) for _ in range(npol)], n, overlap, clip, window)
        fs, cf, mix = opt
        x = data(nS * npol)
        xc = cast(x, typ)
        xr = uncast(xc, typ)
        if typ == 'ci8':
            xc = xc.copy().view(CI8).reshape(xc.shape[:2])
        kw = dict(LFFT=n, pfb=method == 'PFBPSD', clip_level=clip, central_freq=cf)
        if fs:
            kw['sample_rate'] = fs
        if window is not None:
            kw['window'] = window
        w = pfb_window(N) if method == 'PFBPSD' else window(N) if window else None
        fsv = fs or 196e6
        freq = (np.arange(n) - n // 2) * fsv / n + cf if kind == 'complex' else np.arange(n) * fsv / N
        if npol == 1:
            fg, got = fx.SpecMaster(xc, **kw)
            sig = [xr]
        else:
            pols = [0] * nS + [1] * nS
            if mix:
                rs.shuffle(pols)
            fg, got = fx.StokesMaster(xc, [Ant(p) for p in pols], **kw)
            sig = [xr[[i for i, p in enumerate(pols) if p == q]] for q in (0, 1)]
        what = '%s of %s data, %d stands, %d samples, LFFT=%d, clip=%d, %r' % ('SpecMaster' if npol == 1 else 'StokesMaster', typ, nS, nSamp, n, clip, opt)
        if np.shape(fg) != (n,) or abs(fg - freq).max() > 1e-6 * fsv:
            return '%s: frequencies %r, expected %r' % (what, fg[:4], freq[:4])
        return compare(what, got, ref(kind, sig, n, 1, clip, w, 4 if method == 'PFBPSD' else 1), abs(xr).max() * (1 if w is None else max(1, abs(w).max())), N)

    def cases():
        for k in range(600 if not r.thorough else 8000):
            typ = rng.choice(['i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'ci8', 'c8', 'c16'])
            n = rng.choice([1, 2, 3, 5, 8, 16, 33, 64])
            N = 2 * n if typ[0] != 'c' else n
            pfb = k % 5 == 1
            opt = None if k % 2 else (rng.choice([None, 196e6, 100e3]), rng.choice([0.0, 38e6]), rng.random() < .7)
            yield (('spec', 'stokes')[k // 2 % 2], rng.randrange(10**6), 'PFBPSD' if pfb else 'FPSD', typ, rng.choice([1, 2, 5]), n,
                   N * rng.choice([1, 2, 5, 9]) + rng.randrange(0, N), rng.choice([x for x in (1, 1, 2, 3, 4, 7) if x <= N]), rng.choice([0, 0, 40, 60]), (not pfb) and rng.random() < .3, opt)
    r.concrete('spectra of the compiled modules, SpecMaster and StokesMaster', cases(), battery, limit_s=60)
