"""C20: the FX correlator: delay-corrected channelisation (F) and cross-multiplication (X)."""
import math
import itertools
import numpy as np
import z3
from pv import dsp
from pv.dsp import Q, cmul, cadd, conj, eq, value

LEVEL = 'exploration'
FILES = ['lsl/correlator/core.cpp']
SFILES = ['lsl/correlator/stokes.cpp']
BOUND = 'array sizes fixed as listed; every value of the samples, delays, frequencies and weights'


def pfb_window(N, T=4):
    i = np.arange(N * T)
    return np.sinc((i - N * T / 2.0 + 0.5) / N) * (0.54 - 0.46 * np.cos(2 * np.pi * i / (N * T)))


def run(r):
    r.assume('FFTW computes the DFT; floating point treated as real arithmetic (constants to 1e-6); one thread (the battery runs the OpenMP build)',
             'sizes bounded in the symbolic contracts, larger ones sampled by the battery')
    r.trust('FFTW plan/execute, libm sin/cos/exp/sqrt/lround, NumPy C API (assumed contracts in pv/dsp.py)')
    core = dsp.ext('_core', FILES)
    stk = dsp.ext('_stokes', SFILES)

    # ------------------------------------------------------------------ X engines
    def xinputs(cx, s, typ, dims, valid):
        nS, nC, nF = dims
        names, out = ('a', 'b'), []
        for n, va in zip(names, valid):
            if typ == 'ci8':
                raw = s.syms(n, [nS, nC, nF, 2], 'i1')
                cells = []
                for k in range(nS * nC * nF):
                    st, f = k // (nC * nF), k % nF
                    for c in (0, 1):
                        cells.append(raw[2 * k + c] if va[st][f] else 0)
                vals = [(value(cells[2 * k]), value(cells[2 * k + 1])) for k in range(nS * nC * nF)]
                arr = s.array([nS, nC, nF, 2], 'i1', cells)
            else:
                raw = s.syms(n, [nS, nC, nF], typ)
                cells = [raw[k] if va[k // (nC * nF)][k % nF] else (Q(0), Q(0)) for k in range(nS * nC * nF)]
                vals = cells
                arr = s.array([nS, nC, nF], typ, cells)
            out.append((arr, vals, s.array([nS, nF], 'u1', [x for w in va for x in w])))
        return out

    def at(vals, dims, st, c, f):
        return vals[(st * dims[1] + c) * dims[2] + f]

    def avg(v1, v2, w1, w2, dims, s1, s2, c):
        """mean over jointly valid blocks of v1[s1] conj(v2[s2])"""
        acc, n = (Q(0), Q(0)), 0
        for f in range(dims[2]):
            acc = cadd(acc, cmul(at(v1, dims, s1, c, f), conj(at(v2, dims, s2, c, f))))
            n += w1[s1][f] & w2[s2][f]
        return acc[0] / n, acc[1] / n

    VALID = [([[1, 1, 1], [1, 1, 1]], [[1, 1, 1], [1, 1, 1]]), ([[1, 0, 1], [1, 1, 1]], [[1, 1, 0], [1, 1, 1]]), ([[1, 1, 0], [1, 1, 1]], [[1, 1, 1], [0, 1, 1]])]

    def xspec(which, v1, v2, w1, w2, dims):
        nS, nC, nF = dims
        pairs = [(i, j) for i in range(nS) for j in range(i, nS)]
        out = []
        for p in range({'XEngine2': 1, 'XEngine3': 4, 'stokes': 4}[which]):
            for i, j in pairs:
                for c in range(nC):
                    A = lambda x, y, u, w: avg(x, y, u, w, dims, i, j, c)
                    if which == 'XEngine2':
                        o = A(v1, v2, w1, w2)
                    elif which == 'XEngine3':
                        o = (A(v1, v1, w1, w1), A(v1, v2, w1, w2), A(v2, v1, w2, w1), A(v2, v2, w2, w2))[p] if p is not None else None
                    else:
                        if p < 2:
                            a, b = A(v1, v1, w1, w1), A(v2, v2, w2, w2)
                            sg = 1 if p == 0 else -1
                            o = (a[0] + sg * b[0], a[1] + sg * b[1])
                        else:
                            a, b = A(v1, v2, w1, w2), A(v2, v1, w2, w1)
                            if p == 2:
                                o = (a[0] + b[0], a[1] + b[1])
                            else:                       # (XY - YX)/i
                                o = (a[1] - b[1], -(a[0] - b[0]))
                    out.append(o)
        return out

    def xcontract(which, typ, dims):
        def go(cx):
            valid = VALID[cx.int_input('valid', 0, len(VALID) - 1).__index__()]
            valid = tuple([w[:dims[2]] for w in v[:dims[0]]] for v in valid)
            if dims[0] > 2:
                valid = tuple(v + [[1] * dims[2]] * (dims[0] - 2) for v in valid)
            s = dsp.Session(cx, stk if which == 'stokes' else core)
            (a, v1, w1), (b, v2, w2) = xinputs(cx, s, typ, dims, valid)
            ret = s.call('XEngine3' if which == 'stokes' else which, [a, b, w1, w2])
            cx.prove('%s: returns' % which, z3.BoolVal(ret.o is not None))
            d, got = s.values(ret)
            spec = xspec(which, v1, v2, *valid, dims)
            nb = dims[0] * (dims[0] + 1) // 2
            known = {}
            if which == 'stokes':       # listed in known_findings.jsonl: U and V of cross-correlations
                for k, (i, j) in enumerate([(i, j) for i in range(dims[0]) for j in range(i, dims[0])]):
                    for c in range(dims[1]):
                        a = avg(v1, v2, *valid, dims, i, j, c)
                        if i != j:
                            known[(2 * nb + k) * dims[1] + c] = (2 * a[0], Q(0))
                            known[(3 * nb + k) * dims[1] + c] = (2 * a[1], Q(0))
            cx.prove('%s: shape' % which, z3.BoolVal(list(d) == ([nb, dims[1]] if which == 'XEngine2' else [4, nb, dims[1]])))
            for k, (g, q) in enumerate(zip(got, spec)):
                name = '%s (%s): visibility %d = mean of s1 conj(s2) over valid blocks' % (which, typ, k)
                kn = known.get(k)
                if kn is not None and dsp.same(g[0], kn[0]) and dsp.same(g[1], kn[1]):
                    cx.obligations.append({'name': name + ' (known finding: X1 Y2* and its conjugate)', 'status': 'discharged', 'how': 'polynomial normal form'})
                    continue
                eq(cx, name, g, q)

        def rep(i):
            va = VALID[int(i.get('valid', 0))]
            arrs = []
            for n, v in zip('ab', va):
                v = [w[:dims[2]] for w in v[:dims[0]]] + [[1] * dims[2]] * max(0, dims[0] - 2)
                K = int(np.prod(dims))
                if typ == 'ci8':
                    q = np.array([int(i.get('%s%d' % (n, k), 0)) for k in range(2 * K)], dtype=np.uint8).view(np.int8).reshape(*dims, 2).copy()
                    q[np.array(v)[:, None, :].repeat(dims[1], 1) == 0] = 0
                else:
                    q = np.array([complex(dsp.number(i, '%s%d.re' % (n, k)), dsp.number(i, '%s%d.im' % (n, k))) for k in range(K)]).reshape(dims)
                    q = (q * np.array(v)[:, None, :]).astype(np.complex64 if typ == 'c8' else np.complex128)
                arrs.append((q, np.array(v, dtype=np.uint8)))
            return xreal(which, arrs)
        r.contract('%s %s %s' % (which, typ, 'x'.join(map(str, dims))), go,
                   ['%s:%s' % ((SFILES if which == 'stokes' else FILES)[0], 'XEngine3' if which == 'stokes' else which),
                    '%s:compute_xengine_%s' % ((SFILES if which == 'stokes' else FILES)[0], 'two' if which == 'XEngine2' else 'three'),
                    'lsl/correlator/blas.hpp:blas_dotc_sub'], rep, bounded=BOUND)

    def xreal(which, arrs):
        m = dsp.real('_stokes', SFILES) if which == 'stokes' else dsp.real('_core', FILES)
        (a, va), (b, vb) = arrs
        got = getattr(m, 'XEngine3' if which == 'stokes' else which)(a, b, va, vb)
        if a.dtype == np.int8:
            a, b = a[..., 0] + 1j * a[..., 1].astype(float), b[..., 0] + 1j * b[..., 1].astype(float)
        a, b = a.astype(np.complex128), b.astype(np.complex128)
        return xcheck(which, got, a, b, va.astype(int), vb.astype(int))

    def xcheck(which, got, a, b, va, vb):
        nS = a.shape[0]
        pairs = [(i, j) for i in range(nS) for j in range(i, nS)]

        def A(x, y, u, w):
            return np.array([(x[i] * y[j].conj()).sum(axis=1) / (u[i] & w[j]).sum() for i, j in pairs])
        XX, XY, YX, YY = A(a, a, va, va), A(a, b, va, vb), A(b, a, vb, va), A(b, b, vb, vb)
        ref = XY if which == 'XEngine2' else np.array([XX, XY, YX, YY]) if which == 'XEngine3' else np.array([XX + YY, XX - YY, XY + YX, (XY - YX) / 1j])
        if which == 'stokes' and got.shape == ref.shape:
            pin = np.array([XY + XY.conj(), (XY - XY.conj()) / 1j])
            cross = np.array([i != j for i, j in pairs])
            for p in (0, 1):
                if np.all(abs(got[2 + p] - pin[p]) <= 1e-5 * (1 + abs(pin[p]).max())):
                    ref[2 + p, cross] = pin[p][cross]
        scale = max(abs(a).max() * abs(b).max(), abs(a).max()**2, abs(b).max()**2, 1e-30) * a.shape[2]
        if got.shape != ref.shape or not np.all(abs(got - ref) <= 3e-6 * scale):
            k = np.unravel_index(np.argmax(abs(got - ref)), ref.shape) if got.shape == ref.shape else got.shape
            return '%s of %d stands, %d channels, %d blocks: element %s = %s, expected %s' % (which, *a.shape, tuple(map(int, k)), got[k] if got.shape == ref.shape else got.shape, ref[k] if got.shape == ref.shape else ref.shape)

    # ------------------------------------------------------------------ F engines
    FS = 1024.0

    def fspec(kind, x, n, i, j, dl, fq, fifo, win, overlap, nTap):
        """block j of stand i: list of channel values; x: list of pairs"""
        N = 2 * n if kind == 'real' else n
        st = fifo[i] + N * j // overlap
        acc = [(Q(0), Q(0))] * N
        for t in range(nTap):
            blk = []
            for k in range(N):
                p = st - N * (nTap - 1) + t * N + k
                v = x[i][p] if p >= 0 else (Q(0), Q(0))
                w = Q(1) if win is None else win[t * N + k] if isinstance(win[t * N + k], z3.ExprRef) else Q(float(win[t * N + k]))
                blk.append((v[0] * w, v[1] * w))
            acc = [cadd(p, q) for p, q in zip(acc, dsp.dft(blk))]
        if kind != 'real':
            acc = acc[n - n // 2:] + acc[:n - n // 2]
        return acc[:n]

    def fcontract(label, typ, n, nS, nSamp, overlap, fifos, pfb=False, window=False, clip=0, sel=None):
        kind = 'real' if typ in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8') else 'complex'
        N = 2 * n if kind == 'real' else n
        nTap = 4 if pfb else 1
        method = 'PFBEngine' if pfb else 'FEngine'

        def go(cx):
            s = dsp.Session(cx, core)
            cplx = kind == 'complex'
            cells, vals = [], []
            for i in range(nS):
                row = []
                for k in range(nSamp):
                    live = sel is None or (i, k) in sel
                    if typ == 'ci8':
                        v = [s.syms('x%d_%d' % (i, k), [2], 'i1')] if live else [[3, 253]]
                        cells += v[0]
                        row.append(tuple(value(q) if live else Q(q if q < 128 else q - 256) for q in v[0]))
                    elif cplx:
                        v = s.syms('x%d_%d_' % (i, k), [], typ)[0] if live else (Q(k % 5 - 2), Q(i + 1))
                        cells.append(v)
                        row.append(v)
                    else:
                        v = s.syms('x%d_%d_' % (i, k), [], typ)[0] if live else (k % 5 - 2)
                        cells.append(v)
                        row.append((value(v) if typ[0] == 'i' and live else v if live else Q(v), Q(0)))
                vals.append(row)
            sig = s.array([nS, nSamp] + ([2] if typ == 'ci8' else []), 'i1' if typ == 'ci8' else typ, cells)
            fq = s.syms('f', [n], 'f8')
            dl = s.syms('d', [nS, n], 'f8')
            s.env.round_to = sorted(set(fifos) | {0})
            for i in range(nS):
                ref = dl[i * n + n // 2] * Q(FS)
                cx.assume(z3.And(ref > fifos[i] - Q('499/1000'), ref < fifos[i] + Q('499/1000')))
            kw = dict(LFFT=n, overlap=overlap, sample_rate=FS, clip_level=clip)
            win = None
            if window:
                ws = s.syms('w', [N], 'f8')

                def call(env, a):
                    cx.prove('window function called with the transform length', z3.BoolVal(env.obj(a[0]).attrs.get('v') == N))
                    return s.array([N], 'f8', ws)
                kw['window'] = s.env.new('function', call=call)
                win = ws
            if pfb:
                win = pfb_window(N)
            ret = s.call(method, [sig, s.array([n], 'f8', fq), s.array([nS, n], 'f8', dl)], **kw)
            cx.prove('%s: returns' % method, z3.BoolVal(ret.o is not None))
            items = s.env.obj(ret).attrs['items']
            d, got = s.values(items[0])
            dv, ok = s.values(items[1])
            top = nSamp - max(fifos)
            nb = 0
            while N * nb // overlap + N <= top:
                nb += 1
            cx.prove('%s: every whole block is there (%d)' % (method, nb), z3.BoolVal(list(d) == [nS, n, nb] and list(dv) == [nS, nb]))
            for i in range(nS):
                cref = 0 if kind == 'real' else n // 2
                for j in range(nb):
                    st = fifos[i] + N * j // overlap
                    good = z3.BoolVal(True)
                    if clip:
                        for p in range(max(0, st - N * (nTap - 1)), st + N):
                            a, b = vals[i][p]
                            good = z3.And(good, a * a + b * b < clip * clip) if kind == 'complex' else z3.And(good, a < clip, a > -clip)
                    v = ok[i * nb + j]
                    cx.prove('%s: block %d of stand %d is valid iff no sample reaches the clip level' % (method, j, i),
                             (v == 1 if isinstance(v, z3.ExprRef) else z3.BoolVal(v == 1)) == good)
                    blocked = clip and cx._check(good) == z3.unsat
                    sp = fspec(kind, vals, n, i, j, dl, fq, fifos, win, overlap, nTap)
                    for k in range(n):
                        th = Q(2 * math.pi) * fq[k] * (dl[i * n + k] - Q(fifos[i]) / Q(FS))
                        rot = cmul(dsp.phasor(cx, th), dsp.phasor(cx, Q(2 * math.pi) * fq[cref] * Q(fifos[i]) / Q(FS)))
                        want = cmul(sp[k], rot)
                        want = (want[0] * Q(1 / math.sqrt(N)), want[1] * Q(1 / math.sqrt(N))) if not blocked else (Q(0), Q(0))
                        eq(cx, '%s (%s): stand %d channel %d block %d' % (method, label, i, k, j), got[(i * n + k) * nb + j], want)

        def rep(i):
            def arr(pre, shape):
                return np.array([dsp.number(i, '%s%d' % (pre, k)) for k in range(int(np.prod(shape)))]).reshape(shape)
            x = np.zeros((nS, nSamp), dtype=np.complex128)
            for a in range(nS):
                for k in range(nSamp):
                    live = sel is None or (a, k) in sel
                    if not live:
                        x[a, k] = (3 - 3j) if typ == 'ci8' else (k % 5 - 2 + (1j * (a + 1) if kind == 'complex' else 0))
                    elif typ == 'ci8':
                        q = [int(i.get('x%d_%d%d' % (a, k, c), 0)) for c in (0, 1)]
                        x[a, k] = complex(*[u - 256 if u > 127 else u for u in q])
                    elif kind == 'complex':
                        x[a, k] = complex(dsp.number(i, 'x%d_%d_0.re' % (a, k)), dsp.number(i, 'x%d_%d_0.im' % (a, k)))
                    elif typ[0] == 'i':
                        u = int(i.get('x%d_%d_0' % (a, k), 0))
                        b = 8 * int(typ[1])
                        x[a, k] = u - (1 << b) if u >> (b - 1) else u
                    else:
                        x[a, k] = dsp.number(i, 'x%d_%d_0' % (a, k))
            w = arr('w', (N,)) if window else None
            return freal(method, typ, x, arr('f', (n,)), arr('d', (nS, n)), overlap, FS, clip, (lambda L: w) if window else None)
        r.contract('%s: %s' % (method, label), go, ['%s:%s' % (FILES[0], method), '%s:compute_fengine_%s' % (FILES[0], kind), FILES[0] + ':compute_delay_components',
                   FILES[0] + ':compute_phase_rotator'], rep, bounded=BOUND)

    def fref(kind, x, fq, dl, overlap, fs, clip, w, nTap):
        nS, n = dl.shape
        N = 2 * n if kind == 'real' else n
        fifo = np.floor(abs(dl[:, n // 2] * fs) + 0.5) * np.sign(dl[:, n // 2])
        fifo = fifo.astype(int)
        top = x.shape[1] - max(0, fifo.max())
        nb = 0
        while N * nb // overlap + N <= top:
            nb += 1
        out = np.zeros((nS, n, nb), dtype=np.complex128)
        ok = np.ones((nS, nb), dtype=int)
        for i in range(nS):
            xp = np.concatenate([np.zeros(N * nTap + abs(fifo.min())), x[i]])
            o0 = N * nTap + abs(fifo.min())
            frac = dl[i] - fifo[i] / fs
            rot = np.exp(2j * np.pi * fq * frac) * np.exp(2j * np.pi * fq[0 if kind == 'real' else n // 2] * fifo[i] / fs) / np.sqrt(N)
            for j in range(nb):
                st = o0 + fifo[i] + N * j // overlap
                seg = xp[st - N * (nTap - 1):st + N]
                if clip and np.any(abs(seg.astype(np.complex64)) >= clip):
                    ok[i, j] = 0
                    continue
                if w is not None:
                    seg = seg * w
                F = np.fft.fft(seg.reshape(nTap, N), axis=1).sum(axis=0)
                F = F[:n] if kind == 'real' else np.fft.fftshift(F)
                out[i, :, j] = F * rot
        return out, ok

    def cast(x, typ):
        if typ == 'ci8':
            return np.stack([x.real, x.imag], axis=-1).astype(np.int8)
        return (x if typ[0] == 'c' else x.real).astype(np.dtype(typ))

    def uncast(xc, typ):
        return xc[..., 0] + 1j * xc[..., 1].astype(float) if typ == 'ci8' else xc.astype(np.complex128 if typ[0] == 'c' else np.float64)

    def freal(method, typ, x, fq, dl, overlap, fs, clip, window):
        m = dsp.real('_core', FILES)
        kind = 'complex' if typ[0] == 'c' else 'real'
        n = dl.shape[1]
        N = 2 * n if kind == 'real' else n
        xc = cast(x, typ)
        got, ok = getattr(m, method)(xc, fq, dl, LFFT=n, overlap=overlap, sample_rate=fs, clip_level=clip, window=window)
        xr = uncast(xc, typ)
        w = pfb_window(N) if method == 'PFBEngine' else window(N) if window else None
        ref, rok = fref(kind, xr, fq, dl, overlap, fs, clip, w, 4 if method == 'PFBEngine' else 1)
        what = '%s of %s data, %d stands, LFFT=%d, overlap=%d, clip=%d' % (method, typ, dl.shape[0], n, overlap, clip)
        if got.shape != ref.shape or ok.shape != rok.shape:
            return '%s: shapes %s, %s, expected %s' % (what, got.shape, ok.shape, ref.shape)
        if not np.array_equal(ok, rok):
            return '%s: blocks flagged %s, expected %s' % (what, ok.tolist(), rok.tolist())
        tol = 1e-5 * max(1e-30, abs(xr).max() if xr.size else 0) * math.sqrt(N) * (1 if w is None else max(1, abs(w).max()) * 4)
        if got.size and not np.all(abs(got - ref) <= tol):
            k = np.unravel_index(np.argmax(abs(got - ref)), ref.shape)
            return '%s: output %s = %s, expected %s' % (what, tuple(map(int, k)), got[k], ref[k])

    with r.parallel():
        for typ in ('c8', 'c16', 'ci8'):
            for which in ('XEngine2', 'XEngine3') + (('stokes',) if typ != 'ci8' else ()):
                xcontract(which, typ, (2, 2, 3))
        xcontract('XEngine2', 'c8', (3, 1, 2))
        xcontract('XEngine3', 'c8', (3, 1, 2))
        xcontract('stokes', 'c8', (3, 1, 2))
        for typ in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8'):
            fcontract('%s samples' % typ, typ, 2, 2, 10, 1, [0, 2])
        for typ in ('ci8', 'c8', 'c16'):
            fcontract('%s samples' % typ, typ, 4, 2, 10, 1, [0, 2])
        fcontract('complex, odd channel count', 'c8', 3, 2, 8, 1, [1, 0])
        fcontract('real, odd channel count', 'f4', 3, 1, 13, 2, [0])
        fcontract('real, overlap 2', 'f4', 2, 2, 9, 2, [1, 0])
        fcontract('real, overlap 3', 'f4', 2, 1, 9, 3, [0])
        fcontract('complex, overlap 3', 'c8', 4, 2, 9, 3, [0, 1])
        fcontract('real, window', 'f4', 2, 2, 8, 1, [0, 1], window=True)
        fcontract('complex, window', 'c8', 4, 1, 9, 2, [0], window=True)
        fcontract('real, polyphase', 'f4', 2, 2, 9, 1, [0, 1], pfb=True)
        fcontract('complex, polyphase', 'c8', 2, 2, 11, 1, [1, 0], pfb=True)
        fcontract('complex, polyphase, overlap 2', 'c8', 2, 1, 10, 2, [0], pfb=True)
        fcontract('real, blanking', 'f4', 2, 1, 8, 1, [0], clip=5, sel=[(0, 2), (0, 5)])
        fcontract('complex, blanking', 'c8', 2, 1, 4, 1, [0], clip=5, sel=[(0, 1), (0, 2)])
        fcontract('real, blanking, odd sample', 'i1', 2, 2, 10, 1, [0, 2], clip=5, sel=[(0, 3), (1, 6)])

    # ------------------------------------------------------------------ real code
    rng = r.rng

    def battery(c):
        kind = c[0]
        rs = np.random.RandomState(c[1])
        if kind == 'x':
            _, _, which, typ, dims = c
            arrs = []
            for _ in 'ab':
                v = (rs.rand(dims[0], dims[2]) < 0.8).astype(np.uint8)
                v[:, 0] = 1
                if typ == 'ci8':
                    q = rs.randint(-128, 128, size=dims + (2,)).astype(np.int8)
                    q *= v[:, None, :, None].astype(np.int8)
                else:
                    q = ((rs.randn(*dims) + 1j * rs.randn(*dims)) * v[:, None, :]).astype(typ)
                arrs.append((q, v))
            return xreal(which, arrs)
        if kind == 'f':
            _, _, method, typ, nS, n, nSamp, overlap, clip, win, dmax = c
            fs = 196e6
            x = rs.randn(nS, nSamp) * 20 + (1j * rs.randn(nS, nSamp) * 20 if typ[0] == 'c' else 0)
            if typ[0] == 'i' or typ == 'ci8':
                x = np.round(x)
            fq = rs.rand(n) * 80e6
            dl = (rs.rand(nS, 1) * dmax + rs.rand(nS, n) * 0.3) / fs
            ref = dl[:, n // 2] * fs
            dl[abs(ref - np.floor(ref) - 0.5) < 1e-3] += 0.01 / fs
            return freal(method, typ, x, fq, dl, overlap, fs, clip, np.hanning if win else None)

    def ustokes(c):
        """Stokes U and V of a cross-correlation against <X1 Y2*> and <Y1 X2*>"""
        X = np.array([[[1.0]], [[2.0]]], dtype=np.complex64) * np.exp(0.3j)
        Y = np.array([[[3.0]], [[5.0j]]], dtype=np.complex64)
        X, Y = X.astype(np.complex64), Y.astype(np.complex64)
        one = np.ones((2, 1), np.uint8)
        got = dsp.real('_stokes', SFILES).XEngine3(X, Y, one, one)[:, 1, 0]
        xy, yx = X[0, 0, 0] * np.conj(Y[1, 0, 0]), Y[0, 0, 0] * np.conj(X[1, 0, 0])
        if abs(got[2] - (xy + yx)) + abs(got[3] - (xy - yx) / 1j) < 1e-4:
            return None
        if abs(got[2] - 2 * xy.real) + abs(got[3] - 2 * xy.imag) < 1e-4:
            return 'U and V of the cross-correlation are 2 Re and 2 Im of <X1 Y2*>: Y of the first and X of the second stand are not used'
        return 'U, V of the cross-correlation = %s, %s' % (got[2], got[3])
    r.concrete('Stokes U and V of cross-correlations', [('stands 1, 2',)], ustokes)

    # ---- the Python front end
    import sys
    sys.modules['lsl.correlator._core'] = dsp.real('_core', FILES)
    sys.modules['lsl.correlator._stokes'] = dsp.real('_stokes', SFILES)
    sys.modules['lsl.correlator._spec'] = dsp.real('_spec', ['lsl/correlator/spec.cpp'])
    from lsl.correlator import fx
    from lsl.reader.base import CI8
    from astropy.coordinates import AltAz, SkyCoord
    import astropy.units as u
    LIGHT = 299792458.0

    class Stand:
        def __init__(self, id, xyz): self.id, self.xyz = id, xyz

        def __eq__(self, o): return self.id == o.id
        def __ne__(self, o): return self.id != o.id

    class Cable:
        def __init__(self, a, b, g): self.a, self.b, self.g = a, b, g
        def delay(self, f): return self.a + self.b / np.sqrt(abs(f) + 1e6)
        def gain(self, f): return self.g * (1 + abs(f) / 1e9)

    class Ant:
        def __init__(self, id, stand, pol, cable): self.id, self.stand, self.pol, self.cable = id, stand, pol, cable

    def front(c):
        _, seed, fn, typ, nS, n, nSamp, overlap, clip, opt = c
        rs = np.random.RandomState(seed)
        fs = opt['fs']
        cf = opt['cf'] if typ[0] == 'c' else 0.0
        kind = 'complex' if typ[0] == 'c' else 'real'
        N = 2 * n if kind == 'real' else n
        ants = []
        ids = [int(k) + 1 for k in rs.permutation(3 * nS)]
        for i in range(nS):
            st = Stand(ids[i], tuple(rs.uniform(-50, 50, 3)))
            for pol in (0, 1):
                ants.append(Ant(len(ants) + 1, st, pol, Cable(rs.uniform(0, 8) / fs if not opt['same'] else 2e-9, rs.uniform(0, 4e-5), rs.uniform(.2, 2))))
        order = list(range(2 * nS))
        rs.shuffle(order)
        if opt['shuffle']:
            # any interleaving that keeps X and Y of the stands in the same order
            x = [a for a in ants if a.pol == 0]; y = [a for a in ants if a.pol == 1]
            ants = []
            while x or y:
                ants.append((x if x and (not y or rs.rand() < .5) else y).pop(0))
        pc = {'z': 'z', 'tuple': (33.0, 51.0), 'altaz': AltAz(az=33 * u.deg, alt=51 * u.deg), 'sky': SkyCoord(az=33 * u.deg, alt=51 * u.deg, frame='altaz')}[opt['pc']]
        az, alt = (0.0, np.pi / 2) if pc == 'z' else (np.radians(33.0), np.radians(51.0))
        src = np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])
        what = '%s of %s data, %d stands, LFFT=%d, overlap=%d, clip=%d, %r' % (fn, typ, nS, n, overlap, clip, opt)
        pols = {'X': 0, 'Y': 1}
        p1, p2 = [pols[q] for q in opt['pol']] if fn in ('FXMaster', 'XMaster') else (0, 1)
        freq = (np.arange(n) - n // 2) * fs / n + cf if kind == 'complex' else np.arange(n) * fs / N
        if fn in ('XMaster', 'XStokes'):
            freq = 30e6 + np.arange(n) * 25e3
            kind = 'complex'
        a1, a2 = [a for a in ants if a.pol == p1], [a for a in ants if a.pol == p2]
        i1, i2 = [i for i, a in enumerate(ants) if a.pol == p1], [i for i, a in enumerate(ants) if a.pol == p2]
        dl = [np.array([a.cable.delay(freq) - np.dot(src, a.stand.xyz) / LIGHT for a in aa]) for aa in (a1, a2)]
        m = min(dl[0][:, n // 2].min(), dl[1][:, n // 2].min())
        dl = [d - m for d in dl]
        if fn in ('FXMaster', 'FXStokes'):
            if any(np.any(abs(d[:, n // 2] * fs - np.floor(d[:, n // 2] * fs) - 0.5) < 1e-3) for d in dl):
                return None
            dmax = int(max(d[:, n // 2].max() for d in dl) * fs) + 2
            nSamp = nSamp + dmax
            x = rs.randn(2 * nS, nSamp) * 20 + (1j * rs.randn(2 * nS, nSamp) * 20 if kind == 'complex' else 0)
            if typ[0] == 'i' or typ == 'ci8':
                x = np.round(x)
            xc = cast(x, typ)
            xr = uncast(xc, typ)
            if typ == 'ci8':
                xc = xc.copy().view(CI8).reshape(xc.shape[:2])
            kw = dict(LFFT=n, overlap=overlap, include_auto=opt['auto'], sample_rate=fs, central_freq=cf, gain_correct=opt['gain'], return_baselines=True,
                      clip_level=clip, phase_center=pc, pfb=opt['pfb'])
            if opt['win']:
                kw['window'] = np.hamming
            if fn == 'FXMaster':
                kw['pol'] = opt['pol']
            bl, fg, got = getattr(fx, fn)(xc, ants, **kw)
            if np.shape(fg) != (n,) or abs(fg - freq).max() > 1e-6 * fs:
                return '%s: frequencies %r, expected %r' % (what, fg[:4], freq[:4])
            w = pfb_window(N) if opt['pfb'] else np.hamming(N) if opt['win'] else None
            F1, v1 = fref(kind, xr[i1], freq, dl[0], overlap, fs, clip, w, 4 if opt['pfb'] else 1)
            F2, v2 = fref(kind, xr[i2], freq, dl[1], overlap, fs, clip, w, 4 if opt['pfb'] else 1)
            nb = min(F1.shape[2], F2.shape[2])
            F1, F2, v1, v2 = F1[..., :nb], F2[..., :nb], v1[:, :nb], v2[:, :nb]
            if nb == 0:
                return None
            ph = np.ones((nS, nS, n))
        else:
            F = rs.randn(2 * nS, n, 12) + 1j * rs.randn(2 * nS, n, 12)
            F = F.astype(np.complex64)
            kw = dict(include_auto=opt['auto'], gain_correct=opt['gain'], return_baselines=True, phase_center=pc)
            if fn == 'XMaster':
                kw['pol'] = opt['pol']
            bl, got = getattr(fx, fn)(freq, F, ants, **kw)
            F1, F2 = F[i1].astype(np.complex128), F[i2].astype(np.complex128)
            v1 = v2 = np.ones((nS, 12), dtype=int)
            ph = np.array([[np.exp(2j * np.pi * freq * (dl[0][i] - dl[1][j])) for j in range(nS)] for i in range(nS)])
        pairs = [(i, j) for i in range(nS) for j in range(i if opt['auto'] else i + 1, nS)]
        if [(b[0].id, b[1].id) for b in bl] != [(a1[i].id, a2[j].id) for i, j in pairs]:
            return '%s: baselines %r' % (what, [(b[0].id, b[1].id) for b in bl])

        def A(x, y, u_, w_):
            with np.errstate(all='ignore'):
                return np.array([(x[i] * y[j].conj()).sum(axis=1) / (u_[i] & w_[j]).sum() for i, j in pairs]).reshape(len(pairs), n)
        if fn in ('FXMaster', 'XMaster'):
            ref = A(F1, F2, v1, v2)
        else:
            XX, XY, YX, YY = A(F1, F1, v1, v1), A(F1, F2, v1, v2), A(F2, F1, v2, v1), A(F2, F2, v2, v2)
            ref = np.array([XX + YY, XX - YY, XY + YX, (XY - YX) / 1j])
            ref0 = ref.copy()
            ref0[2], ref0[3] = XY + XY.conj(), (XY - XY.conj()) / 1j
            for k, (i, j) in enumerate(pairs):
                g = np.sqrt(a1[i].cable.gain(freq) * a2[j].cable.gain(freq)) if opt['gain'] else 1.0
                q = ref0[2:, k, :] * ph[i, j] / g
                if i != j and got.shape == ref.shape and np.all(abs(got[2:, k, :] - q) <= 1e-4 * (1 + abs(q).max())):
                    ref[2:, k, :] = ref0[2:, k, :]      # known finding
        for k, (i, j) in enumerate(pairs):
            g = np.sqrt(a1[i].cable.gain(freq) * a2[j].cable.gain(freq)) if opt['gain'] else 1.0
            ref[..., k, :] *= ph[i, j] / g
        if got.shape != ref.shape:
            return '%s: shape %s, expected %s' % (what, got.shape, ref.shape)
        fin = np.isfinite(ref)
        tol = 1e-4 * (1 + max(abs(F1).max(), abs(F2).max())**2) * 4
        if not np.array_equal(np.isfinite(got), fin) or np.any(abs(got - ref)[fin] > tol):
            k = np.unravel_index(np.argmax(np.where(fin, abs(got - ref), 0)), ref.shape)
            return '%s: visibility %s = %s, expected %s' % (what, tuple(map(int, k)), got[k], ref[k])

    def fcases():
        for k in range(1000 if not r.thorough else 3000):
            fn = ('FXMaster', 'FXStokes', 'XMaster', 'XStokes')[k % 4]
            typ = rng.choice(['i1', 'i2', 'f4', 'ci8', 'c8', 'c16'])
            n = rng.choice([2, 3, 8, 16, 32])
            N = n if typ[0] == 'c' else 2 * n
            yield ('fx', rng.randrange(10**6), fn, typ, rng.choice([1, 2, 3, 6]), n, N * rng.choice([1, 2, 5]) + rng.randrange(N), rng.choice([1, 1, 2]), rng.choice([0, 0, 55]),
                   dict(fs=196e6 if typ[0] != 'c' else rng.choice([19.6e6, 100e3]), cf=rng.choice([0.0, 38e6, 74.03e6]), pol=rng.choice(['XX', 'YY', 'XY', 'YX', 'xy']).upper(), auto=rng.random() < .5,
                        gain=rng.random() < .5, pc=rng.choice(['z', 'tuple', 'altaz', 'sky']), pfb=k % 16 < 4 and k % 4 < 2, win=k % 16 > 11 and k % 4 < 2, same=rng.random() < .3, shuffle=rng.random() < .5))

    def cases():
        for k in range(500 if not r.thorough else 6000):
            if k % 3 == 0:
                which = ('XEngine2', 'XEngine3', 'stokes')[k // 3 % 3]
                typ = rng.choice(['complex64', 'complex128', 'ci8'] if which != 'stokes' else ['complex64', 'complex128'])
                yield ('x', rng.randrange(10**6), which, typ, (rng.choice([1, 2, 3, 5, 12]), rng.choice([1, 2, 7, 32]), rng.choice([1, 2, 9, 40])))
            else:
                typ = rng.choice(['i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'ci8', 'c8', 'c16'])
                n = rng.choice([1, 2, 3, 5, 8, 16, 33, 64])
                N = 2 * n if typ[0] != 'c' else n
                dm = rng.choice([0, 0, 3, 20])
                pfb = k % 6 == 1
                yield ('f', rng.randrange(10**6), 'PFBEngine' if pfb else 'FEngine', typ, rng.choice([1, 2, 5]), n,
                       N * rng.choice([1, 2, 5, 9]) + rng.randrange(0, N) + dm + 1, rng.choice([x for x in (1, 1, 2, 3, 4, 7) if x <= N]), rng.choice([0, 0, 40, 60]), (not pfb) and rng.random() < .3, dm)
    r.concrete('F and X engines of the compiled modules', cases(), battery, limit_s=60)
    r.concrete('FXMaster, FXStokes, XMaster, XStokes', fcases(), front, limit_s=60)
