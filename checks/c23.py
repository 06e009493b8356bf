"""C23: visibility data sets (lsl.imaging.data): every operation keeps baseline, uvw, data, weight and mask together."""
import itertools
import numpy as np
import aipy
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SInt

D = 'lsl.imaging.data.'
LEVEL = 'exploration'


class AA(aipy.amp.AntennaArray):
    """antenna array with given stand numbers (contract: only get_stands is used to select)"""
    def __init__(self, stands):
        self._st = stands

    def get_stands(self):
        return np.array(self._st, dtype=object) if any(isinstance(s, SInt) for s in self._st) else np.array(self._st)

    def set_jultime(self, jd=None):
        self.jd_set = jd

    def __copy__(self):
        n = AA(self._st)
        return n


def row(k, nchan=2, kind='data', p=0):
    """what baseline number k holds"""
    base = 1 + 10 * k + 100 * p
    if kind == 'data':
        return np.array([base + c + 1j * (base - c) for c in range(nchan)], dtype=np.complex64)
    if kind == 'weight':
        return np.array([0.5 * base + c for c in range(nchan)], dtype=np.float32)
    return np.array([(k + c + p) % 2 == 0 for c in range(nchan)])


def pds(mod, pol, rows, nchan, p):
    z = lambda kind, dt: np.array([row(k, nchan, kind, p) for k in rows], dtype=dt).reshape(len(rows), nchan)
    return mod.PolarizationDataSet(pol, data=z('data', np.complex64), weight=z('weight', np.float32), mask=z('mask', bool))


def dataset(mod, jd, bls, uvw, nchan, pols=('XX', 'YY'), aa=None, **kw):
    ds = mod.VisibilityDataSet(jd, np.arange(nchan) * 1e6 + 60e6, list(bls), uvw, antennaarray=aa, phase_center='z', **kw)
    for p, pol in enumerate(pols):
        ds.append(pds(mod, pol, range(len(bls)), nchan, p))
    return ds


def rows_problem(ds, order, nchan, pols):
    """the baselines of `order` (numbers of the original baselines), each with its own data, weight and mask"""
    if list(ds.pols) != list(pols) or ds.npol != len(pols):
        return 'polarizations %s, expected %s' % (ds.pols, list(pols))
    for p, pol in enumerate(pols):
        q = getattr(ds, pol)
        if q.polarization != pol or q.nbaseline != len(order):
            return '%s: polarization %s with %d baselines, expected %d' % (pol, q.polarization, q.nbaseline, len(order))
        for kind, a in (('data', q.data), ('weight', q.weight), ('mask', q.mask)):
            a = np.asarray(a)
            if a.shape != (len(order), nchan):
                return '%s %s has shape %s, expected %s' % (pol, kind, a.shape, (len(order), nchan))
            for n, k in enumerate(order):
                if not (a[n] == row(k, nchan, kind, p)).all():
                    return '%s: the %s of baseline %d is not that of original baseline %d' % (pol, kind, n, k)
    if [bool(x is y) for x, y in zip(ds, [getattr(ds, p) for p in pols])] != [True] * len(pols):
        return 'iteration gives other polarizations'
    return None


def run(r):
    import sys
    import types
    if 'lsl.sim._simfast' not in sys.modules:                       # not used by what is checked here
        sys.modules['lsl.sim._simfast'] = types.ModuleType('lsl.sim._simfast')
        sys.modules['lsl.sim._simfast'].FastVis = None
    S = SymLoader(symbolic={'lsl.imaging.data'}).load('lsl.imaging.data')
    from lsl.imaging import data as R
    r.assume('numpy take, vstack and copy move elements without regard to their values')
    r.trust('aipy.amp.AntennaArray: get_stands, set_jultime, copy (stand-in); gen_uvw, phs2src, unphs2src (battery with the real one)')

    def sym_uvw(cx, n, nchan):
        a = np.empty((n, 3, nchan), dtype=object)
        for b in range(n):
            for k in range(3):
                for c in range(nchan):
                    a[b, k, c] = cx.real_input('%s%d_%d' % ('uvw'[k], b, c), -10**6, 10**6) if k < 2 and c == nchan // 2 else float(1000 * b + 10 * k + c)
        return a

    def con_uvw(n, nchan):
        return np.array([[[1000. * b + 10 * k + c for c in range(nchan)] for k in range(3)] for b in range(n)]).reshape(n, 3, nchan)

    def uvw_follows(ds, order, uvw):
        return ds.uvw.shape == (len(order),) + uvw.shape[1:] and all(ds.uvw[n, k, c] is uvw[b, k, c] or bool(X(ds.uvw[n, k, c]) == X(uvw[b, k, c]))
                                                                      for n, b in enumerate(order) for k in range(3) for c in range(uvw.shape[2]))

    def find(bls, out):
        """which original baseline each of out is (they are distinct objects)"""
        res = []
        for o in out:
            w = [k for k, b in enumerate(bls) if b is o or (b[0] is o[0] and b[1] is o[1])]
            res.append(w[0] if w else None)
        return res

    def bl_inputs(cx, n, hi=4095):
        return [(cx.int_input('i%d' % k, 0, hi), cx.int_input('j%d' % k, 0, hi)) for k in range(n)]

    def sort(n, nchan, pols):
        def fn(cx):
            bls = bl_inputs(cx, n)
            uvw = con_uvw(n, nchan)
            ds = dataset(S, 2450000.5, bls, uvw.copy(), nchan, pols)
            ds.sort()
            order = find(bls, ds.baselines)
            cx.prove('sort: the same baselines', sorted(map(repr, order)) == sorted(map(repr, range(n))), info=str(order))
            if None in order or len(set(order)) != n:
                return
            for a, b in zip(ds.baselines, ds.baselines[1:]):
                cx.prove('sort: by first, then second antenna', Or(a[0] < b[0], And(X(a[0]) == X(b[0]), a[1] <= b[1])))
            p = rows_problem(ds, order, nchan, pols)
            cx.prove('sort: data, weight and mask go with their baseline', p is None, info=p)
            cx.prove('sort: uvw goes with its baseline', uvw_follows(ds, order, uvw))
        return fn

    def replay_sort(n, nchan, pols):
        def f(i):
            bls = [(int(i['i%d' % k]), int(i['j%d' % k])) for k in range(n)]
            return sort_case(dict(bls=bls, nchan=nchan, pols=pols, order=None))
        return f

    def sort_case(c):
        bls, nchan, pols = c['bls'], c['nchan'], tuple(c['pols'])
        ds = dataset(R, 2450000.5, bls, con_uvw(len(bls), nchan), nchan, pols)
        ds.sort(order=c['order'])
        want = c['order'] if c['order'] is not None else sorted(range(len(bls)), key=lambda k: bls[k])
        if [tuple(b) for b in ds.baselines] != [tuple(bls[k]) for k in want]:
            return 'baselines %s sorted are %s' % (bls, ds.baselines)
        p = rows_problem(ds, want, nchan, pols)
        if p is None and not (ds.uvw == con_uvw(len(bls), nchan)[want]).all():
            p = 'uvw not in the order of the baselines'
        return p and 'sort of %s: %s' % (bls, p)

    def uvrange(n, nchan):
        def fn(cx):
            uvw = sym_uvw(cx, n, nchan)
            bls = [(k, k + 1) for k in range(n)]
            ds = dataset(S, 2450000.5, bls, uvw, nchan)
            lo, hi = cx.real_input('min_uv', 0, 10**6), cx.real_input('max_uv', 0, 10**6)
            out = ds.get_uv_range(min_uv=np.array(lo, dtype=object), max_uv=np.array(hi, dtype=object))
            order = find(bls, out.baselines)
            cx.prove('get_uv_range: some of the baselines, in order', None not in order and order == sorted(set(order)), info=str(order))
            if None in order:
                return
            a, b = (lo, hi) if bool(lo <= hi) else (hi, lo)
            c = nchan // 2
            for k in range(n):
                d2 = X(uvw[k, 0, c]) * X(uvw[k, 0, c]) + X(uvw[k, 1, c]) * X(uvw[k, 1, c])
                inside = And(d2 >= X(a) * X(a), d2 < X(b) * X(b))
                cx.prove('get_uv_range: a baseline is kept when min <= |uv| < max at the center channel', inside if k in order else Not(inside))
            p = rows_problem(out, order, nchan, ('XX', 'YY'))
            cx.prove('get_uv_range: data, weight and mask go with their baseline', p is None, info=p)
            cx.prove('get_uv_range: uvw goes with its baseline', uvw_follows(out, order, uvw))
            p = rows_problem(ds, list(range(n)), nchan, ('XX', 'YY'))
            cx.prove('get_uv_range: the original is left alone', And(p is None, ds.baselines == bls, out is not ds), info=p)
        return fn

    def uv_case(c):
        n, nchan = len(c['uv']), c['nchan']
        uvw = con_uvw(n, nchan)
        uvw[:, :2, nchan // 2] = c['uv']
        bls = [(k, k + 1) for k in range(n)]
        ds = dataset(R, 2450000.5, bls, uvw.copy(), nchan)
        out = ds.get_uv_range(min_uv=c['lo'], max_uv=c['hi'])
        a, b = sorted((c['lo'], c['hi']))
        want = [k for k in range(n) if a <= np.sqrt(uvw[k, 0, nchan // 2]**2 + uvw[k, 1, nchan // 2]**2) < b]
        if out.baselines != [bls[k] for k in want]:
            return 'get_uv_range(%r, %r) of baselines of length %s keeps %s, expected %s' % (c['lo'], c['hi'], [float(np.hypot(*u)) for u in c['uv']], out.baselines, [bls[k] for k in want])
        p = rows_problem(out, want, nchan, ('XX', 'YY')) or (None if (out.uvw == uvw[want]).all() else 'uvw')
        if p:
            return 'get_uv_range: %s' % p
        out.XX.data[...] = 99
        out.uvw[...] = 99
        p = rows_problem(ds, list(range(n)), nchan, ('XX', 'YY')) or (None if (ds.uvw == uvw).all() and ds.baselines == bls else 'uvw or baselines changed')
        return p and 'get_uv_range: the original is changed: %s' % p

    def replay_uv(n, nchan):
        def f(i):
            return uv_case(dict(uv=[[float(i['u%d_%d' % (k, nchan // 2)]), float(i['v%d_%d' % (k, nchan // 2)])] for k in range(n)], nchan=nchan, lo=float(i['min_uv']), hi=float(i['max_uv'])))
        return f

    NS = 3

    def antennas(n, inc, exc, byst):
        def fn(cx):
            st = [cx.int_input('s%d' % k, 1, 260) for k in range(NS)]
            for a, b in itertools.combinations(st, 2):
                cx.assume(a != b)
            bls = bl_inputs(cx, n, NS - 1)
            ds = dataset(S, 2450000.5, bls, con_uvw(n, 2), 2, aa=AA(st))
            top = 260 if byst else NS - 1
            I = [cx.int_input('inc%d' % k, 0, top) for k in range(inc)] if inc is not None else None
            E = [cx.int_input('exc%d' % k, 0, top) for k in range(exc)] if exc is not None else None
            i0, e0 = None if I is None else list(I), None if E is None else list(E)
            out = ds.get_antenna_subset(include=I, exclude=E, indicies=not byst)
            order = find(bls, out.baselines)
            cx.prove('get_antenna_subset: some of the baselines, in order', None not in order and order == sorted(set(order)), info=str(order))
            if None in order:
                return

            def has(L, a):
                """antenna index a is meant by an element of L"""
                if not L:
                    return False
                return Or(*[And(X(a) == k, X(x) == X(st[k])) for x in L for k in range(NS)]) if byst else Or(*[X(x) == X(a) for x in L])

            def keep(a):
                if I is not None:
                    return has(I, a)
                return Not(has(E, a)) if E else True
            for k in range(n):
                c = And(keep(bls[k][0]), keep(bls[k][1]))
                cx.prove('get_antenna_subset: a baseline is kept when both antennas are', c if k in order else Not(c))
            p = rows_problem(out, order, 2, ('XX', 'YY'))
            cx.prove('get_antenna_subset: data, weight and mask go with their baseline', p is None, info=p)
            cx.prove('get_antenna_subset: uvw goes with its baseline', uvw_follows(out, order, con_uvw(n, 2)))
            p = rows_problem(ds, list(range(n)), 2, ('XX', 'YY'))
            cx.prove('get_antenna_subset: the original is left alone', And(p is None, find(bls, ds.baselines) == list(range(n)), I is None or [id(x) for x in I] == [id(x) for x in i0],
                                                                           E is None or [id(x) for x in E] == [id(x) for x in e0]), info=p)
        return fn

    def ant_case(c):
        st, bls, I, E, byst, nset = c['st'], c['bls'], c['inc'], c['exc'], c['byst'], c.get('nset', 0)
        mk = lambda jd: dataset(R, jd, bls, con_uvw(len(bls), 2), 2, aa=AA(st))
        ds = mk(2450000.5) if not nset else R.VisibilityData([mk(2450000.5 + k) for k in range(nset)])
        out = ds.get_antenna_subset(include=I, exclude=E, indicies=not byst)
        ix = lambda L: {st.index(x) for x in L if x in st} if byst else set(L)
        keep = ix(I) if I is not None else set(range(len(st))) - ix(E if E is not None else [])
        want = [k for k, b in enumerate(bls) if b[0] in keep and b[1] in keep]
        if nset and len(out) != nset:
            return 'get_antenna_subset of %d integrations gives %d' % (nset, len(out))
        for k, o in enumerate([out] if not nset else out):
            p = None
            if [tuple(b) for b in o.baselines] != [bls[k] for k in want]:
                p = 'keeps %s, expected %s' % (o.baselines, [bls[k] for k in want])
            elif nset and o.jd != 2450000.5 + k:
                p = 'integration %d has JD %r' % (k, o.jd)
            else:
                p = rows_problem(o, want, 2, ('XX', 'YY')) or (None if (o.uvw == con_uvw(len(bls), 2)[want]).all() else 'uvw')
            if p:
                return 'get_antenna_subset(include=%s, exclude=%s, indicies=%s) of stands %s, baselines %s: %s' % (I, E, not byst, st, bls, p)

    def replay_ant(n, inc, exc, byst):
        def f(i):
            c = dict(st=[int(i['s%d' % k]) for k in range(NS)], bls=[(int(i['i%d' % k]), int(i['j%d' % k])) for k in range(n)],
                     inc=None if inc is None else [int(i['inc%d' % k]) for k in range(inc)], exc=None if exc is None else [int(i['exc%d' % k]) for k in range(exc)], byst=byst)
            return ant_case(c) or ant_case(dict(c, nset=2))
        return f

    # ---- several integrations
    def order_jd(n):
        def fn(cx):
            jds = [cx.real_input('jd%d' % k, 2400000, 2500000) for k in range(n)]
            for a, b in itertools.combinations(jds, 2):
                cx.assume(a != b)
            sets = [dataset(S, jd, [(1, 0), (0, 1)], con_uvw(2, 2), 2) for jd in jds]
            v = S.VisibilityData()
            for s in sets:
                v.append(s)
            cx.prove('append: in order of arrival', And(len(v) == n, *[v[k] is sets[k] for k in range(n)]))
            cx.prove('mjd', And(*[X(m) == X(j) - 2400000.5 for m, j in zip(v.mjds, jds)]))
            v.sort()
            cx.prove('sort: every integration once, in time order', And(len(v) == n, sorted(map(id, v)) == sorted(map(id, sets)), *[a < b for a, b in zip(v.jds, v.jds[1:])]))
            p = [rows_problem(s, [1, 0], 2, ('XX', 'YY')) for s in sets if s.baselines == [(0, 1), (1, 0)]]
            cx.prove('sort: the baselines of each integration too', And(len(p) == n, not any(p)), info=str(p))
        return fn

    def dup(cx):
        a, b = cx.real_input('a', 2400000, 2500000), cx.real_input('b', 2400000, 2500000)
        v = S.VisibilityData(dataset(S, a, [(0, 1)], con_uvw(1, 2), 2))
        try:
            v.append(dataset(S, b, [(0, 1)], con_uvw(1, 2), 2))
            cx.prove('append: an integration with another time is added', And(X(a) != X(b), len(v) == 2))
        except ValueError:
            cx.prove('append: only a second integration of the same time is refused', And(X(a) == X(b), len(v) == 1))

    def replay_jd(n):
        def f(i):
            return history([('append', float(i['jd%d' % k]), 2, 2, 2) for k in range(n)] + [('sort',)])
        return f

    def history(ops, nset=0):
        """a history of operations on a VisibilityData against a plain list"""
        v = R.VisibilityData()
        model = []
        done = []
        for op in ops:
            done.append(op)
            err = None
            if op[0] in ('append', 'extend'):
                _, jd, n, nchan, npol = op
                pols = ('XX', 'XY', 'YX', 'YY')[:npol]
                bls = [(n - k, k) for k in range(n)]
                ds = dataset(R, jd, bls, con_uvw(n, nchan), nchan, pols, extra=[1, 2])
                bad = op[0] == 'append' and (jd in [m[0] for m in model] or (model and (model[0][1], model[0][2], model[0][3]) != (n, nchan, npol)))
                try:
                    if op[0] == 'append':
                        v.append(ds)
                    else:
                        v.extend([ds])
                    if bad:
                        err = 'accepted'
                    model.append([jd, n, nchan, npol, False, ds])
                except ValueError:
                    if not bad:
                        err = 'refused'
            elif op[0] == 'sort':
                v.sort()
                model.sort(key=lambda m: m[0])
                for m in model:
                    m[4] = True
            elif op[0] == 'pop' and model:
                k = op[1] % len(model)
                x = v.pop(k)
                if x is not model.pop(k)[5]:
                    err = 'pop returns another integration'
            elif op[0] == 'copy':
                w = v.copy()
                for x in v:
                    for q in x:
                        q.data[...] = -5
                        q.weight[...] = -5
                        q.mask[...] = ~q.mask
                    x.uvw[...] = -5
                    x.freq[...] = -5
                    x.baselines[:] = []
                    x.extra[:] = []
                v = w
                for m, x in zip(model, v):
                    m[5] = x
            if err is None:
                if len(v) != len(model) or v.jds != [m[0] for m in model]:
                    err = 'integrations %s, expected %s' % (v.jds, [m[0] for m in model])
                elif any(x is not m[5] for x, m in zip(v, model)):
                    err = 'integrations are other objects'
                elif (v.nbaseline, v.nchan, v.npol) != (tuple(model[0][1:4]) if model else (0, 0, 0)):
                    err = 'nbaseline, nchan, npol = %s' % ((v.nbaseline, v.nchan, v.npol),)
                for x, m in zip(v, model):
                    order = list(range(m[1]))
                    if m[4]:
                        order = order[::-1]
                    e = rows_problem(x, order, m[2], ('XX', 'XY', 'YX', 'YY')[:m[3]])
                    if err is None and e:
                        err = e
                    if err is None and not ([tuple(b) for b in x.baselines] == [(m[1] - k, k) for k in order] and (x.uvw == con_uvw(m[1], m[2])[order]).all()
                                            and (x.freq == np.arange(m[2]) * 1e6 + 60e6).all() and x.extra == [1, 2]):
                        err = 'baselines, uvw, frequencies or extra attributes'
            if err:
                return 'after %s: %s' % (done[-8:], err)

    def pol_history(ops):
        """PolarizationDataSet.append and extend"""
        q = R.PolarizationDataSet('xx')
        want = []
        for kind, rows, wg, mk, nchan in ops:
            g = lambda what: np.array([row(k, nchan, what) for k in rows]).reshape(len(rows), nchan)
            d, w, m = g('data'), g('weight') if wg else None, g('mask') if mk else None
            bad = wg == 'bad' or mk == 'bad'
            if wg == 'bad':
                w = w[:, :-1]
            if mk == 'bad':
                m = m[:, :-1]
            try:
                (q.append if kind == 'append' else q.extend)(d, weight=w, mask=m)
                if bad:
                    return 'append with weights or mask of another shape is accepted'
                want += [(k, bool(wg), bool(mk)) for k in rows]
            except ValueError:
                if not bad:
                    raise
            if q.nbaseline != len(want):
                return 'after %s: %d baselines, expected %d' % (ops, q.nbaseline, len(want))
            for n, (k, a, b) in enumerate(want):
                if not (q.data[n] == row(k, nchan)).all() or not (q.weight[n] == (row(k, nchan, 'weight') if a else 1)).all() or not (q.mask[n] == (row(k, nchan, 'mask') if b else False)).all():
                    return 'after %s: row %d is not what was appended' % (ops, n)

    fns = lambda c, *f: [D + c + '.' + x for x in f]
    V = 'VisibilityDataSet'
    P = fns('PolarizationDataSet', '__init__', 'sort', 'subset', 'nbaseline')
    common = P + fns(V, '__init__', 'append', '__iter__', 'npol', 'nbaseline', 'nchan', 'copy')
    with r.parallel():
        for n in (0, 1, 2, 3, 4):
            for nchan, pols in ((2, ('XX', 'YY')),) + (((1, ('XX', 'XY', 'YX', 'YY')),) if n == 2 else ()):
                r.contract('sort of %d baselines, %d channels' % (n, nchan), sort(n, nchan, pols), common + fns(V, 'sort', '_baseline_order'), replay_sort(n, nchan, pols), bounded='%d baselines; any antennas' % n)
        for n, nchan in ((1, 1), (1, 2), (2, 3), (3, 2)):
            r.contract('uv range of %d baselines, %d channels' % (n, nchan), uvrange(n, nchan), common + fns(V, 'get_uv_range'), replay_uv(n, nchan), float_mode='real', bounded='%d baselines; any uv and limits' % n)
        for inc, exc in ((None, None), (1, None), (2, None), (None, 1), (None, 2), (1, 1), (0, 1)):
            for byst in (False, True):
                n = 1 if (inc or 0) + (exc or 0) > 1 and byst else 2
                r.contract('antennas: include %s, exclude %s, %s' % (inc, exc, 'stands' if byst else 'indices'), antennas(n, inc, exc, byst), common + fns(V, 'get_antenna_subset'), replay_ant(n, inc, exc, byst),
                           bounded='%d baselines of 3 antennas; any stands and selection' % n)
        for n in (1, 2, 3):
            r.contract('%d integrations' % n, order_jd(n), fns('VisibilityData', '__init__', 'append', 'sort', 'jds', 'mjds', '__len__', '__getitem__') + common, replay_jd(n), float_mode='real', bounded='%d integrations; any times' % n)
        r.contract('two integrations of one time', dup, fns('VisibilityData', 'append'), lambda i: history([('append', float(i['a']), 1, 2, 2), ('append', float(i['b']), 1, 2, 2)]), float_mode='real')
    rng = r.rng
    N = 400 if not r.thorough else 4000

    def sorts():
        for k in range(N):
            n, hi = rng.randrange(0, 9), rng.choice([3, 10, 255, 4095])
            bls = [(rng.randrange(hi), rng.randrange(hi)) for _ in range(n)]
            o = list(range(n))
            rng.shuffle(o)
            yield dict(bls=bls, nchan=rng.randrange(1, 4), pols=('XX', 'XY', 'YX', 'YY')[:rng.randrange(1, 5)], order=rng.choice([None, None, o]))
    r.concrete('baselines sorted', sorts(), sort_case, limit_s=30)

    def uvs():
        for k in range(N):
            n = rng.randrange(0, 7)
            uv = [[rng.choice([3., 4., 0., -5., rng.uniform(-10, 10)]), rng.choice([3., 4., 0., rng.uniform(-10, 10)])] for _ in range(n)]
            yield dict(uv=np.array(uv).reshape(n, 2).tolist(), nchan=rng.randrange(1, 5), lo=rng.choice([0., 5., 3., rng.uniform(0, 9)]), hi=rng.choice([5., np.inf, 0., rng.uniform(0, 15)])) if n else \
                dict(uv=np.zeros((0, 2)), nchan=2, lo=0., hi=1.)
    r.concrete('uv ranges', uvs(), uv_case, limit_s=30)

    def ants():
        for k in range(N):
            m = rng.randrange(1, 7)
            st = rng.sample(range(1, 12), m)
            byst = rng.random() < .5
            pool = range(1, 12) if byst else range(m)
            pick = lambda: rng.choice([None, [rng.choice(pool) for _ in range(rng.randrange(0, 4))], tuple(rng.choice(pool) for _ in range(rng.randrange(0, 4)))])
            yield dict(st=st, bls=[(a, b) for a in range(m) for b in range(a, m)], inc=pick(), exc=pick(), byst=byst, nset=rng.choice([0, 1, 2]))
    r.concrete('antenna selections', ants(), ant_case, limit_s=30)

    def hist():
        for k in range(N):
            n, nchan, npol = rng.randrange(1, 4), rng.randrange(1, 3), rng.randrange(1, 5)
            ops = []
            for j in range(rng.randrange(1, 14)):
                x = rng.random()
                if x < .6:
                    odd = rng.random() < .15
                    ops.append((rng.choice(['append', 'append', 'append', 'extend']), 2450000. + rng.randrange(12) / 8, n, nchan, npol))
                    if odd and ops[-1][0] == 'append':
                        w = rng.randrange(2, 5)
                        o = list(ops[-1])
                        o[w] = o[w] % 4 + 1
                        ops[-1] = tuple(o)
                else:
                    ops.append(rng.choice([('sort',), ('pop', rng.randrange(5)), ('copy',)]))
            # extend does not check the shape: keep what it is given consistent with what is there
            seen = None
            good = []
            for o in ops:
                if o[0] == 'extend' and (seen is None or o[2:] != seen):
                    continue
                if o[0] == 'append' and seen is None:
                    seen = o[2:]
                if o[0] == 'extend':
                    o = (o[0], 2450100. + len(good)) + o[2:]       # extend does not look for a second integration of a time either
                if o[0] == 'pop':
                    continue
                good.append(o)
            yield [o for o in good] + [('pop', 0), ('pop', -1)]
    r.concrete('histories of several integrations', hist(), history, limit_s=60)

    def pols():
        for k in range(N):
            nchan = rng.randrange(2, 4)
            yield [(rng.choice(['append', 'extend']), [rng.randrange(9) for _ in range(rng.randrange(1, 4))], True, True, nchan) if rng.random() < .5 else
                   (('append', [rng.randrange(9) for _ in range(rng.randrange(1, 4))], rng.choice([None, True, 'bad']), rng.choice([None, True, 'bad']), nchan) if rng.random() < .6 else
                    ('extend', [rng.randrange(9)], rng.choice([None, True]), rng.choice([None, True]), nchan)) for _ in range(rng.randrange(1, 5))]
    r.concrete('append and extend of one polarization', pols(), pol_history, limit_s=30)

    # ---- phase centers, with the real antenna array
    from lsl.sim import vis as simVis
    from lsl.common import stations
    station = stations.lwa1
    freqs = np.array([50e6, 50.1e6, 70e6])
    ants_ = station.antennas[0:20:2][:5]
    aa = simVis.build_sim_array(station, ants_, freqs / 1e9, jd=2456000.2)

    def center(z):
        if z == 'z':
            return 'z'
        s = aipy.amp.RadioFixedBody(z[0], z[1], name='t')
        return s

    def phase_case(c):
        jds = [c['jd'] + .004 * k for k in range(c['nset'])]
        bls = [(i, j) for i in range(5) for j in range(i, 5)]
        if c['shuffle']:
            bls = bls[::-1]
        g = np.random.RandomState(c['seed'])
        sets, zen, d0 = [], [], []
        for jd in jds:
            aa.set_jultime(jd)
            uvw = np.array([aa.gen_uvw(j, i, src='z')[:, 0, :] for i, j in bls])
            ds = R.VisibilityDataSet(jd, freqs.copy(), list(bls), uvw.copy(), antennaarray=aa, phase_center='z')
            d0.append({})
            for p in ('XX', 'YY'):
                d = (g.randn(len(bls), 3) + 1j * g.randn(len(bls), 3)).astype(np.complex64)
                d0[-1][p] = d.copy()
                ds.append(R.PolarizationDataSet(p, data=d, weight=np.abs(d), mask=d.real > 0))
            sets.append(ds)
            zen.append(uvw)
        data = R.VisibilityData(sets) if c['together'] else None
        for name in c['centers']:
            pc = center(name)                                   # one object for all integrations
            if data is not None:
                data.rephase(pc)
            else:
                for ds in sets:
                    ds.rephase(pc)
            for ds, jd, z, want0 in zip(sets, jds, zen, d0):
                aa.set_jultime(jd)
                q = center(name)
                if q != 'z':
                    q.compute(aa)
                new = np.array([aa.gen_uvw(j, i, src=q)[:, 0, :] for i, j in bls])
                if not np.allclose(ds.uvw, new, rtol=0, atol=1e-6):
                    return 'rephase to %s: uvw are not those of the new center' % (name,)
                for p in ('XX', 'YY'):
                    q2 = getattr(ds, p)
                    want = want0[p] * np.exp(-2j * np.pi * (new[:, 2, :] - z[:, 2, :]))
                    if not np.allclose(q2.data, want, rtol=0, atol=2e-4):
                        return 'rephase to %s (after %s): %s of baseline %s off by %.3g' % (name, c['centers'], p, bls[int(np.abs(q2.data - want).max(axis=1).argmax())], np.abs(q2.data - want).max())
                    if not (q2.weight == np.abs(want0[p])).all() or not (q2.mask == (want0[p].real > 0)).all():
                        return 'rephase changes weights or mask'
                if ds.baselines != bls or ds.phase_center is not pc and ds.phase_center != pc:
                    return 'rephase: baselines or phase center'
            # the antenna array and the center are used elsewhere in between
            aa.set_jultime(c['jd'] + .3)
            if pc != 'z':
                pc.compute(aa)

    def up(jd):
        aa.set_jultime(jd)
        while True:
            ra, dec = rng.uniform(0, 2 * np.pi), rng.uniform(-.3, 1.5)
            s = aipy.amp.RadioFixedBody(ra, dec, name='t')
            s.compute(aa)
            if s.alt > 0.1:
                return (ra, dec)

    def phases():
        for k in range(40 if not r.thorough else 400):
            jd = 2456000.2 + rng.uniform(0, 300)
            yield dict(jd=jd, shuffle=rng.random() < .5, seed=rng.randrange(10**6), nset=rng.randrange(1, 4), together=rng.random() < .5, centers=[rng.choice(['z', up(jd), up(jd)]) for _ in range(rng.randrange(1, 4))] )
    r.concrete('phase centers', phases(), phase_case, limit_s=60)

    def scale_case(c):
        g = np.random.RandomState(c['seed'])
        amps, delays = g.uniform(.5, 2, 5), g.uniform(-100, 100, 5)
        offs = g.uniform(-3, 3, 5) if c['offs'] else None
        bls = [(i, j) for i in range(5) for j in range(i, 5)]
        g.shuffle(bls)
        bls = [tuple(int(x) for x in b) for b in bls]
        uvw = np.zeros((len(bls), 3, 3))
        sets, want = [], []
        for k in range(c['nset']):
            ds = R.VisibilityDataSet(2456000.5 + k, freqs.copy(), list(bls), uvw.copy())
            d = {p: g.randn(len(bls), 3) + 1j * g.randn(len(bls), 3) for p in ('XX', 'YY')}
            for p in d:
                ds.append(R.PolarizationDataSet(p, data=d[p].copy()))
            ph = lambda i: 2 * np.pi * freqs * delays[i] * 1e-9 + (offs[i] if offs is not None else 0)
            want.append({p: np.array([d[p][n] * amps[i] * amps[j] * np.exp(1j * (ph(i) - ph(j))) for n, (i, j) in enumerate(bls)]) for p in d})
            sets.append((ds, d))
        data = sets[0][0] if c['nset'] == 1 else R.VisibilityData([s for s, _ in sets])
        out = simVis.scale_data(data, amps, delays, phase_offsets=offs)
        for o, w, (s, d) in zip([out] if c['nset'] == 1 else out, want, sets):
            for p in w:
                if not np.allclose(getattr(o, p).data, w[p]):
                    return 'scale_data: %s is not gain_i conj(gain_j) times the visibility' % p
                if not (getattr(s, p).data == d[p]).all():
                    return 'scale_data changes its input'
    r.concrete('antenna gains and delays applied', (dict(seed=k, nset=1 + k % 2, offs=k % 3 == 0) for k in range(30)), scale_case, limit_s=30)
