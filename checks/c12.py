"""C12: the frame buffer (lsl.reader.buffer)."""
import copy
from collections import deque
import numpy as np
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SInt

T0 = 61849368000000000
B = 'lsl.reader.buffer.FrameBufferBase.'

LEVEL = 'exploration'


def ids_of(mode):
    return {'DRX': [(2, t, p) for t in (1, 2) for p in (0, 1)], 'DRX8': [(3, t, p) for t in (1, 2) for p in (0, 1)],
            'COR': [(a, b, c) for a, b in ((1, 1), (1, 2), (2, 2)) for c in (100, 228)], 'VDIF': [0, 3, 5], 'TBX': [16, 28, 40]}[mode]


def make_buffer(mod, mode, ids, nseg, reorder=False):
    if mode in ('DRX', 'DRX8'):
        return (mod.DRXFrameBuffer if mode == 'DRX' else mod.DRX8FrameBuffer)(beams=sorted({i[0] for i in ids}), tunes=sorted({i[1] for i in ids}), pols=sorted({i[2] for i in ids}), nsegments=nseg, reorder=reorder)
    if mode == 'COR':
        b = mod.CORFrameBuffer(chans=sorted({i[2] for i in ids}), nsegments=nseg, reorder=reorder)
        b.stands = sorted({i[0] for i in ids} | {i[1] for i in ids})      # two stands instead of 256
        b.nFrames, p = b.get_max_frames()
        b.possibleFrames = set(p)
        return b
    if mode == 'VDIF':
        return mod.VDIFFrameBuffer(threads=list(ids), nsegments=nseg, reorder=reorder)
    return mod.TBXFrameBuffer(chans=list(ids), nsegments=nseg, reorder=reorder)


def make_frame(mode, t, fid, k):
    """a frame of the real class; k marks its data"""
    if mode in ('DRX', 'DRX8'):
        from lsl.reader import drx, drx8
        m = drx if mode == 'DRX' else drx8
        b, tu, p = fid
        f = m.Frame(header=m.FrameHeader(drx_id=b | tu << 3 | (0x40 if mode == 'DRX8' else 0) | p << 7, decimation=10, time_offset=0),
                    payload=m.FramePayload(timetag=t, tuning_word=0, flags=0))
    elif mode == 'COR':
        from lsl.reader import cor as m
        f = m.Frame(header=m.FrameHeader(first_chan=fid[2]), payload=m.FramePayload(timetag=t, stand0=fid[0], stand1=fid[1]))
    elif mode == 'VDIF':
        from lsl.reader import vdif as m
        f = m.Frame(header=m.FrameHeader(thread_id=fid, station_id=7, seconds_from_epoch=t // 1000000, frame_in_second=t % 1000000), payload=m.FramePayload())
    else:
        from lsl.reader import tbx as m
        f = m.Frame(header=m.FrameHeader(first_chan=fid), payload=m.FramePayload(timetag=t))
    f.payload._data = np.arange(1, 5, dtype=np.complex64) * (k + 1)
    f.mark = k
    return f


def frame_id(mode, f):
    if mode == 'COR':
        return f.id + (f.header.first_chan,)
    if mode == 'VDIF':
        return f.header.thread_id
    if mode == 'TBX':
        return f.header.first_chan
    return f.id


def frame_time(mode, f):
    if mode == 'VDIF':
        return f.header.seconds_from_epoch * 1000000 + f.header.frame_in_second
    return f.payload.timetag


def group_problem(mode, ids, reorder, appended, out, t, eq=lambda a, b: a == b):
    """what is wrong with a returned group, given the frames appended to it (in order)"""
    first, seen, dups = [], set(), 0
    for f in appended:
        i = frame_id(mode, f)
        if i in seen:
            dups += 1
        else:
            seen.add(i)
            first.append(f)
    fills = [i for i in ids if i not in seen]
    out = list(out)
    if len(out) != len(first) + len(fills):
        return '%d frames returned, %d distinct frames were appended and %d of %d are missing' % (len(out), len(first), len(fills), len(ids))
    real = [f for f in out if any(f is g for g in first)]
    if len(real) != len(first):
        return 'an appended frame is not returned'
    if not reorder and [id(f) for f in real] != [id(f) for f in first]:
        return 'frames not in order of arrival'
    for f in real:
        if not f.valid or not (f.payload._data == np.arange(1, 5, dtype=np.complex64) * (f.mark + 1)).all():
            return 'an appended frame was changed'
    fl = [f for f in out if not any(f is g for g in first)]
    if sorted(frame_id(mode, f) for f in fl) != sorted(fills):
        return 'fill frames %s, expected %s' % (sorted(frame_id(mode, f) for f in fl), sorted(fills))
    for f in fl:
        if f.valid or np.any(f.payload._data != 0) or f.payload._data.shape != (4,):
            return 'fill frame not marked invalid or not zero'
        if not eq(frame_time(mode, f), t):
            return 'fill frame of another time'
    if reorder and mode != 'COR':
        k = [frame_id(mode, f) for f in out]
        if k != sorted(k):
            return 'frames not ordered by id: %s' % (k,)
    return None


def run(r):
    ld = SymLoader(symbolic={'lsl.reader.buffer'})
    S = ld.load('lsl.reader.buffer')
    from lsl.reader import buffer as R

    SMALL = {'DRX': [(2, 1, 0), (2, 1, 1)], 'DRX8': [(3, 1, 0), (3, 1, 1)], 'COR': [(1, 1, 100), (1, 1, 228)], 'VDIF': [3, 5], 'TBX': [16, 28]}

    def state(cx, mode, nseg, m, multi):
        """any buffer the invariant allows: m groups with distinct keys newer than the last group returned,
        the group number `multi` with any one to three frames, the others with one"""
        ids = SMALL[mode]
        b = make_buffer(S, mode, ids, nseg, reorder=bool(cx.bool_input('reorder')))
        last = cx.int_input('last', T0 if mode.startswith('DRX') else 0, 2 ** 62)
        b.done[-1] = last
        keys, groups = [], []
        n = 0
        for k in range(m):
            t = cx.int_input('t%d' % k, 0, 2 ** 62)
            cx.assume(t > last)
            for o in keys:
                cx.assume(t != o)
            cnt = cx.int_input('cnt', 1, 3).__index__() if k == multi else 1
            g = []
            for j in range(cnt):
                fid = ids[cx.int_input('id%d_%d' % (k, j), 0, 1).__index__()]
                g.append(make_frame(mode, t, fid, n))
                n += 1
            b.buffer[t] = deque(g)
            keys.append(t)
            groups.append(g)
        cx.hashable = True
        return b, ids, last, keys, groups

    def same(b, keys, groups):
        """the buffer holds exactly these groups, frame by frame"""
        if len(b.buffer) != len(keys):
            return False
        return all(any(bool(X(k) == X(kk)) and [id(f) for f in v] == [id(f) for f in g] for kk, v in b.buffer.items()) for k, g in zip(keys, groups))

    def append(mode, m):
        def fn(cx):
            cx.hashable = True
            b, ids, last, keys, groups = state(cx, mode, 3, m, 0)
            t = cx.int_input('t', 0, 2 ** 62)
            f = make_frame(mode, t, ids[cx.int_input('fid', 0, 1).__index__()], 90)
            g = make_frame(mode, t, ids[0], 91)
            how = cx.int_input('how', 0, 2).__index__()
            new = [f] if how == 0 else [f, g]
            d0 = b.dropped
            ret = b.append(f if how == 0 else (list(new) if how == 1 else deque(new)))
            if bool(t <= last):
                cx.prove('append: a frame of a group already returned, or older, is dropped and counted', And(b.dropped == d0 + len(new), same(b, keys, groups)))
            else:
                for k, kk in enumerate(keys):
                    if bool(kk == t):
                        groups[k] = groups[k] + new
                        break
                else:
                    keys.append(t)
                    groups.append(new)
                cx.prove('append: joins the frames of its time; no other group changes', And(b.dropped == d0, same(b, keys, groups)))
            cx.prove('append: no counter but dropped changes', And(b.full == 0, b.partial == 0, b.missing == 0, X(b.done[-1]) == X(last)))
            cx.prove('append: groups in the buffer are newer than the last returned', And(*[k > last for k in b.buffer]) if b.buffer else True)
        return fn

    def get(mode, m, nseg):
        def fn(cx):
            cx.hashable = True
            multi = cx.int_input('multi', 0, max(m - 1, 0)).__index__()
            b, ids, last, keys, groups = state(cx, mode, nseg, m, multi)
            cx.prove('filled, overfilled, is_empty tell the number of groups', And(b.filled == (m >= nseg), b.overfilled == (m > nseg), b.is_empty() == (m == 0)))
            pk = b.peek(require_filled=False)
            if m == 0:
                cx.prove('peek: None for an empty buffer', pk is None)
            else:
                cx.prove('peek: the oldest time', And(*[X(pk) <= X(k) for k in keys] + [Or(*[X(pk) == X(k) for k in keys])]))
            out = b.get()
            if m < nseg or m == 0:
                cx.prove('get: nothing until the buffer is filled', And(out is None, same(b, keys, groups), X(b.done[-1]) == X(last), b.full + b.partial + b.missing + b.dropped == 0))
                return
            j = 0
            for k in range(1, m):
                if bool(keys[k] < keys[j]):
                    j = k
            g = groups.pop(j)
            t = keys.pop(j)
            p = group_problem(mode, ids, b.reorder, g, out if out is not None else [], t, lambda a, c: bool(a == c))
            cx.prove('get: the oldest group, every distinct frame once, missing frames filled with zeros', p is None, info=p)
            cx.prove('get: the other groups stay', same(b, keys, groups))
            cx.prove('get: late frames of this group will be dropped', And(X(b.done[-1]) == X(t), *[k > t for k in b.buffer]))
            have = len({frame_id(mode, f) for f in g})
            cx.prove('get: counters', And(b.full == (1 if have == len(ids) else 0), b.partial == (0 if have == len(ids) else 1), b.missing == len(ids) - have, b.dropped == len(g) - have))
        return fn

    def flush(mode, m):
        def fn(cx):
            cx.hashable = True
            b, ids, last, keys, groups = state(cx, mode, 5, m, 0)
            left = list(zip(keys, groups))
            prev = last
            for out in b.flush():
                j = 0
                for k in range(1, len(left)):
                    if bool(left[k][0] < left[j][0]):
                        j = k
                if not left:
                    cx.prove('flush: each group once', False)
                    return
                t, g = left.pop(j)
                p = group_problem(mode, ids, b.reorder, g, out, t, lambda a, c: bool(a == c))
                cx.prove('flush: the groups in time order, each complete', p is None, info=p)
                cx.prove('flush: in time order', t > prev)
                prev = t
            cx.prove('flush: everything, and nothing is left', And(not left, b.is_empty()))
            b.append(make_frame(mode, cx.int_input('late', 0, 2 ** 62), ids[0], 50))
            cx.prove('flush: late frames are dropped afterwards', b.is_empty() if bool(cx.inputs['late'] <= prev) else not b.is_empty())
            b.reset()
            cx.prove('reset: empty', b.is_empty())
        return fn

    # ---- any frame: the frame put in place of a lost one, and the order of two frames, for every id
    DOM = {'DRX': ((1, 7), (1, 2), (0, 1)), 'DRX8': ((1, 7), (1, 2), (0, 1)), 'COR': ((1, 256), (1, 256), (0, 4095)), 'VDIF': ((0, 1023),), 'TBX': ((0, 4095),)}

    def sym_id(cx, mode, tag):
        v = [cx.int_input('%s%d' % (tag, k), lo, hi) for k, (lo, hi) in enumerate(DOM[mode])]
        return tuple(v) if len(v) > 1 else v[0]

    def tup(i):
        return i if isinstance(i, tuple) else (i,)

    def fields(f):
        return {**{'header.' + k: v for k, v in vars(f.header).items()}, **{'payload.' + k: v for k, v in vars(f.payload).items() if k != '_data'}}
    OWN = {'DRX': ('header.drx_id',), 'DRX8': ('header.drx_id',), 'COR': ('header.first_chan', 'payload.stand0', 'payload.stand1'), 'VDIF': ('header.thread_id',), 'TBX': ('header.first_chan',)}

    def fill(mode):
        def fn(cx):
            cx.hashable = True
            t = cx.int_input('t', T0 + 1, 2 ** 62)
            b = make_buffer(S, mode, SMALL[mode], 3)
            f = make_frame(mode, t, sym_id(cx, mode, 'have'), 4)
            b.buffer[t] = deque([f])
            before = fields(f)
            want = sym_id(cx, mode, 'want')
            g = b.create_fill(t, want)
            cx.prove('create_fill: the id asked for', And(*[X(a) == X(c) for a, c in zip(tup(frame_id(mode, g)), tup(want))]))
            cx.prove('create_fill: the time of its group', X(frame_time(mode, g)) == X(t) if mode != 'VDIF' else And(X(g.header.seconds_from_epoch) == X(t // 1000000), X(g.header.frame_in_second) == X(t % 1000000)))
            after = fields(g)
            cx.prove('create_fill: every other field as in the group', And(set(after) == set(before), *[X(after[k]) == X(before[k]) if isinstance(before[k], SInt) else after[k] == before[k] for k in before if k not in OWN[mode] and k in after]))
            cx.prove('create_fill: zero data, marked invalid', And(g.valid is False, g.payload._data.shape == (4,), not np.any(g.payload._data)))
            now = fields(f)
            cx.prove('create_fill: the template is left alone', And(f.valid is True, g is not f, not np.shares_memory(f.payload._data, g.payload._data), (f.payload._data == np.arange(1, 5) * 5).all(),
                     *[X(now[k]) == X(before[k]) if isinstance(before[k], SInt) else now[k] == before[k] for k in before]))
            if mode in ('DRX', 'DRX8'):
                cx.prove('create_fill: still a frame of this format', X(g.header.drx_id >> 6 & 1) == (1 if mode == 'DRX8' else 0))
        return fn

    def replay_fill(mode):
        def f(i):
            ix = lambda tag: tuple(int(i['%s%d' % (tag, k)]) for k in range(len(DOM[mode]))) if len(DOM[mode]) > 1 else int(i[tag + '0'])
            t, have, want = int(i['t']), ix('have'), ix('want')
            if have == want:
                return None
            b = make_buffer(R, mode, SMALL[mode], 1)
            b.possibleFrames, b.nFrames = {have, want}, 2
            fr = make_frame(mode, t, have, 4)
            keep = dict(fields(fr))
            b.append(fr)
            p = group_problem(mode, [have, want], False, [fr], b.get(), t)
            if p:
                return '%s buffer with frame %s of time %d, frame %s lost: %s' % (mode, have, t, want, p)
            b.buffer[t] = deque([fr])
            g = b.create_fill(t, want)
            bad = [k for k in keep if k not in OWN[mode] and fields(g).get(k) != keep[k]]
            if bad:
                return '%s buffer: the frame put in place of %s has another %s' % (mode, want, bad)
            if fields(fr) != keep:
                return '%s buffer: filling in for a lost frame changes the frame %s' % (mode, have)
        return f

    def order(mode):
        def fn(cx):
            cx.hashable = True
            a, c = sym_id(cx, mode, 'a'), sym_id(cx, mode, 'c')
            x = S._cmp_frames(make_frame(mode, T0, a, 0), make_frame(mode, T0, c, 1))
            less = equal = None
            for p, q in reversed(list(zip(tup(a), tup(c)))):
                less = p < q if less is None else Or(p < q, And(p == q, less))
                equal = p == q if equal is None else And(p == q, equal)
            cx.prove('_cmp_frames: by beam, tuning, polarization, or by channel, or by thread', And(Or(Not(less), X(x) < 0), Or(Not(equal), X(x) == 0), Or(less, equal, X(x) > 0)))
        return fn

    def replay_order(mode):
        def f(i):
            ix = lambda tag: tuple(int(i['%s%d' % (tag, k)]) for k in range(len(DOM[mode])))
            a, c = ix('a'), ix('c')
            one = lambda z: z if len(z) > 1 else z[0]
            x = R._cmp_frames(make_frame(mode, T0, one(a), 0), make_frame(mode, T0, one(c), 1))
            if (x > 0) - (x < 0) != (a > c) - (a < c):
                return '%s frames %s and %s compare as %d' % (mode, a, c, x)
        return f

    # ---- replay: the same state on the real buffer
    def replay(mode, op, m, nseg=3):
        def f(i):
            ids = SMALL[mode]
            for reorder in (False, True):
                last = int(i.get('last', 1))
                b = make_buffer(R, mode, ids, nseg, reorder)
                b.done[-1] = last
                groups = {}
                n = 0
                order = []
                for k in range(m):
                    t = int(i['t%d' % k])
                    cnt = int(i.get('cnt', 1)) if k == int(i.get('multi', 0)) else 1
                    g = [make_frame(mode, t, ids[int(i.get('id%d_%d' % (k, j), 0))], n + j) for j in range(cnt)]
                    n += cnt
                    groups[t] = list(g)
                    b.buffer[t] = deque(g)
                ev = []
                if op == 'append':
                    t = int(i['t'])
                    ev = [('put', t, ids[int(i.get('fid', 0))])]
                    if int(i.get('how', 0)):
                        ev.append(('put', t, ids[0]))
                elif op == 'get':
                    ev = [('get',)] * (m + 1)
                else:
                    ev = [('flush',)]
                    if 'late' in i:
                        ev.append(('put', int(i['late']), ids[0]))
                msg = history(R, mode, ids, nseg, reorder, ev, start=(b, last, groups))
                if msg:
                    return msg
        return f

    def history(mod, mode, ids, nseg, reorder, events, start=None):
        """any history against a plain model: dict time -> frames"""
        if start:
            b, last, groups = start
        else:
            b = make_buffer(mod, mode, ids, nseg, reorder)
            last, groups = (T0 if mode.startswith('DRX') else 0), {}
        cnt = dict(full=0, partial=0, missing=0, dropped=0)
        n = 1000
        done = []

        def take(t, out, how):
            nonlocal last
            g = groups.pop(t)
            p = group_problem(mode, ids, reorder, g, out, t)
            if p:
                return '%s buffer, after %s: %s' % (mode, done[-12:], p)
            have = len({frame_id(mode, f) for f in g})
            cnt['full' if have >= len(ids) else 'partial'] += 1
            cnt['missing'] += len(ids) - have
            cnt['dropped'] += len(g) - have
            last = t

        def counters():
            got = {k: getattr(b, k) for k in cnt}
            if got != cnt:
                return '%s buffer, after %s: counters %s, expected %s' % (mode, done[-12:], got, cnt)
        for e in events:
            done.append(e)
            if e[0] == 'put':
                f = make_frame(mode, e[1], e[2], n)
                n += 1
                b.append(f)
                if e[1] <= last:
                    cnt['dropped'] += 1
                else:
                    groups.setdefault(e[1], []).append(f)
            elif e[0] == 'get':
                pk = b.peek()
                out = b.get()
                if len(groups) < nseg or not groups:
                    if out is not None or pk is not None:
                        return '%s buffer, after %s: a group is returned before the buffer is filled' % (mode, done[-12:])
                    continue
                if out is None or pk != min(groups):
                    return '%s buffer, after %s: filled, but peek gives %r (oldest %r) and get %s' % (mode, done[-12:], pk, min(groups), 'nothing' if out is None else 'frames')
                m_ = take(min(groups), out, 'get')
                if m_:
                    return m_
            elif e[0] == 'flush':
                for out in b.flush():
                    if not groups:
                        return '%s buffer, after %s: flush returns too much' % (mode, done[-12:])
                    ts = {frame_time(mode, f) for f in out}
                    if ts != {min(groups)}:
                        return '%s buffer, after %s: flush returns the group of %s, the oldest is %r' % (mode, done[-12:], sorted(ts), min(groups))
                    m_ = take(min(groups), out, 'flush')
                    if m_:
                        return m_
                if groups or not b.is_empty():
                    return '%s buffer, after %s: flush leaves groups behind' % (mode, done[-12:])
            elif e[0] == 'reset':
                b.reset()
                groups.clear()
                last = 0
                if not b.is_empty():
                    return '%s buffer not empty after reset' % mode
            if {k: [id(f) for f in v] for k, v in b.buffer.items()} != {k: [id(f) for f in v] for k, v in groups.items()}:
                return '%s buffer, after %s: holds %s, expected %s' % (mode, done[-12:], {k: len(v) for k, v in b.buffer.items()}, {k: len(v) for k, v in groups.items()})
            if b.filled != (len(groups) >= nseg) or b.overfilled != (len(groups) > nseg) or b.is_empty() != (not groups):
                return '%s buffer, after %s: fill level flags' % (mode, done[-12:])
            m_ = counters()
            if m_:
                return m_
        return None

    fns = [B + f for f in ('append', 'get', 'peek', 'flush', 'filled', 'overfilled', 'is_empty', 'reset', '_get_missing_list')]
    with r.parallel():
        for mode in ('DRX', 'DRX8', 'COR', 'VDIF', 'TBX'):
            cl = 'lsl.reader.buffer.%sFrameBuffer.' % mode
            fx = fns + [cl + f for f in ('__init__', 'get_max_frames', 'get_figure_of_merit', 'create_fill')]
            M = (0, 1, 2, 3) if mode == 'DRX' else (0, 1, 2)
            for m in M:
                bd = '%d groups in the buffer, two expected frames per group, up to three frames in one; every time and every history that leads to such a buffer' % m
                r.contract('%s append, %d groups' % (mode, m), append(mode, m), fx, replay(mode, 'append', m), bounded=bd)
                r.contract('%s get, %d groups' % (mode, m), get(mode, m, max(1, min(m, 2)) if m != 1 else 2), fx, replay(mode, 'get', m, max(1, min(m, 2)) if m != 1 else 2), bounded=bd)
                r.contract('%s flush, %d groups' % (mode, m), flush(mode, m), fx, replay(mode, 'flush', m), bounded=bd)
            r.contract('%s create_fill, any frame' % mode, fill(mode), [cl + 'create_fill'], replay_fill(mode))
            if mode != 'COR':
                r.contract('%s order of two frames' % mode, order(mode), ['lsl.reader.buffer._cmp_frames'], replay_order(mode))
    rng = r.rng

    def any_ids(mode):
        if mode in ('DRX', 'DRX8'):
            bs = rng.sample(range(1, 8), rng.choice([1, 1, 2]))
            return [(b, t, p) for b in sorted(bs) for t in rng.choice([(1, 2), (1,), (2,)]) for p in (0, 1)] if len(bs) == 1 else [(b, t, p) for b in sorted(bs) for t in (1, 2) for p in (0, 1)]
        if mode == 'COR':
            st = sorted(rng.sample(range(1, 257), 2))
            return [(a, b, c) for c in sorted(rng.sample(range(4096), 2)) for a, b in ((st[0], st[0]), (st[0], st[1]), (st[1], st[1]))]
        return sorted(rng.sample(range(1024 if mode == 'VDIF' else 4096), rng.randrange(1, 5)))

    def cases():
        for k in range(1500 if not r.thorough else 15000):
            mode = ('DRX', 'DRX8', 'COR', 'VDIF', 'TBX')[k % 5]
            ids = ids_of(mode) if rng.random() < .3 else any_ids(mode)
            base = T0 + rng.randrange(1, 10**15) if mode != 'VDIF' else rng.randrange(1, 10**12)
            nseg = rng.randrange(1, 5)
            ev = []
            cur = 0
            for j in range(rng.randrange(5, 60)):
                x = rng.random()
                if x < 0.75:
                    if rng.random() < 0.3:
                        cur += 1
                    d = max(0, cur + rng.choice([0, 0, 0, 1, -1, -2, 3]))
                    ev.append(('put', base + d * 10, rng.choice(ids)))
                elif x < 0.96:
                    ev.append(('get',))
                elif x < 0.99:
                    ev.append(('flush',))
                else:
                    ev.append(('reset',))
            ev.append(('flush',))
            yield dict(mode=mode, ids=ids, nseg=nseg, reorder=rng.random() < .4, events=ev)
    r.concrete('random histories of every kind of buffer', cases(), lambda c: history(R, **c), limit_s=60)
