"""C13: split files and position savers (lsl.reader.utils)."""
import io
import os
import random
from pv.loader import SymLoader
from pv.sym import And, Or, Not, X, SInt
from pv.models.files import FS, Span, Broken
from pv.runner import scratch


def run(r):
    r.trust('open()/file objects and os.path.getsize (contract pv/models/files.py); bisect is executed as it is')
    from lsl.reader import utils as U
    M = 'lsl.reader.utils.'
    # the file system the code under contract sees; replaced on every path
    cur = {}
    fs0 = FS()

    class Proxy:
        def __getattr__(self, n):
            return getattr(cur['fs'], n)
    px = Proxy()
    osm = fs0.os_module()
    osm.path.getsize = lambda n: cur['fs'].getsize(n)

    class st:
        def __init__(self, n):
            self.st_size = cur['fs'].getsize(n)
    osm.stat = lambda n: st(n)
    ld = SymLoader(models={'os': osm, 'os.path': osm.path}, symbolic={'lsl.reader.utils'}, builtins={'open': lambda *a, **k: cur['fs'].open(*a, **k)})
    S = ld.load('lsl.reader.utils')

    def make(cx, n):
        fs = cur['fs'] = FS()
        at = 0
        names, sizes = [], []
        for k in range(n):
            z = cx.int_input('size%d' % k, 0)
            fs.files['part%d' % k] = (at, z)
            names.append('part%d' % k)
            sizes.append(z)
            at = at + z
        cx.assume(at <= 2 ** 50)
        return fs, names, sizes, at

    def state(cx, w, fs, total, p, n, what):
        """the wrapper behaves like a file at position p: one part open, the next byte read is byte p of the whole"""
        cx.prove('%s: tell gives the position' % what, X(w.tell()) == X(p))
        cx.prove('%s: exactly one part is open' % what, len(fs.open_files) == 1)

    def ops(n):
        def fn(cx):
            fs, names, sizes, total = make(cx, n)
            arg = list(names)
            w = S.SplitFileWrapper(arg, sort=False)
            cx.prove('size is the sum of the parts', X(w.size) == X(total))
            # any state a history can leave it in: reached by a seek to any position and a read of any length
            p0 = cx.int_input('p0', 0, 2 ** 51)
            w.seek(p0)
            state(cx, w, fs, total, p0, n, 'seek')
            n0 = cx.int_input('n0', -1, 2 ** 51)
            d = w.read(n0)
            rest = total - p0
            if bool(rest <= 0):
                exp = 0
            elif bool(n0 < 0):
                exp = rest
            elif bool(n0 <= rest):
                exp = n0
            else:
                exp = rest
            cx.prove('read: the number of bytes a single file would give', X(d.n) == X(exp))
            cx.prove('read: the bytes at the position, across any number of parts', Or(X(d.n) == 0, X(d.a) == X(p0)) if d.a is not None else False)
            p1 = p0 + exp
            state(cx, w, fs, total, p1, n, 'read')
            # second operation from that state
            k = cx.int_input('op', 0, 2).__index__()
            v = cx.int_input('v', -2 ** 52, 2 ** 52)
            if k == 0:
                tgt = v
            elif k == 1:
                tgt = p1 + v
            else:
                tgt = total + v
            try:
                w.seek(v, k)
                ok = True
            except (ValueError, OSError):
                ok = False
            cx.prove('seek: only positions before the start are rejected', (tgt >= 0) if ok else (tgt < 0))
            p2 = tgt if ok else p1
            state(cx, w, fs, total, p2, n, 'seek from start, here or end')
            d = w.read(1)
            if bool(p2 < total):
                cx.prove('read after seek: the byte at the position', And(X(d.n) == 1, X(d.a) == X(p2)) if d.a is not None else False)
            else:
                cx.prove('read after seek past the end: nothing', X(d.n) == 0)
            w.close()
            cx.prove('close closes the open part', len(fs.open_files) == 0)
            bad = 0
            for f in (lambda: w.read(1), lambda: w.tell(), lambda: w.seek(0)):
                try:
                    f()
                except ValueError:
                    bad += 1
            cx.prove('no access after close', bad == 3)
            cx.prove('the list of names is left alone', arg == names)
        return fn

    def chk(i):
        n = len([k for k in i if k.startswith('size')])
        sizes = [int(i['size%d' % k]) for k in range(n)]
        lim = 5000
        if sum(sizes) > lim:       # scale a large counterexample down (relations to the part boundaries kept where possible)
            return small(i, n, sizes)
        return real(sizes, int(i['p0']), int(i['n0']), int(i.get('op', 0)), int(i.get('v', 0)))

    def small(i, n, sizes):
        """same order of the positions relative to the boundaries, small numbers"""
        total = sum(sizes)
        pts = sorted(set([0, total] + [sum(sizes[:k]) for k in range(n)] + [max(0, int(i['p0']))] + [int(i['p0']) + max(0, int(i['n0']))]))
        rank = {p: 7 * k for k, p in enumerate(pts)}
        b = [rank[sum(sizes[:k])] for k in range(n + 1)]
        ns = [b[k + 1] - b[k] for k in range(n)]
        p0 = rank[max(0, int(i['p0']))]
        n0 = int(i['n0'])
        n0 = rank[int(i['p0']) + n0] - p0 if n0 >= 0 else -1
        v = int(i.get('v', 0))
        for vv in (v, -1, 0, 1, 3, -3, -7, 7, -sum(ns), -sum(ns) - 1):
            if abs(vv) < 5000:
                m = real(ns, p0, n0, int(i.get('op', 0)), vv)
                if m:
                    return m

    def real(sizes, p0, n0, op, v, seed=0, more=()):
        whole = bytes(random.Random(seed).randrange(256) for k in range(sum(sizes)))
        d = scratch()
        names = []
        at = 0
        for k, z in enumerate(sizes):
            fn = os.path.join(d, 'p%03d_%d' % (k, seed % 97))
            with open(fn, 'wb') as fh:
                fh.write(whole[at:at + z])
            at += z
            names.append(fn)
        try:
            ref = io.BytesIO(whole)
            arg = list(names)
            if more:
                random.Random(seed).shuffle(arg)
            before = list(arg)
            desc = 'parts of %s bytes' % sizes
            with U.SplitFileWrapper(arg, sort=bool(more)) as w:
                if arg != before:
                    return 'the list of file names passed in was reordered'
                if w.size != len(whole):
                    return '%s: size %r' % (desc, w.size)
                hist = [('seek', p0, 0), ('read', n0), ('seek', v, op), ('read', 1)] + list(more)
                done = []
                for h in hist:
                    done.append(h)
                    if h[0] == 'seek':
                        base = (0, ref.tell(), len(whole))[h[2]]
                        try:
                            w.seek(h[1], h[2])
                            err = False
                        except (ValueError, OSError):
                            err = True
                        if err != (base + h[1] < 0):
                            return '%s, after %s: %s' % (desc, done, 'rejected' if err else 'accepted')
                        if not err:
                            ref.seek(base + h[1])
                    else:
                        a, b = w.read(h[1]) if h[1] is not None else w.read(), ref.read(h[1])
                        if a != b:
                            return '%s, after %s: read gives %d bytes, a single file %d%s' % (desc, done, len(a), len(b), '' if len(a) != len(b) else ' others')
                    if w.tell() != ref.tell():
                        return '%s, after %s: at %d, a single file at %d' % (desc, done, w.tell(), ref.tell())
            try:
                w.read(1)
                return 'read after close'
            except ValueError:
                pass
        finally:
            for fn in names:
                os.unlink(fn)
    with r.parallel():
        for n in ((1, 2, 3, 4) if r.thorough else (1, 2, 3)):
            r.contract('any read and seek over %d part%s' % (n, 's' if n > 1 else ''), ops(n), [M + 'SplitFileWrapper.' + f for f in ('__init__', 'read', 'seek', 'tell', 'close', '_open_part', 'size')], chk,
                       bounded='number of parts: %d (sizes, positions and lengths unbounded; histories by the state they leave)' % n if n > 1 else None)

    # ------------------------------------------------------------------ position saver
    class Boom(Exception):
        pass

    def saver(cx):
        fs, names, sizes, total = make(cx, 1)
        f = fs.open('part0', 'rb')
        p = cx.int_input('p', 0, 2 ** 50)
        f.seek(p)
        boom = bool(cx.bool_input('boom'))
        got = False
        try:
            with S.FilePositionSaver(f):
                f.seek(cx.int_input('q', 0, 2 ** 50))
                f.read(cx.int_input('n', -1, 2 ** 50))
                if boom:
                    raise Boom()
        except Boom:
            got = True
        cx.prove('FilePositionSaver: the file is back at its position, also after an exception', X(f.tell()) == X(p))
        cx.prove('FilePositionSaver: exceptions go through', got == boom)

    def chk_saver(i):
        f = io.BytesIO(bytes(1000))
        for boom in (False, True):
            p = int(i['p']) % 1500
            f.seek(p)
            got = False
            try:
                with U.FilePositionSaver(f):
                    f.seek(int(i['q']) % 1500)
                    f.read(int(i['n']) % 1500)
                    if boom:
                        raise Boom()
            except Boom:
                got = True
            if f.tell() != p:
                return 'position %d after the block, %d before' % (f.tell(), p)
            if got != boom:
                return 'exception swallowed'
    r.contract('position saver', saver, [M + 'FilePositionSaver'], chk_saver)

    rng = r.rng

    def cases():
        for k in range(400 if not r.thorough else 4000):
            n = rng.randrange(1, 9)
            sizes = [rng.choice([0, 1, 2, 5, 17, 100, rng.randrange(300)]) for j in range(n)]
            tot = sum(sizes)
            more = [rng.choice([('read', rng.choice([0, 1, 3, rng.randrange(tot + 5), tot, -1, None])), ('seek', rng.randrange(-tot - 3, tot + 9), rng.randrange(3)), ('seek', rng.choice([0, -1, -2]), 2)]) for j in range(25)]
            yield dict(sizes=sizes, p0=rng.randrange(tot + 3), n0=rng.choice([-1, 0, 1, rng.randrange(tot + 3)]), op=rng.randrange(3), v=rng.randrange(-5, tot + 5), seed=k, more=more)
    r.concrete('split files on disk against one file', cases(), lambda c: real(**c))
