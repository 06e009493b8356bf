"""C15: baseline enumeration and its inverses; C16 is the geometry."""
import itertools
from pv.loader import SymLoader
from pv.runner import Failure


class Opaque:
    """an antenna about which nothing is known but its identity"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__

    def __repr__(self):
        return 'a%d' % self.n


def spec(n, auto):
    return [(i, j) for i in range(n) for j in range(i + (0 if auto else 1), n)]


def run(r):
    from lsl.correlator import uvutils as uv
    from lsl.common.stations import Antenna
    NMAX = 24 if not r.thorough else 64
    r.assume('the functions never inspect an antenna beyond equality, so a run with distinct opaque antennas stands for every list of that length')
    r.bounded.append('every antenna list length 0..%d (the length is the bound)' % NMAX)
    r.functions.extend(['lsl.correlator.uvutils.get_baselines', 'lsl.correlator.uvutils.baseline_to_antennas',
                        'lsl.correlator.uvutils.antennas_to_baseline'])

    def one(c):
        n, auto, kind = c
        if kind == 'opaque':
            A = [Opaque(i) for i in range(n)]
        elif kind == 'int':
            A = [7 * i + 3 for i in range(n)]
        elif kind == 'antenna':
            A = [Antenna(i + 1) for i in range(n)]
        else:
            A = [Opaque(i) for i in range(n)]
        B = [Opaque(100 + i) for i in range(n)] if kind == 'two' else None
        keep = list(A)
        bl = uv.get_baselines(A, antennas2=B, include_auto=auto)
        want = [(A[i], (B or A)[j]) for i, j in spec(n, auto)]
        if len(bl) != len(want) or any(tuple(x) != y for x, y in zip(bl, want)):
            return 'get_baselines of %d antennas (auto=%s, %s) = %r' % (n, auto, kind, bl)
        if len(A) != len(keep) or any(x is not y for x, y in zip(A, keep)):
            return 'get_baselines changed its argument'
        for lst in (None, bl):
            idx = range(len(want)) if len(want) < 60 else list(range(0, len(want), 7)) + [len(want) - 1]
            for k in idx:
                p = uv.baseline_to_antennas(k, A, antennas2=B, baseline_list=lst, include_auto=auto)
                if tuple(p) != want[k]:
                    return 'baseline_to_antennas(%d) of %d antennas (auto=%s) = %r, expected %r' % (k, n, auto, p, want[k])
                for a, b in (want[k], want[k][::-1]):
                    m = uv.antennas_to_baseline(a, b, A, antennas2=B, baseline_list=lst, include_auto=auto)
                    if m != k:
                        return 'antennas_to_baseline(%r, %r) of %d antennas (auto=%s) = %r, expected %d' % (a, b, n, auto, m, k)
        # any list of baselines can be searched: none at all, a part, another order
        for lst in ([], bl[1::2], bl[::-1], [b[::-1] for b in bl[::3]]):
            for q in range(0, len(want), 1 + len(want) // 20):
                f = [k for k, b in enumerate(lst) if tuple(b) in (want[q], want[q][::-1])] or [-1]
                for a, b in (want[q], want[q][::-1]):
                    m = uv.antennas_to_baseline(a, b, A, antennas2=B, baseline_list=lst, include_auto=auto)
                    if m != f[0]:
                        return 'antennas_to_baseline of a pair in a list of %d baselines = %r, expected %d' % (len(lst), m, f[0])
            for k in range(0, len(lst), 1 + len(lst) // 20):
                if tuple(uv.baseline_to_antennas(k, A, antennas2=B, baseline_list=lst, include_auto=auto)) != tuple(lst[k]):
                    return 'baseline_to_antennas(%d) in a list of %d baselines' % (k, len(lst))
        if not auto and n:
            m = uv.antennas_to_baseline(A[0], A[0], A, include_auto=False)
            if m != -1:
                return 'antennas_to_baseline of an auto-correlation that is not in the list returned %r' % m
        x = {'opaque': Opaque(-1), 'two': Opaque(-1), 'int': -5, 'antenna': Antenna(9999)}[kind]
        if n and uv.antennas_to_baseline(A[0], x, A, antennas2=B, include_auto=auto) != -1:
            return 'antennas_to_baseline finds an antenna that is not in the list'
    cases = [(n, auto, k) for n in range(NMAX + 1) for auto in (False, True) for k in ('opaque', 'int', 'antenna', 'two')]
    r.concrete('every list length', cases, one, limit_s=120)


LEVEL = 'exploration'
