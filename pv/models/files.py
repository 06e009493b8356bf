"""
Contract on open()/file objects and os.path.getsize for part files of symbolic size: a file is a range of one
symbolic byte string; read(n) returns the next min(n, rest) bytes (all of them for n < 0), seek/tell as documented.
"""
import types
from pv.sym import SInt, X, ctx, Ite, And, Or, is_sym, Unsupported


class Span:
    """bytes [a, a+n) of the whole"""
    def __init__(self, a, n):
        self.a, self.n = a, n

    def __sym_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, Span):
            raise Unsupported('joining bytes of a file with others')
        if bool(self.n == 0):
            return o
        if bool(o.n == 0):
            return self
        if not bool(self.a + self.n == o.a):
            return Broken(self.n + o.n)
        return Span(self.a, self.n + o.n)

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported('joining bytes of a file with others')


class Broken(Span):
    """bytes that do not follow each other in the whole"""
    def __init__(self, n):
        self.a, self.n = None, n

    def __add__(self, o):
        return Broken(self.n + o.n)


class File:
    def __init__(self, fs, base, size):
        self.fs, self.base, self.size, self.pos, self.closed = fs, base, size, 0, False

    def _o(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def read(self, n=-1):
        self._o()
        rest = self.size - self.pos
        rest = Ite(rest > 0, rest, 0)
        if n is None or bool(n < 0):
            k = rest
        else:
            k = Ite(n <= rest, n, rest)
        s = Span(self.base + self.pos, k)
        self.pos = self.pos + k
        return s

    def seek(self, p, whence=0):
        self._o()
        if whence == 1:
            p = self.pos + p
        elif whence == 2:
            p = self.size + p
        if bool(p < 0):
            raise ValueError('negative seek value')
        self.pos = p
        return p

    def tell(self):
        self._o()
        return self.pos

    def close(self):
        self.closed = True
        if self in self.fs.open_files:
            self.fs.open_files.remove(self)


class FS:
    def __init__(self):
        self.files = {}
        self.open_files = []

    def open(self, name, mode='r', buffering=-1, *a, **k):
        if mode not in ('rb', 'br'):
            raise Unsupported('open mode %r' % (mode,))
        base, size = self.files[name]
        f = File(self, base, size)
        self.open_files.append(f)
        return f

    def getsize(self, name):
        return self.files[name][1]

    def os_module(self):
        import os
        m = types.ModuleType('os')
        p = types.ModuleType('os.path')
        for k in dir(os.path):
            if not k.startswith('__'):
                setattr(p, k, getattr(os.path, k))
        p.getsize = self.getsize
        m.path = p
        m.SEEK_SET, m.SEEK_CUR, m.SEEK_END = 0, 1, 2
        fs = self

        class st:
            def __init__(self, n):
                self.st_size = fs.getsize(n)
        m.stat = lambda n: st(n)
        return m
