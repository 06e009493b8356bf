"""Harness for the frame readers: symbolic file contents, contract on what one read leaves in the frame object."""
import struct
import time
import traceback
import z3
from . import irx, capi
from .irx import Ptr, NULL, Fl, bv, prove_free, MemFault, isz
from .sym import Ctx, Unsupported

R = '/repo/lsl/reader/'
GOFAST = [R + f + '.cpp' for f in ('gofast', 'drx', 'drx8', 'drspec', 'vdif', 'cor', 'tbx')]
_ext = {}


def gofast_files():
    """sources of the reader extension, as setup.py lists them"""
    import re
    try:
        txt = open('/repo/setup.py').read()
        m = re.search(r"Extension\(\s*['\"]reader\._gofast['\"],\s*\[(.*?)\]", txt, re.S)
        fs = re.findall(r"['\"](lsl/reader/[\w.]+\.cpp)['\"]", m.group(1))
        if fs:
            return ['/repo/' + f for f in fs]
    except Exception:
        pass
    return GOFAST


def module():
    if 'm' not in _ext:
        _ext['m'] = capi.ExtModule(gofast_files(), 'PyInit__gofast')
    return _ext['m']


def real():
    if 'r' not in _ext:
        _ext['r'] = irx.build_ext('_gofast', gofast_files())
    return _ext['r']


def install_real():
    """make lsl.reader use the extension compiled from the current tree"""
    import sys
    m = real()
    sys.modules['lsl.reader._gofast'] = m
    return m


class SymFile:
    """a file with symbolic contents; `fixed` gives concrete values for some offsets"""

    def __init__(self, env, cx, fixed=None, mode='full', size=None):
        self.env, self.cx, self.fixed, self.mode = env, cx, fixed or {}, mode
        self.pos = 0
        self.size = size             # bytes available (None: unlimited)
        self.log = []
        self.vars = {}
        self.p = env.new('file', methods={'read': self.read, 'seek': self.seek, 'tell': self.tell} if mode != 'noread' else {})

    def byte(self, k):
        if k in self.fixed:
            return self.fixed[k]
        v = self.vars.get(k)
        if v is None:
            v = self.vars[k] = z3.BitVec('b%d' % k, 8)
            self.cx.inputs['b%d' % k] = v
        return v

    def read(self, n):
        if not isinstance(n, int):
            raise Unsupported('read of symbolic size')
        n = irx.sgn(n, 64) if n >> 63 else n
        self.log.append(('read', self.pos, n))
        if self.mode == 'error':
            self.env.err = ('OSError', 'read failed')
            return NULL
        if n < 0:
            raise Unsupported('read to the end')
        base = self.pos
        if isinstance(self.size, z3.BitVecRef):
            # symbolic file size: either everything asked for is there, or the rest of the file
            if self.cx.decide(z3.UGE(self.size, z3.BitVecVal(base + n, 64))):
                got, have = n, n
            elif self.cx.decide(z3.ULE(self.size, z3.BitVecVal(base, 64))):
                got, have = 0, 0
            else:
                got, have = z3.simplify(self.size - base), n
        else:
            got = have = n if self.size is None else max(0, min(n, self.size - self.pos))
        self.pos = z3.simplify(base + got) if not isinstance(got, int) else base + got
        m = self.env.ex.alloc('bytes', have, default=lambda k, base=base: self.byte(base + k))
        return self.env.new('bytes', n=got, mem=m)

    def seek(self, off, whence=0):
        if not isinstance(whence, int):
            raise Unsupported('symbolic seek')
        if isinstance(off, int):
            off = irx.sgn(off & 0xFFFFFFFF, 32) if off < (1 << 32) else irx.sgn(off, 64)
        else:
            off = z3.SignExt(64 - off.size(), off) if off.size() < 64 else off
        self.log.append(('seek', off, whence))
        pos = off if whence == 0 else self.pos + off if whence == 1 else self.size + off
        if not isinstance(pos, int):
            pos = self.unique(pos)
        self.pos = pos
        return self.env.pyint(self.pos, 64, True)

    def unique(self, e):
        """the single value the path condition allows for e"""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return irx.sgn(e.as_long(), 64)
        if self.cx._check() != z3.sat:
            raise Unsupported('file position')
        v = self.cx.solver.model().eval(e, True)
        if self.cx._check(e != v) != z3.unsat:
            raise Unsupported('file position is not determined')
        return irx.sgn(v.as_long(), 64)

    def tell(self):
        return self.env.pyint(self.pos, 64, True)


class Result:
    pass


def call_reader(cx, method, fixed=None, mode='full', size=None, extra=(), calls=1, before=None):
    """run the real reader code symbolically; returns Result(err, header, payload, file, env)"""
    m = module()
    env, ex = m.boot(cx)
    f = SymFile(env, cx, fixed, mode, size)
    out = []
    for _ in range(calls):
        hdr, pay = env.new('header', fields={}), env.new('payload', fields={})
        frame = env.new('frame', fields={'header': hdr, 'payload': pay})
        args = env.new('tuple', items=[f.p, frame] + list(extra))
        r = Result()
        r.ex, r.env, r.file, r.start = ex, env, f, f.pos
        env.err = None
        fn = m.methods[method]
        nargs = len(m.mod.funcs[fn].params)
        ret = ex.call(fn, [NULL, args, NULL][:nargs])
        r.err = env.err[0] if ret is NULL or ret.o is None else None
        if r.err is None and env.err is not None:
            r.err = env.err[0]
        r.end = f.pos
        r.h = hdr.o.attrs['fields']
        r.p = pay.o.attrs['fields']
        r.hw = hdr.o.attrs.get('written', [])
        r.frame_ok = (ret is not NULL and ret.o is frame.o and frame.o.attrs['fields'].get('header') is not None
                      and frame.o.attrs['fields']['header'].o is hdr.o and frame.o.attrs['fields']['payload'].o is pay.o)
        out.append(r)
    return out[0] if calls == 1 else out


def be(f, off, n):
    return z3.Concat(*[bv(f.byte(off + k), 8) for k in range(n)]) if n > 1 else bv(f.byte(off), 8)


def le(f, off, n):
    return z3.Concat(*[bv(f.byte(off + k), 8) for k in reversed(range(n))]) if n > 1 else bv(f.byte(off), 8)


def int_is(env, p, spec, signed=False):
    """the Python int at p equals the value of the bit-vector spec"""
    if p is None or p.o is None or p.o.attrs.get('type') != 'int':
        return False
    o = p.o.attrs
    W = 80
    v = bv(o['v'], o['n'])
    if v.size() < o['n']:
        v = z3.ZeroExt(o['n'] - v.size(), v)
    a = z3.SignExt(W - v.size(), v) if o['signed'] else z3.ZeroExt(W - v.size(), v)
    if isinstance(spec, int):
        return z3.simplify(a == spec)
    b = z3.SignExt(W - spec.size(), spec) if signed else z3.ZeroExt(W - spec.size(), spec)
    return a == b


def float_is(ex, mem, off, spec_int, w=32):
    """float cell equals the signed integer given by bit-vector spec_int"""
    c = mem.cells.get(off)
    if c is None or c[0] != w // 8:
        v = ex.mload(Ptr(mem, off), irx.F32 if w == 32 else irx.F64)
    else:
        v = c[1]
    if isinstance(v, float):
        if isinstance(spec_int, int):
            return v == spec_int
        if v != int(v):
            return False
        return spec_int == z3.BitVecVal(int(v), spec_int.size())
    if isinstance(v, Fl) and v.iv is not None:
        a, b = v.iv, spec_int
        n = max(a.size(), b.size()) + 1
        return z3.SignExt(n - a.size(), a) == z3.SignExt(n - b.size(), b)
    if isinstance(v, Fl):
        return v.real() == z3.ToReal(z3.BV2Int(spec_int, True))
    return False


def int8_is(ex, mem, off, spec8):
    v = ex.mload(Ptr(mem, off), irx.I8)
    if isinstance(v, irx.Undef):
        return False
    return bv(v, 8) == spec8


def nib(b, hi):
    """4-bit two's complement nibble of byte b as an 8-bit value"""
    x = z3.Extract(7, 4, b) if hi else z3.Extract(3, 0, b)
    return z3.SignExt(4, x)


def inputs_to_bytes(inputs, n, fixed=None, fill=0):
    out = bytearray(n)
    for k in range(n):
        v = (fixed or {}).get(k)
        if v is None:
            v = inputs.get('b%d' % k)
        out[k] = fill if v is None else int(v) & 255
    return bytes(out)


def guard(cx, name, fn):
    """run fn; a memory fault on any path is a failed obligation"""
    try:
        r = fn()
    except MemFault as e:
        cx.prove(name + ': memory safety (%s)' % e, z3.BoolVal(False), info=str(e))
        return None
    cx.obligations.append({'name': name + ': memory safety', 'status': 'discharged', 'how': 'executed'})
    return r


# ---------------------------------------------------------------------------------------- shared contract helpers
class FakeExc(Exception):
    pass


def reader_contract(r, name, functions, fn, replay, budget=240, **kw):
    """a contract decided by Engine B (fn(cx) runs call_reader and proves)"""
    return r.contract(name, fn, functions, replay, budget=budget, **kw)


def short_reads(r, name, method, nbytes, fixed, functions, replay):
    """an incomplete frame is reported as end of file, a failing read as an error, and nothing is stored in the frame"""
    def fn(cx):
        cut = z3.BitVec('cut', 64)
        cx.inputs['cut'] = cut
        cx.assume(z3.ULT(cut, nbytes))
        res = guard(cx, method, lambda: call_reader(cx, method, fixed, size=cut))
        if res is None:
            return
        cx.prove('%s: fewer than %d bytes is end of file' % (method, nbytes), res.err == 'EOFError')

    def fail(cx):
        which = cx.int_input('mode', 0, 1).__index__()
        res = guard(cx, method, lambda: call_reader(cx, method, fixed, mode=('error', 'noread')[which]))
        if res is None:
            return
        cx.prove('%s: failing read is an error' % method, res.err is not None and not res.h and not res.p)
    r.contract(name + ': truncated frame', fn, functions, replay)
    r.contract(name + ': read failure', fail, functions, replay)


def bits_is(ex, mem, off, spec32, neg=False):
    """the float cell holds exactly the 32-bit pattern (with its sign flipped when neg)"""
    v = ex.mload(Ptr(mem, off), irx.F32)
    if isinstance(v, Fl) and v.bits is not None:
        return v.bits == spec32 if v.neg == neg else False
    if isinstance(v, float):
        b = struct.unpack('<I', struct.pack('<f', v))[0]
        return z3.simplify(spec32 == z3.BitVecVal(b ^ (0x80000000 if neg else 0), 32))
    return False


def real_is(ex, mem, off, spec, w=32):
    """the float cell equals the real number (or z3 Real expression) spec"""
    from fractions import Fraction
    v = ex.mload(Ptr(mem, off), irx.F32 if w == 32 else irx.F64)
    if isinstance(v, irx.Undef):
        return False
    if isinstance(v, float):
        q = Fraction(v)
        v = z3.Q(q.numerator, q.denominator)
    else:
        v = v.real()
    if isinstance(spec, (int, float, Fraction)):
        q = Fraction(spec)
        spec = z3.Q(q.numerator, q.denominator)
    return v == spec


def level(e, vals, w=None):
    """value of the table vals at the bit-vector index e (reals, or w-bit integers)"""
    from fractions import Fraction
    n = e.size()

    def c(v):
        if w is not None:
            return z3.BitVecVal(int(v), w)
        q = Fraction(float(v))
        return z3.Q(q.numerator, q.denominator)

    def tree(lo, k):
        if k < 0:
            return c(vals[lo])
        return z3.If(z3.Extract(k, k, e) == 1, tree(lo + (1 << k), k - 1), tree(lo, k - 1))
    return tree(0, n - 1)
