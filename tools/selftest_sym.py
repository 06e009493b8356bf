"""Engine A self-test: common Python constructs on symbolic values must be executable, and mean what CPython means.
   usage: /opt/venv/bin/python tools/selftest_sym.py"""
import math, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
from pv import sym
from pv.sym import X
from pv.loader import SymLoader

HEAD = '''
import math, operator, functools, numbers, itertools, struct
import numpy as np
from math import pi, floor, ceil, sqrt
from functools import reduce
from decimal import Decimal
from fractions import Fraction
def helper(a, b=2):
    return a*b + 1
class P:
    def __init__(self, v): self.v = v
    @property
    def twice(self): return self.v*2
'''
INT = '''i + 3; 3 - i; i*j; i // 7; i % 7; -i // 7; divmod(i, 7)[0]; divmod(i, 7)[1]; abs(-i); i << 3; i >> 2; i & 0xFF; i | 1; i ^ 5; ~i; int(i); float(i); round(i); i**2; pow(i, 2)
min(i, j); max(i, j, 3); min([i, j]); max((i, j), key=lambda v: v); sum([i, j, 3]); sum(v for v in (i, j)); bool(i); int(i > j); (i > j) + 0; i if i > j else j; (i and j); (i or j); not i; 1 if 0 < i < 100 else 2
i / 4; i / j; math.floor(i / 4); math.ceil(i / 4); int(i / 4); math.trunc(i/4); round(i / 4); i // 4 * 4 + i % 4; operator.add(i, j); reduce(lambda a, b: a + b, [i, j, 1]); helper(i, b=j); P(i).twice
int(round(i * 1.5)); i in (1, 2, 37); i in [37, i]; {1: 5, 37: 6}.get(i, 7); [10, 20, 30][i % 3]; (lambda k: k + 1)(i); any([i > 3, j > 1000]); all([i > 3, j > 1000]); isinstance(i, int); isinstance(i, (int, float)); isinstance(i, numbers.Number)
len([0] * 5) + i; int(str(5)) + i; math.fmod(i, 7); i.bit_length() if False else i; (i & 0x0F) << 4 | (i >> 4); (i >> 3) & 7; i - (i // 10) * 10; math.copysign(1, -i); math.fabs(-i); math.gcd(6, 4) + i; np.int64(i); np.abs(-i); np.floor(i / 4); np.mod(i, 7); np.where(i > j, i, j); np.minimum(i, j); np.maximum(i, j)
list(map(lambda v: v + 1, [i, j]))[1]; [v for v in (i, j) if v > 5][0]; sorted([i, j])[0]; tuple(v for v in (i, j))[1]; next(v for v in (i, j) if v > 3); i.__add__(1); int(i) & 1; i == 37; i != 37; not (i == 37); (i == 37) and (j == 5); [i, j].index(j); list(range(j))[2] + i; sum(range(j)); (i, j) < (j, i); (i, j) == (37, 5); [i, j] == [37, 5]
np.array([i, j]).sum(); np.array([i, j])[0]; np.array([i, j]).max(); np.dot([i, j], [1, 2]); np.asarray([i, j]) [1]; (np.array([i, j]) + 1)[1]; np.arange(3)[1] + i; np.round(i / 4); np.sum([i, j]); int(np.floor(i / 4)); np.floor_divide(i, 7); np.clip(i, 0, 10); np.sign(i); math.prod([i, j]); i.real; i.numerator if False else i; operator.floordiv(i, 7); operator.mod(i, 7); -(-i // 4); (i + 4 - 1) // 4; int(i) % 2 == 1; bool(i % 2); i * 0.5; i*1.0; 1.0*i / 4096
'''
FLT = '''x + 1; x * y; x / y; x // 1; x % 1; x - int(x); int(x); round(x); round(x, 2); math.floor(x); math.ceil(x); abs(-x); x ** 2; -x; max(x, y); x > y; x if x > y else y; math.sqrt(x); math.sin(x)**2 + math.cos(x)**2; float(x); divmod(x, 2)[1]; math.modf(x)[0]; math.modf(x)[1]
x*pi/180; math.radians(x)*180/pi; math.degrees(math.radians(x)); math.fabs(x); floor(x); ceil(x); sqrt(x*x); math.hypot(x, y); math.trunc(x); int(x*1e3); int(round(x*1e3)); round(x*1e3)/1e3; int(x + 0.5); math.isclose(x, y); math.isnan(x); math.isfinite(x); np.isnan(x); np.isfinite(x); np.floor(x); np.ceil(x); np.rint(x); np.round(x); np.trunc(x); np.fix(x); np.abs(x); np.sqrt(x); np.mod(x, 1); np.fmod(x, 1); np.where(x > y, x, y); np.clip(x, 0, 1); np.float64(x); np.deg2rad(x); np.radians(x); np.array([x, y]).sum(); np.mean([x, y]); np.dot([x, y], [y, x]); np.hypot(x, y); x.real; complex(x, y).real; complex(x, y).imag; (x + 1j*y).imag; abs(complex(3, 4)) + x; (complex(x, y) * complex(y, x)).real; complex(x, y).conjugate().imag; float(int(x)); x.__float__() if False else x; sum([x, y]); math.fsum([x, y]); x == y; x != y; x <= y; math.floor(x + 0.5); np.add(x, y); np.multiply(x, y); np.array([[x, y], [y, x]]).T[0, 1]; np.cross([1, 0, 0], [0, x, 0])[2]; np.matmul(np.array([[x, 0], [0, y]]), np.array([1, 1]))[1]; (np.array([[x, 0], [0, y]]) @ np.array([1, 1]))[1]; np.linalg.norm([3.0, 4.0]) + x; np.sum(np.array([x, y])**2); math.dist((0, 0), (3, 4)) + x; round(x, 0); x.is_integer() if False else x; np.square(x); np.power(x, 2); np.einsum('i,i', np.array([x, y]), np.array([1, 2])); np.sin(x)**2 + np.cos(x)**2; np.stack([np.array([x]), np.array([y])])[1, 0]; np.concatenate([[x], [y]])[1]; np.hstack([x, y])[0]; np.vstack([[x], [y]])[1][0]; np.outer([x, y], [1, 2])[1, 1]; np.subtract(x, y); np.diff([x, y])[0]; np.cumsum([x, y])[1]
'''
STM = [
 'k = i\nn = 0\nwhile k > 0:\n    k //= 2\n    n += 1\nreturn n',
 'if (k := i + 1) > 10:\n    return k\nreturn 0',
 'try:\n    v = 1 // (i - 37)\nexcept ZeroDivisionError:\n    v = -1\nreturn v',
 'out = []\nfor a in (i, j):\n    out.append(a)\nreturn out[1]',
 'def g(a):\n    yield a\n    yield a + 1\nreturn list(g(i))[1]',
 'match j:\n    case 5:\n        return i\n    case _:\n        return 0',
 'a, b = divmod(i, 10)\nreturn a + b',
 'from collections import namedtuple\nT = namedtuple("T", "a b")\nreturn T(i, j).b',
 'd = {}\nd["a"] = i\nd.update(b=j)\nreturn d["a"] - d["b"]',
 'return struct.unpack(">H", struct.pack(">H", i))[0]',
 'return int.from_bytes(i.to_bytes(2, "big"), "big")',
 'return bytes([i, j])[0] + bytearray([i, j])[1]',
 'return int("%d" % i)',
 'return int(f"{i:d}")',
 'return int(str(i))',
 'return len("%02d:%02d" % (i, j))',
 'v = np.zeros(3)\nv[1] = i\nreturn v.sum()',
 'v = np.array([1, 2, 3])\nreturn v[v > 1].sum() + i',
 'v = np.array([i, j, 3])\nreturn np.where(v > 4)[0].size',
 'v = np.array([i, j, 3])\nreturn v[v > 4].sum()',
 'v = np.array([i, j, 3])\nreturn int(np.argmax(v))',
 'assert i > 0\nreturn i',
 'global zz\nzz = i\nreturn zz',
 'def outer():\n    n = i\n    def inner():\n        nonlocal n\n        n += 1\n    inner()\n    return n\nreturn outer()',
 'k = (i, j)\nreturn {(37, 5): 1}.get(k, 0)',
 'return {5: 1, 6: 2}[j] + i',
 'return (10, 20, 30, 40, 50, 60)[j]',
 's = {1, 2, 5}\nreturn 1 if j in s else 0',
 'return (i & 0xF).__or__(1)',
 'x = j\nx += i; x -= 2; x *= 3; x //= 2; x %= 50; x <<= 1; x >>= 1; x |= 1; x &= 0xFF; x ^= 3\nreturn x',
 'import copy\nreturn copy.deepcopy([i, j])[0] + copy.copy(i)',
 'return functools.partial(helper, b=3)(i)',
 'return sum(a*b for a, b in zip([i, j], [j, i]))',
 'return sum(k*v for k, v in enumerate([i, j]))',
 'return list(reversed([i, j]))[0]',
 'return itertools.accumulate([i, j]).__next__() + list(itertools.chain([i], [j]))[1]',
 'return list(filter(lambda v: v > 5, [i, j]))[0]',
 'return [i, j, 1].count(37)',
 'm = max([(i, 0), (j, 1)], key=lambda t: t[0])\nreturn m[1]',
 'return sorted([(i, 0), (j, 1)], key=lambda t: t[0])[0][1]',
 'return sorted([i, j, 7], reverse=True)[2]',
 'l = [i, j, 7]\nl.sort()\nreturn l[0]',
 'return hash((1, 2)) and i',
 'return bool(np.any(np.array([i, j]) > 30)) + bool(np.all(np.array([i, j]) > 30))',
 'return int(np.array([i, j]).astype(np.int32)[1])',
 'return np.bitwise_and(i, 0xF)',
 'return np.left_shift(i, 2)',
 'return i.bit_length()',
 'return bin(i).count("1") if isinstance(i, str) else i',
 'return int(np.array([i]).item())',
 'return type(i)(3) + i',
 'return (i*1000 + j) // 1000',
]
I, J, XV, YV = 37, 5, 12.375, 2.75
bad = 0
d = tempfile.mkdtemp()
CASES = [(k, e.strip(), 'return ' + e.strip()) for k, text in (('int', INT), ('float', FLT)) for l in text.strip().splitlines() for e in l.split(';') if e.strip()]
CASES += [('int', e.replace('\n', ' / '), e) for e in STM]
if True:
    for kind, e, body in CASES:
        body = body.replace('\n', '\n    ')
        open(d + '/m.py', 'w').write(HEAD + 'def f(i, j, x, y):\n    %s\n' % body)
        ns = {}
        exec(HEAD + 'def f(i, j, x, y):\n    %s\n' % body, ns)
        exp = ns['f'](I, J, XV, YV)
        mod = SymLoader(symbolic={'m'}, root=d).load('m')

        def fn(cx):
            if kind == 'int':
                i, j = cx.int_input('i', 0, 100), cx.int_input('j', 0, 20)
                cx.assume(i == I); cx.assume(j == J)
                v = mod.f(i, j, XV, YV)
            else:
                x, y = cx.real_input('x', 0, 100), cx.real_input('y', 0, 20)
                cx.assume(x == XV); cx.assume(y == YV)
                v = mod.f(I, J, x, y)
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v[()]
            if isinstance(exp, (bool, np.bool_)):
                cx.prove('same', v == bool(exp))
            elif isinstance(exp, (float, np.ndarray)):
                cx.prove('same', sym.And(X(v) - float(exp) < 1e-9, X(v) - float(exp) > -1e-9))
            else:
                cx.prove('same', X(v) == int(exp))
        import time
        cx = sym.Ctx(float_mode='real', timeout_ms=10000, max_paths=200, deadline=time.process_time() + 20, stop=time.time() + 60)
        try:
            cx.run(lambda: fn(cx))
            msg = 'WRONG VALUE' if cx.failures else 'undecided' if cx.undecided else 'no obligations' if not cx.obligations else ''
        except BaseException as ex:
            msg = '%s: %s' % (type(ex).__name__, ex)
        if msg:
            bad += 1
            print('%-55s %s' % (e, msg[:110]))
print(bad, 'constructs not handled')
