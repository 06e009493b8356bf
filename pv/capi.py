"""Contracts for the CPython / NumPy C API as used by the extension code (the assumed interface of Engine B)."""
import re
import z3
from . import irx
from .irx import Ptr, NULL, FnPtr, Fl, MemFault, isz, bv, fold, T, F32, F64, I8, I64, PTR
from .sym import Unsupported

# numpy C-API table slots (numpy/__multiarray_api.h; verified against the installed header by api_slots)
NPY = {0: ('bool', 1), 1: ('int8', 1), 2: ('uint8', 1), 3: ('int16', 2), 4: ('uint16', 2), 5: ('int32', 4), 6: ('uint32', 4),
       7: ('int64', 8), 8: ('uint64', 8), 9: ('int64', 8), 10: ('uint64', 8), 11: ('float32', 4), 12: ('float64', 8), 14: ('complex64', 8), 15: ('complex128', 16)}

_slots = None


def api_slots():
    global _slots
    if _slots is None:
        import numpy
        txt = open(numpy.get_include() + '/numpy/__multiarray_api.h').read()
        _slots = {}
        for m in re.finditer(r'#define (PyArray_\w+) \\\n(?:.*\\?\n)*?\s*PyArray_API\[(\d+)\]\)', txt):
            _slots.setdefault(int(m.group(2)), m.group(1))
    return _slots


def ItaniumName(sym):
    """source-level name of a mangled function"""
    s = sym.lstrip('@').strip('"')
    m = re.match(r'_ZL?(\d+)', s)
    if m:
        k = m.end()
        return s[k:k + int(m.group(1))]
    return s


class PyEnv:
    """contracts; one instance per path"""

    def __init__(self, cx):
        self.cx = cx
        self.err = None
        self.created = []
        self.stop_on_div = False
        self.api_obj = None
        self.hooks = {}

    # -- objects
    def new(self, _typ, **attrs):
        o = self.ex.alloc('py ' + _typ, 0, kind='py')
        o.attrs = dict(attrs, type=_typ, ref=1)
        o.size = 16
        self.created.append(o)
        return Ptr(o, 0)

    def obj(self, p):
        if not isinstance(p, Ptr) or p.o is None:
            raise MemFault('null Python object used')
        if p.o.kind != 'py':
            raise Unsupported('not a Python object: %r' % p)
        if p.o.freed:
            raise MemFault('use of a released Python object (%s)' % p.o.attrs.get('type'))
        return p.o

    def incref(self, p):
        self.obj(p).attrs['ref'] += 1
        return p

    def decref(self, p):
        o = self.obj(p)
        o.attrs['ref'] -= 1
        if o.attrs['ref'] == 0:
            o.freed = True
            d = o.attrs.get('mem')
            if d is not None and not o.attrs.get('view'):
                d.freed = True

    def pyint(self, v, n, signed):
        return self.new('int', v=v, n=n, signed=signed)

    def array(self, dims, typ, zero=True, name='array'):
        size = NPY[typ][1]
        for d in dims:
            if not isinstance(d, int):
                raise Unsupported('array of symbolic size')
            size *= d
        m = self.ex.alloc(name + ' data', size, default=0 if zero else None)
        return self.new('ndarray', dims=list(dims), typ=typ, mem=m)

    # -- dispatch
    def find(self, name):
        if name in self.hooks:
            return self.hooks[name]
        n = ItaniumName(name)
        if n in self.hooks:
            return self.hooks[n]
        return getattr(self, 'f_' + n.replace('.', '_'), None) or self._pattern(n)

    def _pattern(self, n):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return lambda a: self.ex.memcpy(a[0], a[1], a[2])
        if n.startswith('llvm.memset'):
            return self.memset
        if n.startswith('llvm.bswap'):
            def sw(a):
                w = int(n.rsplit('.i', 1)[1])
                v = a[0]
                if isinstance(v, int):
                    return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
                return z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]))
            return sw
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n in ('llvm.assume', 'llvm.stacksave', 'llvm.stackrestore') or n.startswith('llvm.stack'):
            return lambda a: None
        if n.startswith('llvm.round') or n in ('round', 'roundf'):
            return lambda a: self.round_(a[0])
        if n.startswith('llvm.umin'):
            def umin(a):
                x, y = a
                if isinstance(x, int) and isinstance(y, int):
                    return min(x, y)
                w = int(n.rsplit('.i', 1)[1])
                x, y = bv(x, w), bv(y, w)
                return z3.If(z3.ULT(x, y), x, y)
            return umin
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            ty = F32 if n.endswith('f32') else F64
            return lambda a: self.ex.fbin('fadd', ty, self.ex.fbin('fmul', ty, a[0], a[1]), a[2])
        if n.startswith('API_'):
            nm = api_slots().get(int(n[4:]))
            h = getattr(self, 'f_' + str(nm), None)
            if h is None:
                raise Unsupported('NumPy C-API %s' % nm)
            return h
        return None

    def memset(self, a):
        d, v, n = a[0], a[1], a[2]
        if not isinstance(n, int) or not isinstance(v, int):
            raise Unsupported('memset')
        o = self.ex.chk(d, n, 'write')
        # cells the call overwrites entirely go first: only those it overlaps in part are split into bytes
        own, cells = d.o.own, d.o.cells
        if isinstance(o, int):
            for s in {own[o + k] for k in range(n) if o + k in own}:
                m = cells[s][0]
                if o <= s and s + m <= o + n:
                    del cells[s]
                    for k in range(s, s + m):
                        del own[k]
        for k in range(n):
            self.ex.put(d.o, o + k, 1, v)

    def round_(self, x):
        if isinstance(x, float):
            import math
            return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
        raise Unsupported('round of a symbolic float')

    def fptosi(self, v, m):
        raise Unsupported('float to integer of %r' % v)

    def div_guard(self, y):
        pass

    def external_global(self, n, ty):
        b = n.split(':', 1)[-1].lstrip('@')
        if b.endswith('ARRAY_API') or b == 'PyArray_API':
            return Ptr(self.api_var(), 0)
        if b.startswith('PyExc_') or b in ('SyncError', 'EOFError'):
            e = self.new('exc', name=b.replace('PyExc_', ''))
            e.o.attrs['ref'] = 1000
            o = self.ex.alloc(b, 8)
            self.ex.put(o, 0, 8, e)
            return Ptr(o, 0)
        if b in ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct'):
            p = self.new(b)
            p.o.attrs['ref'] = 1000
            return p
        return None

    def api_var(self):
        if self.api_obj is None:
            tab = self.ex.alloc('numpy API table', 8 * 400, kind='api')
            self.api_obj = self.ex.alloc('numpy API pointer', 8)
            self.ex.put(self.api_obj, 0, 8, Ptr(tab, 0))
        return self.api_obj

    def f_PyType_IsSubtype(self, a):
        return int(a[0].name == a[1].name)

    def lazy_load(self, ex, o, off, ty):
        if o.kind == 'api':
            v = FnPtr('@API_%d' % (off // 8))
            return v if ty is not None else (8, v)
        if o.kind == 'sym' and ty is not None:
            return o.attrs['load'](off, ty)
        if o.kind == 'sym':
            return o.attrs['cell'](off)
        if o.kind == 'py' and off == 0 and ty is not None and ty.k == 'i':
            return o.attrs['ref'] & ((1 << ty.n) - 1)
        if o.kind == 'py' and off == 8:                   # ob_type
            return FnPtr('@API_2' if o.attrs['type'] == 'ndarray' else '@type_' + o.attrs['type'])
        if o.kind == 'py':
            raise Unsupported('direct access to a Python object field')
        return None

    # -- generic C
    def f_malloc(self, a):
        if not isinstance(a[0], int):
            raise Unsupported('malloc of symbolic size')
        return Ptr(self.ex.alloc('malloc', a[0]), 0)

    f__Znwm = f__Znam = f_malloc

    def f_calloc(self, a):
        return Ptr(self.ex.alloc('calloc', a[0] * a[1], default=0), 0)

    def f_free(self, a):
        p = a[0]
        if p.o is None:
            return None
        if p.o.freed:
            raise MemFault('double free of %s' % p.o.name)
        p.o.freed = True

    f__ZdlPv = f__ZdaPv = f_free

    def f_memset(self, a):
        return self.memset(a)

    def f_memcpy(self, a):
        self.ex.memcpy(a[0], a[1], a[2])
        return a[0]

    f_memmove = f_memcpy

    def f___assert_fail(self, a):
        raise MemFault('assertion failed')

    # -- CPython
    def f_PyArg_ParseTuple(self, a):
        return self.parse_args(self.ex.cstr(a[1]), a[0], a[2:])

    def f_PyArg_ParseTupleAndKeywords(self, a):
        kw = self.obj(a[1]).attrs['items'] if isinstance(a[1], Ptr) and a[1].o is not None else {}
        names, k = [], 0
        while True:
            p = self.ex.mload(Ptr(a[3].o, a[3].off + 8 * k), PTR)
            if p.o is None:
                break
            names.append(self.ex.cstr(p))
            k += 1
        if any(n not in names for n in kw):
            self.err = ('TypeError', 'unknown keyword')
            return 0
        return self.parse_args(self.ex.cstr(a[2]), a[0], a[4:], [kw.get(n) for n in names])

    def parse_args(self, fmt, tup, outs, kw=()):
        items = self.obj(tup).attrs['items']
        items = list(items) + list(kw[len(items):])
        fmt = fmt.split(':')[0]
        k = 0
        opt = False
        for ch in fmt:
            if ch == '|':
                opt = True
                continue
            if ch == '$':
                continue
            if ch == '!':
                continue
            if k >= len(items) or items[k] is None:
                if not opt:
                    self.err = ('TypeError', 'arguments')
                    return 0
                k += 1
                continue
            v = items[k]
            p = outs[k]
            k += 1
            if ch == 'O':
                self.ex.mstore(p, PTR, v)
            elif ch in 'ip':
                self.ex.mstore(p, irx.I32, v)
            elif ch in 'lnL':
                self.ex.mstore(p, irx.I64, v)
            elif ch == 'f':
                self.ex.mstore(p, F32, v)
            elif ch == 'd':
                self.ex.mstore(p, F64, v)
            else:
                raise Unsupported('argument format %s' % fmt)
        return 1

    def f_PyErr_Format(self, a):
        self.err = (self.obj(a[0]).attrs['name'], self.ex.cstr(a[1]))
        return NULL

    f_PyErr_SetString = f_PyErr_Format

    def f_PyErr_Clear(self, a):
        self.err = None

    def f_PyErr_Warn(self, a):
        return 0

    def f_PyErr_Occurred(self, a):
        return NULL if self.err is None else self.new('exc', name=self.err[0])

    def f_Py_BuildValue(self, a):
        fmt = self.ex.cstr(a[0])
        types = self.ex.argtypes[1:]
        vals = a[1:]

        def one(ch, v, ty):
            if ch == 's':
                return self.new('str', v=self.ex.cstr(v))
            if ch == 'O':
                return self.incref(v)
            if ch == 'N':
                return v
            if ch in 'fd':
                return self.new('float', v=v)
            n, sg = {'b': (32, True), 'B': (32, True), 'h': (32, True), 'H': (32, False), 'i': (32, True), 'I': (32, False), 'l': (64, True),
                     'k': (64, False), 'L': (64, True), 'K': (64, False), 'n': (64, True)}[ch]
            if isinstance(v, int):
                v &= (1 << n) - 1
            elif v.size() > n:
                v = fold(z3.Extract(n - 1, 0, v))
            elif v.size() < n:
                v = fold(z3.SignExt(n - v.size(), v))
            return self.pyint(v, n, sg)
        f = fmt.strip()
        if len(f) == 1:
            return one(f, vals[0], types[0])
        if f.startswith('(') and f.endswith(')'):
            f = f[1:-1]
        f = f.replace(',', '').replace(' ', '')
        return self.new('tuple', items=[one(ch, v, t) for ch, v, t in zip(f, vals, types)])

    def f_PyLong_FromUnsignedLong(self, a): return self.pyint(a[0], 64, False)
    def f_PyLong_FromUnsignedLongLong(self, a): return self.pyint(a[0], 64, False)
    def f_PyLong_FromLongLong(self, a): return self.pyint(a[0], 64, True)
    def f_PyLong_FromLong(self, a): return self.pyint(a[0], 64, True)
    def f_PyLong_FromSize_t(self, a): return self.pyint(a[0], 64, False)
    def f_PyLong_FromSsize_t(self, a): return self.pyint(a[0], 64, True)
    def f_PyUnicode_FromString(self, a): return self.new('str', v=self.ex.cstr(a[0]))
    def f_PyFloat_FromDouble(self, a): return self.new('float', v=a[0])

    def as_long(self, a):
        o = self.obj(a[0]).attrs
        v, n = o['v'], o['n']
        if isinstance(v, int):
            if o['signed'] and v >> (n - 1):
                v -= 1 << n
            return v & ((1 << 64) - 1)
        if n < 64:
            return z3.SignExt(64 - n, v) if o['signed'] else z3.ZeroExt(64 - n, v)
        return v

    f_PyLong_AsLong = f_PyLong_AsSsize_t = f_PyLong_AsLongLong = f_PyLong_AsUnsignedLong = as_long

    def f_PyObject_CallMethodObjArgs(self, a):
        name = self.obj(a[1]).attrs['v']
        args = []
        for x in a[2:]:
            if x is NULL or (isinstance(x, int) and x == 0) or (isinstance(x, Ptr) and x.o is None):
                break
            args.append(self.as_long([x]))
        return self.method(a[0], name, args)

    def f_PyObject_CallMethod(self, a):
        name = self.ex.cstr(a[1])
        return self.method(a[0], name, list(a[3:]))

    f__PyObject_CallMethod_SizeT = f_PyObject_CallMethod

    def method(self, p, name, args):
        h = self.obj(p).attrs.get('methods', {}).get(name)
        if h is None:
            self.err = ('AttributeError', name)
            return NULL
        return h(*args)

    def f_PyObject_HasAttrString(self, a):
        o = self.obj(a[0]).attrs
        return int(self.ex.cstr(a[1]) in o.get('methods', {}) or self.ex.cstr(a[1]) in o.get('fields', {}))

    def f_PyObject_GetAttrString(self, a):
        o = self.obj(a[0]).attrs
        v = o.get('fields', {}).get(self.ex.cstr(a[1]))
        if v is None:
            self.err = ('AttributeError', self.ex.cstr(a[1]))
            return NULL
        return self.incref(v)

    def f_PyFloat_AsDouble(self, a):
        v = self.obj(a[0]).attrs.get('v')
        if v is None:
            self.err = ('TypeError', 'must be real number')
            return -1.0
        return v

    def f_PyDict_GetItemString(self, a):
        return self.obj(a[0]).attrs['items'].get(self.ex.cstr(a[1]), NULL)

    def f_PyObject_GetItem(self, a):
        o = self.obj(a[0]).attrs
        k = self.as_long([a[1]])
        if not isinstance(k, int) or 'items' not in o:
            raise Unsupported('subscript')
        k = k - (1 << 64) if k >> 63 else k
        if not -len(o['items']) <= k < len(o['items']):
            self.err = ('IndexError', 'index out of range')
            return NULL
        return self.incref(o['items'][k])

    def f_PyArray_Flatten(self, a):
        o = self.obj(a[0]).attrs
        n = 1
        for x in o['dims']:
            n *= x
        self.incref(a[0])
        return self.new('ndarray', dims=[n], typ=o['typ'], mem=o['mem'], view=True)

    def f_PyObject_SetAttrString(self, a):
        o = self.obj(a[0]).attrs
        f = o.setdefault('fields', {})
        self.incref(a[2])
        n = self.ex.cstr(a[1])
        old = f.get(n)
        f[n] = a[2]
        o.setdefault('written', []).append(n)
        if old is not None:
            self.decref(old)
        return 0

    def f_PyBytes_GET_SIZE(self, a): return self.obj(a[0]).attrs['n']
    f_PyBytes_Size = f_PyBytes_GET_SIZE
    def f_PyBytes_AS_STRING(self, a): return Ptr(self.obj(a[0]).attrs['mem'], 0)
    f_PyBytes_AsString = f_PyBytes_AS_STRING

    def f_Py_XDECREF(self, a):
        if a[0] is not irx.UNDEF and a[0].o is not None:
            self.decref(a[0])

    def f__Py_Dealloc(self, a):
        a[0].o.freed = True

    def f_Py_DECREF(self, a): self.decref(a[0])
    def f_Py_INCREF(self, a): self.incref(a[0])

    def f_Py_XINCREF(self, a):
        if a[0].o is not None:
            self.incref(a[0])

    def f_PyEval_SaveThread(self, a): return NULL
    def f_PyEval_RestoreThread(self, a): return None

    def f_PyList_New(self, a):
        return self.new('list', items=[NULL] * a[0])

    def f_PyList_SetItem(self, a):
        it = self.obj(a[0]).attrs['items']
        if not isinstance(a[1], int) or a[1] >= len(it):
            raise MemFault('list index out of range')
        it[a[1]] = a[2]
        return 0

    f_PyList_SET_ITEM = f_PyList_SetItem

    def f_PyList_Append(self, a):
        self.obj(a[0]).attrs['items'].append(self.incref(a[1]))
        return 0

    def f_PyDict_New(self, a): return self.new('dict', items={})
    def f_PyDict_SetItemString(self, a): return 0

    def f_PyErr_NewException(self, a):
        p = self.new('exc', name=self.ex.cstr(a[0]).split('.')[-1])
        p.o.attrs['ref'] = 1000
        return p

    def f_PyModule_AddObject(self, a):
        self.obj(a[0]).attrs.setdefault('fields', {})[self.ex.cstr(a[1])] = a[2]
        return 0

    def f__import_array(self, a):
        for n in self.ex.mod.globals:
            if n.endswith('ARRAY_API') or n.endswith('@PyArray_API'):
                self.ex.put(self.ex.glob(n).o, 0, 8, Ptr(self.ex.mload(Ptr(self.api_var(), 0), PTR).o, 0))
        return 0

    def f_PyModuleDef_Init(self, a): return a[0]

    # -- NumPy
    def f_PyArray_DescrFromType(self, a): return self.new('descr', typ=a[0])

    def dims(self, n, p):
        return [self.ex.mload(Ptr(p.o, p.off + 8 * k), I64) for k in range(n)]

    def f_PyArray_Zeros(self, a):
        return self.array(self.dims(a[0], a[1]), self.obj(a[2]).attrs['typ'])

    def f_PyArray_Empty(self, a):
        return self.array(self.dims(a[0], a[1]), self.obj(a[2]).attrs['typ'], zero=False)

    def f_PyArray_New(self, a):
        return self.array(self.dims(a[1], a[2]), a[3], zero=False)

    def f_PyArray_DATA(self, a):
        return Ptr(self.obj(a[0]).attrs['mem'], 0)

    f_PyArray_BYTES = f_PyArray_DATA

    def f_PyArray_NDIM(self, a): return len(self.obj(a[0]).attrs['dims'])
    def f_PyArray_DIM(self, a): return self.obj(a[0]).attrs['dims'][a[1]]

    def f_PyArray_DIMS(self, a):
        o = self.obj(a[0]).attrs
        if 'dimmem' not in o:
            m = self.ex.alloc('dims', 8 * len(o['dims']))
            for k, d in enumerate(o['dims']):
                self.ex.put(m, 8 * k, 8, d)
            o['dimmem'] = m
        return Ptr(o['dimmem'], 0)

    f_PyArray_SHAPE = f_PyArray_DIMS

    def f_PyArray_TYPE(self, a): return self.obj(a[0]).attrs['typ']

    def f_PyArray_ITEMSIZE(self, a): return NPY[self.obj(a[0]).attrs['typ']][1]

    def f_PyArray_MultiplyList(self, a):
        n = 1
        for k in range(a[1]):
            n *= self.ex.mload(Ptr(a[0].o, a[0].off + 8 * k), irx.T('i', 64))
        return n

    def f_PyArray_SIZE(self, a):
        n = 1
        for d in self.obj(a[0]).attrs['dims']:
            n *= d
        return n

    def f_PyArray_Return(self, a): return a[0]

    def f_PyArray_FromAny(self, a):
        o = self.obj(a[0]).attrs
        if o['type'] != 'ndarray':
            raise Unsupported('array conversion')
        if a[1] is not NULL and isinstance(a[1], Ptr) and a[1].o is not None:
            t = self.obj(a[1]).attrs['typ']
            if NPY[t] != NPY[o['typ']]:
                raise Unsupported('array type conversion')
        if o.get('order'):
            raise Unsupported('array layout conversion')
        nd = len(o['dims'])
        if (a[2] and nd < a[2]) or (a[3] and nd > a[3]):
            self.err = ('ValueError', 'dimensions')
            return NULL
        return self.incref(a[0])

    f_PyArray_CheckFromAny = f_PyArray_FromAny

    def f_PyArray_Newshape(self, a):
        o = self.obj(a[0]).attrs
        n = self.ex.mload(Ptr(a[1].o, a[1].off + 8), irx.I32)
        dp = self.ex.mload(a[1], PTR)
        d = self.dims(n, dp)
        p = 1
        for x in d:
            p *= x
        q = 1
        for x in o['dims']:
            q *= x
        if p != q:
            self.err = ('ValueError', 'cannot reshape')
            return NULL
        # the result keeps the memory alive (numpy views hold a reference to their base)
        self.incref(a[0])
        return self.new('ndarray', dims=d, typ=o['typ'], mem=o['mem'], view=True)

    def f_PyArray_Transpose(self, a):
        o = self.obj(a[0]).attrs
        self.incref(a[0])
        return self.new('ndarray', dims=o['dims'][::-1], typ=o['typ'], mem=o['mem'], view=True, order='F')


class ExtModule:
    """An extension module initialised by running its own PyInit/exec code once; state is cloned for each path."""

    def __init__(self, files, init, extra=()):
        self.mod = irx.compile_ir(files, extra)
        self.init = init
        self.methods = None

    def boot(self, cx):
        env = PyEnv(cx)
        ex = irx.Exec(self.mod, cx, env)
        env.ex = ex
        d = ex.call('@' + self.init, [])
        # PyModuleDef: m_base(40) m_name(40) m_doc(48) m_size(56) m_methods(64) m_slots(72)
        mt, sl = ex.mload(Ptr(d.o, 64), PTR), ex.mload(Ptr(d.o, 72), PTR)
        self.methods = {}
        off = mt.off
        while True:
            nm = ex.mload(Ptr(mt.o, off), PTR)
            if nm is NULL:
                break
            fn = ex.mload(Ptr(mt.o, off + 8), PTR)
            self.methods[ex.cstr(nm)] = fn.name
            off += 32
        off = sl.off if sl is not NULL else None
        module = env.new('module')
        while off is not None:
            k = ex.mload(Ptr(sl.o, off), irx.I32)
            if k == 0:
                break
            if k == 2:
                fn = ex.mload(Ptr(sl.o, off + 8), PTR)
                r = ex.call(fn.name, [module])
                if r != 0:
                    raise Unsupported('module initialisation failed in the model: %s' % (env.err,))
            off += 16
        env.err = None
        return env, ex
