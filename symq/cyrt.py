"""Run-time model of the C data the .pyx files use (see decy.py)."""
import numbers

import engine
from engine import SymNum, SymInt, SymReal, SymBool, SymLimit

INF = float('inf')


class MemoryFault(Exception):
    """An access outside a C array, through a stale view, or of an
    uninitialised cell (undefined behaviour in the compiled extension)."""


class _Uninit(object):
    def __repr__(self):
        return 'UNINIT'

    def __deepcopy__(self, memo):
        return self


UNINIT = _Uninit()


class CClass(object):
    pass


def ld(x):
    if x is UNINIT:
        raise MemoryFault('read of an uninitialised C variable')
    return x


_BITS = {'int': 32, 'long': 64, 'short': 16, 'char': 8, 'Py_ssize_t': 64, 'ssize_t': 64,
         'size_t': 64, 'bint': 32, 'uint': 32, 'ulong': 64}


def c_int(x, name):
    if x is UNINIT:
        raise MemoryFault('read of an uninitialised C variable')
    if type(x) is int:
        n = _BITS.get(name, 32)
        if -(1 << (n - 1)) <= x < (1 << (n - 1)):
            return x
        raise OverflowError('value too large to convert to %s' % name)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SymReal):
        return engine.CTX.concretize(x)
    if isinstance(x, numbers.Integral):
        return c_int(int(x), name)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise OverflowError('cannot convert float infinity to integer')
        return int(x)
    raise TypeError('an integer is required')


def c_float(x, name):
    if x is UNINIT:
        raise MemoryFault('read of an uninitialised C variable')
    if name == 'float':
        if isinstance(x, SymNum):
            raise SymLimit('single precision float')
        import struct
        return struct.unpack('f', struct.pack('f', float(x)))[0]
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, numbers.Real):
        return float(x)
    raise TypeError('must be real number, not %s' % type(x).__name__)


def check_type(x, t):
    if x is not None and not isinstance(x, t):
        raise TypeError('Argument has incorrect type (expected %s)' % t.__name__)


class CArr(object):
    """array.array, or the buffer behind a memoryview."""

    def __init__(self, typecode, items=()):
        self.typecode = typecode
        self.gen = 0
        self.cells = []
        if isinstance(items, CArr):
            items = list(items)
        elif isinstance(items, MView):
            items = list(items)
        for x in items:
            self.cells.append(self.conv(x))

    def conv(self, x):
        if self.typecode in 'df':
            return c_float(x, 'double')
        if not isinstance(x, (numbers.Integral, SymBool)):
            raise TypeError('an integer is required (got type %s)' % type(x).__name__)
        return c_int(x, 'int' if self.typecode == 'i' else 'long')

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        return iter([rd(c) for c in self.cells])

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = CArr(self.typecode)
            r.cells = self.cells[i]
            return r
        return rd(self.cells[i])

    def __setitem__(self, i, v):
        self.cells[i] = self.conv(v)

    def append(self, v):
        self.cells.append(self.conv(v))
        self.gen += 1

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def tolist(self):
        return list(self)

    def pop(self, i=-1):
        self.gen += 1
        return self.cells.pop(i)

    def __eq__(self, o):
        if isinstance(o, CArr):
            return list(self) == list(o)
        return NotImplemented

    __hash__ = None

    def __deepcopy__(self, memo):
        r = CArr(self.typecode)
        r.cells = list(self.cells)
        return r
    __copy__ = None

    def __copy__(self):
        return self.__deepcopy__({})

    def __repr__(self):
        return 'array(%r, %r)' % (self.typecode, self.cells)


def rd(c):
    if c is UNINIT:
        raise MemoryFault('read of an uninitialised array cell')
    return c


class _ArrayModule(object):
    array = CArr
    ArrayType = CArr

    @staticmethod
    def resize_smart(a, n):
        n = int(n)
        if n < 0:
            raise MemoryFault('negative array size')
        a.gen += 1
        if n <= len(a.cells):
            del a.cells[n:]
        else:
            a.cells.extend([UNINIT] * (n - len(a.cells)))
    resize = resize_smart

    @staticmethod
    def clone(a, n, zero):
        r = CArr(a.typecode)
        r.cells = [r.conv(0) if zero else UNINIT] * int(n)
        return r

    @staticmethod
    def copy(a):
        return a.__deepcopy__({})

    @staticmethod
    def zero(a):
        a.cells[:] = [a.conv(0)] * len(a.cells)


array_module = _ArrayModule()


class MView(object):
    def __init__(self, arr):
        self.arr, self.gen, self.n = arr, arr.gen, len(arr.cells)

    def at(self, i, bounds, wrap):
        if self.gen != self.arr.gen:
            raise MemoryFault('access through a view of a reallocated buffer')
        if i is UNINIT:
            raise MemoryFault('uninitialised index')
        if isinstance(i, SymNum):
            i = engine.CTX.concretize(i)
        if wrap and i < 0:
            i += self.n
        if not 0 <= i < self.n:
            if bounds:
                raise IndexError('Out of bounds on buffer access (axis 0)')
            raise MemoryFault('index %d outside buffer of length %d' % (i, self.n))
        return i

    def get(self, i, bounds, wrap):
        return rd(self.arr.cells[self.at(i, bounds, wrap)])

    def set(self, i, v, bounds, wrap):
        self.arr.cells[self.at(i, bounds, wrap)] = self.arr.conv(v)

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter([self.get(i, True, True) for i in range(self.n)])

    def __getitem__(self, i):
        return self.get(i, True, True)

    @property
    def shape(self):
        return (self.n,)


def mview(x, elem):
    if x is UNINIT:
        raise MemoryFault('read of an uninitialised C variable')
    if x is None or isinstance(x, MView):
        return x
    want = 'd' if elem[0] == 'float' else 'i'
    if isinstance(x, CArr):
        if (x.typecode in 'df') != (want == 'd') or (want == 'd' and x.typecode != 'd'):
            raise ValueError("Buffer dtype mismatch")
        return MView(x)
    import array
    import numpy as np
    if isinstance(x, array.array):
        return MView(CArr(x.typecode, x))
    if isinstance(x, np.ndarray) and x.ndim == 1:
        if want == 'd' and x.dtype not in (float, object):
            raise ValueError("Buffer dtype mismatch")
        return MView(CArr(want, list(x)))
    raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)


def c_array(n, t):
    a = CArr('d' if t[0] == 'float' else 'i')
    a.cells = [UNINIT] * n
    return MView(a)


def getitem(b, i, bounds, wrap):
    if isinstance(b, MView):
        return b.get(i, bounds, wrap)
    if isinstance(i, SymNum):
        i = engine.CTX.concretize(i)
    if isinstance(b, (list, tuple)) and not wrap and i < 0:
        raise MemoryFault('negative index with wraparound off')
    if isinstance(b, (list, tuple)) and not bounds and not i < len(b):
        raise MemoryFault('index %r outside a list of length %d' % (i, len(b)))
    return b[i]


def setitem(b, i, v, bounds, wrap):
    if isinstance(b, MView):
        b.set(i, v, bounds, wrap)
        return
    if isinstance(i, SymNum):
        i = engine.CTX.concretize(i)
    b[i] = v


def getslice(b, i, j):
    if isinstance(i, SymNum):
        i = engine.CTX.concretize(i)
    if isinstance(j, SymNum):
        j = engine.CTX.concretize(j)
    if isinstance(b, MView):
        r = CArr(b.arr.typecode)
        r.cells = b.arr.cells[i:j]
        return MView(r)
    return b[i:j]


def binop(op, a, b):
    if a is UNINIT or b is UNINIT:
        raise MemoryFault('read of an uninitialised C variable')
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    if op in ('>>', '<<'):
        if isinstance(a, SymNum):
            a = engine.CTX.concretize(a)
        if isinstance(b, SymNum):
            b = engine.CTX.concretize(b)
        return a >> b if op == '>>' else a << b
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    raise SymLimit('operator %s' % op)


def iterate(x):
    return x


def py_range(*a):
    return range(*[engine.CTX.concretize(x) if isinstance(x, SymNum) else x for x in a])


py_len = len
py_reversed = reversed
py_min = min
py_max = max
py_abs = abs
py_enumerate = enumerate
py_sum = sum
py_list = list
py_tuple = tuple
py_zip = zip


def py_int(x=0):
    return engine.CTX.concretize(x) if isinstance(x, SymNum) else int(x)


def py_float(x=0.0):
    return x if isinstance(x, SymNum) else float(x)
