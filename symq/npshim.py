"""The numpy operations the code under test uses, over symbolic numbers.

Arrays become real numpy arrays of dtype object, so indexing, slicing,
broadcasting and element-wise arithmetic are numpy's own; only the functions
that would force a C double are replaced here.  Everything else falls through
to numpy."""
import functools
import numbers

import numpy as _np

import engine
from engine import SymNum, SymBool, SymInt, SymReal, SymLimit

INF = float('inf')


def _has_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _shape(s):
    if isinstance(s, SymNum):
        s = engine.CTX.concretize(s)
    if isinstance(s, tuple):
        s = tuple(engine.CTX.concretize(x) if isinstance(x, SymNum) else x for x in s)
    return s


def _over(x, plain, f):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        out = _np.empty(x.shape, object)
        for i in _np.ndindex(x.shape):
            out[i] = _over(x[i], plain, f)
        return out
    return f(x) if isinstance(x, SymNum) else plain(x)


def _sqrt(v):
    r = engine.CTX.real('sqrt', ge=0)
    engine.CTX.assume(r * r == v)
    return r


def _is_num(dtype):
    return dtype in (None, int, float, bool) or (
        isinstance(dtype, (type, _np.dtype, str)) and not isinstance(dtype, list)
        and _np.dtype(dtype).kind in 'iuf')


def _zero(dtype):
    if dtype is bool:
        return None
    if dtype is None:
        return 0.0
    return 0 if _np.dtype(dtype).kind in 'iu' else 0.0


def _full(shape, v):
    a = _np.empty(_shape(shape), object)
    a[...] = v
    return a


class Rec(list):
    """A one-dimensional structured array (rows are tuples)."""

    def __init__(self, rows, dtype):
        list.__init__(self, rows)
        self.dtype = dtype
        self.names = list(dtype.names) if isinstance(dtype, _np.dtype) else [d[0] for d in dtype]

    def order(self, order=None):
        """The indices that sort the rows: numpy breaks ties by the other fields."""
        if isinstance(order, str):
            order = [order]
        first = [self.names.index(o) for o in (order or [])]
        idx = first + [i for i in range(len(self.names)) if i not in first]

        def cmp(p, q):
            x, y = self[p], self[q]
            for i in idx:
                if x[i] is y[i]:
                    continue
                if x[i] < y[i]:
                    return -1
                if y[i] < x[i]:
                    return 1
            return 0
        return sorted(range(len(self)), key=functools.cmp_to_key(cmp))

    def sort(self, axis=-1, kind=None, order=None):
        self[:] = [self[i] for i in self.order(order)]

    def argsort(self, axis=-1, kind=None, order=None):
        return _np.array(self.order(order), int)

    def copy(self):
        return Rec(self, self.dtype)

    def tolist(self):
        return list(self)

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    def __getitem__(self, k):
        if isinstance(k, str):
            i = self.names.index(k)
            out = _np.empty(len(self), object)
            for j, r in enumerate(self):
                out[j] = r[i]
            return out
        if isinstance(k, slice):
            return Rec(list.__getitem__(self, k), self.dtype)
        if isinstance(k, (list, _np.ndarray)):
            k = list(k)
            if k and isinstance(k[0], (bool, _np.bool_, SymBool)):
                return Rec([r for r, b in zip(self, k) if b], self.dtype)
            return Rec([list.__getitem__(self, int(i)) for i in k], self.dtype)
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            i = self.names.index(k)
            v = list(v) if isinstance(v, (list, tuple, _np.ndarray)) else [v] * len(self)
            for j in range(len(self)):
                r = list(self[j])
                r[i] = v[j]
                list.__setitem__(self, j, tuple(r))
        else:
            list.__setitem__(self, k, v)


class RandomShim(object):
    """np.random, attribute by attribute, from the patched numpy.random."""

    def __getattr__(self, n):
        return getattr(_np.random, n)


class NumpyShim(object):
    def __init__(self):
        self.random = RandomShim()

    def __getattr__(self, n):
        return getattr(_np, n)

    def zeros(self, shape, dtype=None, **kw):
        if isinstance(dtype, list) or (isinstance(dtype, _np.dtype) and dtype.names):
            n = _shape(shape)
            r = Rec([], dtype)
            r[:] = [tuple(0.0 for _ in r.names) for _ in range(n[0] if isinstance(n, tuple) else n)]
            return r
        if dtype is bool:
            return _np.zeros(_shape(shape), bool)
        return _full(shape, _zero(dtype))

    empty = zeros

    def ones(self, shape, dtype=None, **kw):
        if dtype is bool:
            return _np.ones(_shape(shape), bool)
        return _full(shape, 1 if dtype is not None and _np.dtype(dtype).kind in 'iu' else 1.0)

    def full(self, shape, v, dtype=None, **kw):
        return _full(shape, v)

    def array(self, x, dtype=None, **kw):
        if isinstance(dtype, list) or (isinstance(dtype, _np.dtype) and dtype.names):
            return Rec([tuple(r) for r in x], dtype)
        if isinstance(x, Rec):
            x = list(x)
        if isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray):
            if _has_sym(x):
                return _np.array(x, dtype=object)
        return _np.array(x, dtype=dtype, **kw) if dtype is not None else _np.array(x, **kw)

    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, _np.ndarray):
            return x
        return self.array(x, dtype)

    def sort(self, a, axis=-1, kind=None, order=None):
        if isinstance(a, Rec):
            return a[a.order(order)]
        if _has_sym(a):
            b = _np.array(a, dtype=object)
            return _np.apply_along_axis(lambda r: _np.array(sorted(r), dtype=object), axis, b)
        if order is not None:
            return _np.sort(a, axis=axis, kind=kind, order=order)
        return _np.sort(a, axis=axis, kind=kind)

    def argsort(self, a, axis=-1, kind=None, order=None):
        if isinstance(a, Rec):
            return a.argsort(order=order)
        if _has_sym(a):
            b = _np.array(a, dtype=object)
            return _np.apply_along_axis(
                lambda r: _np.array(sorted(range(len(r)), key=lambda i: r[i]), dtype=int), axis, b)
        return _np.argsort(a, axis=axis, kind=kind, order=order)

    def lexsort(self, keys, axis=-1):
        keys = [list(k) for k in keys]
        if not any(_has_sym(k) for k in keys):
            return _np.lexsort(keys, axis)

        def cmp(p, q):
            for k in reversed(keys):
                if k[p] is k[q]:
                    continue
                if k[p] < k[q]:
                    return -1
                if k[q] < k[p]:
                    return 1
            return 0
        return _np.array(sorted(range(len(keys[0])), key=functools.cmp_to_key(cmp)), int)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        if not (_has_sym(a) or _has_sym(b)):
            return _np.isclose(a, b, rtol=rtol, atol=atol, **kw)
        if isinstance(a, (list, tuple, _np.ndarray)) or isinstance(b, (list, tuple, _np.ndarray)):
            aa, bb = _np.broadcast_arrays(_np.array(a, dtype=object), _np.array(b, dtype=object))
            out = _np.empty(aa.shape, object)
            for i in _np.ndindex(aa.shape):
                out[i] = self.isclose(aa[i], bb[i], rtol, atol)
            return out
        return abs(a - b) <= atol + rtol * abs(b)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        r = self.isclose(a, b, rtol, atol)
        if isinstance(r, _np.ndarray):
            return self.all(r)
        return r

    def all(self, a, *args, **kw):
        if isinstance(a, _np.ndarray) and a.dtype == object and not args and not kw:
            return bool(engine.And(*a.ravel().tolist()))
        return _np.all(a, *args, **kw)

    def any(self, a, *args, **kw):
        if isinstance(a, _np.ndarray) and a.dtype == object and not args and not kw:
            return bool(engine.Or(*a.ravel().tolist()))
        return _np.any(a, *args, **kw)

    def logical_or(self, a, b):
        if isinstance(a, _np.ndarray):
            return _np.array([bool(x) or bool(y) for x, y in zip(a, b)], bool)
        return _np.logical_or(a, b)

    def logical_and(self, a, b):
        if isinstance(a, _np.ndarray):
            return _np.array([bool(x) and bool(y) for x, y in zip(a, b)], bool)
        return _np.logical_and(a, b)

    def isinf(self, x):
        if isinstance(x, SymNum):
            return False
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return _np.array([self.isinf(y) for y in x], bool)
        return _np.isinf(x)

    def isnan(self, x):
        if isinstance(x, SymNum):
            return False
        return _np.isnan(x)

    def isfinite(self, x):
        if isinstance(x, SymNum):
            return True
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return _np.array([bool(self.isfinite(y)) for y in x.ravel()], bool).reshape(x.shape)
        return _np.isfinite(x)

    def abs(self, x):
        return abs(x)
    absolute = fabs = abs

    def float64(self, x=0.0):
        return x if isinstance(x, SymNum) else _np.float64(x)

    def sqrt(self, x):
        return _over(x, _np.sqrt, lambda v: _sqrt(v))

    # any value of the function's range
    def cos(self, x):
        return _over(x, _np.cos, lambda v: engine.CTX.real('cos', ge=-1, le=1))

    def sin(self, x):
        return _over(x, _np.sin, lambda v: engine.CTX.real('sin', ge=-1, le=1))

    def arctan2(self, y, x):
        if _has_sym(y) or _has_sym(x):
            return engine.CTX.real('arctan2', ge=-3.2, le=3.2)
        return _np.arctan2(y, x)

    def round(self, x, decimals=0, **kw):
        if isinstance(x, SymNum):
            k = 10 ** decimals
            return (x * k + 0.5).__floor__() / k
        return _np.round(x, decimals, **kw)
    around = round

    def floor(self, x):
        if isinstance(x, SymNum):
            return x.__floor__()
        return _np.floor(x)

    def ceil(self, x):
        if isinstance(x, SymNum):
            return x.__ceil__()
        return _np.ceil(x)

    def minimum(self, a, b):
        if _has_sym(a) or _has_sym(b):
            return a if bool(a < b) else b
        return _np.minimum(a, b)

    def maximum(self, a, b):
        if _has_sym(a) or _has_sym(b):
            return b if bool(a < b) else a
        return _np.maximum(a, b)


SHIM = NumpyShim()


# ---- random draws: arbitrary values of the documented range -----------------

def _fill(size, f):
    if size is None:
        return f()
    size = _shape(size)
    if isinstance(size, numbers.Integral):
        size = (int(size),)
    sym = engine.CTX.symbolic
    a = _np.empty(size, object if sym else float)
    for i in _np.ndindex(a.shape):
        a[i] = f()
    return a


def _uniform(low=0.0, high=1.0, size=None):
    c = engine.CTX

    def f():
        if getattr(c, 'tape', None) is not None:
            v = low + (high - low) * c.tape()
        elif low == 0 and high == 1:
            v = c.real('u', ge=0, lt=1)
        else:
            v = low + (high - low) * c.real('u', ge=0, lt=1)
        c.draws.append(('uniform', v))
        return v
    return _fill(size, f)


def _rand(*shape):
    return _uniform(size=tuple(shape) if shape else None)


def _random(size=None):
    return _uniform(size=size)


def _exponential(scale=1.0, size=None):
    c = engine.CTX

    def f():
        v = c.real('ex', ge=0)
        c.draws.append(('exponential', v))
        c.draw_scales.append(scale)
        return v
    return _fill(size, f)


def _randint(low, high=None, size=None, dtype=int):
    c = engine.CTX
    if high is None:
        low, high = 0, low

    def f():
        v = c.int('ri', ge=low, le=high - 1)
        c.draws.append(('randint', v))
        return c.concretize(v)
    if size is None:
        return f()
    a = _fill(size, f)
    return a.astype(int)


def _pick(n):
    return engine.CTX.choose(n, 'random')


def _choice(a, size=None, replace=True, p=None):
    c = engine.CTX
    if isinstance(a, SymNum):
        a = c.concretize(a)
    seq = list(range(int(a))) if isinstance(a, numbers.Integral) else list(a)
    if len(seq) == 0 and (size is None or _np.prod(_shape(size)) != 0):
        raise ValueError('a cannot be empty unless no samples are taken')
    if p is not None:
        p = list(p)
        if len(p) != len(seq):
            raise ValueError("'a' and 'p' must have same size")
        c.note_choice_p(seq, p)
        allowed = [i for i in range(len(seq)) if bool(p[i] > 0)]
    else:
        allowed = list(range(len(seq)))
    c.draws.append(('choice', len(seq)))
    if size is None:
        k = allowed[_pick(len(allowed))]
        return seq[k]
    n = _shape(size)
    if isinstance(n, tuple):
        n = int(_np.prod(n))
    out = []
    pool = list(allowed)
    if not replace and n > len(pool):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    for _ in range(n):
        j = _pick(len(pool))
        out.append(seq[pool[j]])
        if not replace:
            pool.pop(j)
    return _np.array(out)


def _permutation(x):
    engine.CTX.draws.append(('permutation', None))
    seq = list(range(int(x))) if isinstance(x, numbers.Integral) else list(x)
    out = []
    while seq:
        out.append(seq.pop(_pick(len(seq))))
    return _np.array(out)


def _shuffle(x):
    p = _permutation(list(range(len(x))))
    y = [x[i] for i in p]
    for i, v in enumerate(y):
        x[i] = v


def _seed(*a, **k):
    engine.CTX.draws.append(('seed', a[0] if a else None))


def _limit(name):
    def f(*a, **k):
        raise SymLimit('numpy.random.%s is not modelled' % name)
    f.__name__ = name
    return f


def patch_random():
    r = _np.random
    table = dict(uniform=_uniform, rand=_rand, random=_random, random_sample=_random,
                 ranf=_random, sample=_random, exponential=_exponential,
                 randint=_randint, choice=_choice, permutation=_permutation,
                 shuffle=_shuffle, seed=_seed)
    for n in ('normal', 'randn', 'gamma', 'beta', 'poisson', 'standard_exponential',
              'standard_normal', 'default_rng', 'RandomState', 'binomial', 'geometric',
              'multinomial', 'standard_gamma', 'dirichlet', 'random_integers', 'bytes'):
        table[n] = _limit(n)
    for n, f in table.items():
        setattr(r, n, f)
