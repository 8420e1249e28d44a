"""A small symbolic-execution engine for Python code.

The real functions of the code under test run unmodified on proxy values
(`SymNum`, `SymBool`) that build z3 terms.  Whenever the interpreter needs the
truth of a symbolic condition (`if`, `while`, `min`, heapq's C code asking for
`a < b`, ...) `SymBool.__bool__` asks z3 which outcomes are possible under the
current path condition and the path forks.  All feasible paths are explored by
depth-first re-execution; an assertion holds on a path iff z3 reports
`path condition AND NOT assertion` unsatisfiable.
"""
import hashlib
import math
import numbers
import operator
import os
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

INF = float('inf')
CTX = None          # the context of the path being executed


class Steer(BaseException):
    """Base of the exceptions that steer paths (not seen by `except Exception`)."""


class PathInfeasible(Steer):
    pass


class PathBound(Steer):
    """The harness's own bound ended the path (stated in the evidence)."""


class PathTimeout(Steer):
    """One path ran past its wall-clock limit."""


class PathStop(Steer):
    """A violation was recorded; stop this path."""


class SymLimit(Steer):
    """The code did something with a symbolic value the engine cannot encode."""


class Inconclusive(Exception):
    pass


def _z3num(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, numbers.Integral):
        return z3.IntVal(int(v))
    f = float(v)
    if math.isinf(f) or math.isnan(f):
        raise SymLimit('non-finite constant')
    fr = Fraction(f)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


_const_cache = {}


def z3num(v):
    try:
        return _const_cache[type(v), v]
    except KeyError:
        r = _const_cache[type(v), v] = _z3num(v)
        return r


def _isconst(v):
    return isinstance(v, numbers.Real) and not isinstance(v, SymNum)


# Expressions built once are found again when a path prefix is re-executed:
# the same operation on the same operand objects.  The operands are kept alive,
# so that their ids stay theirs.
_memo = {}
MEMO_MAX = 250000


def memo_reset():
    _memo.clear()


class SymBool(object):
    __slots__ = ('e', 'i')
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e
        self.i = None

    def __bool__(self):
        return CTX.branch(self.e, self)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(bexpr(self) == bexpr(o))
        return NotImplemented

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise SymLimit('hash of a symbolic bool')

    # arithmetic use of a bool (e.g. sum of conditions)
    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % (self.e,)


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
       'eq': operator.eq, 'ne': operator.ne}


def _root(e):
    """t for t * t (and for t * t + 0)."""
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        rest = [c for c in e.children() if not (z3.is_rational_value(c) or z3.is_int_value(c)) or c.as_string() not in ('0', '0.0')]
        return _root(rest[0]) if len(rest) == 1 else None
    if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return e.arg(0)
    return None


def elementwise(x, o, op):
    """A symbolic number with a numpy array."""
    if not isinstance(o, _np.ndarray):
        return NotImplemented
    f = OPS[op.lstrip('r')]
    out = _np.empty(o.shape, object)
    for i in _np.ndindex(o.shape):
        y = o[i]
        y = y.item() if isinstance(y, _np.generic) else y
        a, b = (y, x) if op[0] == 'r' else (x, y)
        out[i] = over_zero(a) if op in ('/', 'r/') and b == 0 else f(a, b)
    return out


def over_zero(x):
    """x / 0 as numpy has it."""
    return float('nan') if x != x or x == 0 else float('inf') if x > 0 else -float('inf')


class SymNum(object):
    """A symbolic number: an exact integer (Int) or real (Real)."""
    __slots__ = ('e',)
    __array_ufunc__ = None       # numpy scalars defer to our reflected operators
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- helpers
    @staticmethod
    def wrap(e):
        if z3.is_int_value(e):
            return e.as_long()
        return (SymInt if e.is_int() else SymReal)(e)

    def _coerce(self, o):
        """-> (z3 a, z3 b) of one sort, or the python inf/nan, or None"""
        if isinstance(o, SymNum):
            a, b = self.e, o.e
        elif isinstance(o, SymBool):
            a, b = self.e, o._num().e
        elif isinstance(o, numbers.Real):
            if not isinstance(o, numbers.Integral):
                f = float(o)
                if f == INF or f == -INF or f != f:
                    return None, f
                if f == int(f) and abs(f) < 2**53:
                    return self.e, z3num(int(f))
            a, b = self.e, z3num(o)
        else:
            return NotImplemented, None
        return a, b

    @staticmethod
    def _lift(a, b):
        if a.is_int() and not b.is_int():
            a = z3.ToReal(a)
        elif b.is_int() and not a.is_int():
            b = z3.RealVal(b.as_long()) if z3.is_int_value(b) else z3.ToReal(b)
        return a, b

    # -- comparisons
    def _cmp(self, o, op):
        k = (op, id(self), id(o)) if isinstance(o, SymNum) else \
            (op, id(self), type(o), o) if isinstance(o, (int, float)) else None
        if k is not None:
            r = _memo.get(k)
            if r is not None:
                return r[0]
        r = self._cmp0(o, op)
        if k is not None:
            _memo[k] = (r, self, o)
        return r

    def _cmp0(self, o, op):
        a, b = self._coerce(o)
        if a is NotImplemented:
            return elementwise(self, o, op)
        if a is None:
            if b != b:
                return op == 'ne'
            pos = b > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False, 'ne': True}[op]
        a, b = self._lift(a, b)
        if a.eq(b):
            return op in ('le', 'ge', 'eq')
        if z3.is_app_of(a, z3.Z3_OP_MUL) or z3.is_app_of(a, z3.Z3_OP_ADD):
            ra, rb = _root(a), _root(b)
            if ra is not None and rb is not None:     # squares compare like absolute values
                a, b = z3.If(ra >= 0, ra, -ra), z3.If(rb >= 0, rb, -rb)
        if op == 'lt':
            e = a < b
        elif op == 'le':
            e = a <= b
        elif op == 'gt':
            e = b < a
        elif op == 'ge':
            e = b <= a
        elif op == 'eq':
            e = a == b
        else:
            e = z3.Not(a == b)
        return SymBool(e)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        raise SymLimit('hash of a symbolic number')

    def __bool__(self):
        return CTX.branch(self.e != 0)

    # -- arithmetic
    def _arith(self, o, op, f, inf):
        k = (op, id(self), id(o)) if isinstance(o, SymNum) else \
            (op, id(self), type(o), o) if isinstance(o, (int, float)) else None
        if k is not None:
            r = _memo.get(k)
            if r is not None:
                return r[0]
        a, b = self._coerce(o)
        if a is NotImplemented:
            return elementwise(self, o, op)
        if a is None:
            return inf(b)
        a, b = self._lift(a, b)
        r = SymNum.wrap(f(a, b))
        if k is not None:
            _memo[k] = (r, self, o)
        return r

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._arith(o, '+', lambda a, b: a + b, lambda i: i)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._arith(o, 'r+', lambda a, b: b + a, lambda i: i)

    def __sub__(self, o):
        return self._arith(o, '-', lambda a, b: a - b, lambda i: -i)

    def __rsub__(self, o):
        return self._arith(o, 'r-', lambda a, b: b - a, lambda i: i)

    def _mulinf(self, i):
        if i != i:
            return i
        if self > 0:
            return i
        if self < 0:
            return -i
        return float('nan')

    def __mul__(self, o):
        return self._arith(o, '*', lambda a, b: a * b, self._mulinf)

    def __rmul__(self, o):
        return self._arith(o, 'r*', lambda a, b: b * a, self._mulinf)

    def __truediv__(self, o):
        if isinstance(o, (SymNum, numbers.Real)):
            if o == 0:
                if type(o).__module__ == 'numpy':     # numpy scalars do not raise
                    return over_zero(self)
                raise ZeroDivisionError('division by zero')

        def f(a, b):
            if a.is_int():
                a = z3.ToReal(a)
            if b.is_int():
                b = z3.ToReal(b)
            return a / b
        return self._arith(o, '/', f, lambda i: 0.0 if i == i else i)

    def __rtruediv__(self, o):
        if self == 0:
            if type(o).__module__ == 'numpy':     # numpy scalars do not raise
                return over_zero(o)
            raise ZeroDivisionError('division by zero')

        def f(a, b):
            if a.is_int():
                a = z3.ToReal(a)
            if b.is_int():
                b = z3.ToReal(b)
            return b / a
        return self._arith(o, 'r/', f, lambda i: i if self > 0 else -i)

    def __floordiv__(self, o):
        if not (isinstance(self, SymInt) and isinstance(o, numbers.Integral)):
            raise SymLimit('floor division of reals')
        a, b = self._coerce(o)
        if o > 0:
            return SymNum.wrap(a / b)
        raise SymLimit('floor division by a non-positive number')

    def __mod__(self, o):
        if not (isinstance(self, SymInt) and isinstance(o, numbers.Integral)):
            raise SymLimit('modulo of reals')
        a, b = self._coerce(o)
        if o > 0:
            return SymNum.wrap(a % b)
        raise SymLimit('modulo by a non-positive number')

    def __pow__(self, n, mod=None):
        if n == 2:
            return self * self
        if n == 1:
            return self
        raise SymLimit('power')

    def __neg__(self):
        return SymNum.wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum.wrap(z3.If(self.e >= 0, self.e, -self.e))

    # -- conversions
    def __round__(self, n=None):
        return self

    def __float__(self):
        CTX.note_limit('float() of a symbolic number')
        raise SymLimit('float() of a symbolic number')

    def __int__(self):
        return CTX.concretize(self)

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return SymNum.wrap(z3.ToInt(self.e)) if not self.e.is_int() else self

    def __ceil__(self):
        if self.e.is_int():
            return self
        return SymNum.wrap(-z3.ToInt(-self.e))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise SymLimit('pickling a symbolic number')

    def __repr__(self):
        return '<%s>' % (str(self.e)[:60],)

    def __format__(self, spec):
        return repr(self)

    # numpy object arrays call these for np.isnan & co.
    def conjugate(self):
        return self


class SymReal(SymNum):
    __slots__ = ()


FP64 = z3.Float64()


class SymFP(SymNum):
    """An IEEE double (round to nearest even)."""
    __slots__ = ()

    def _fp(self, o):
        if isinstance(o, SymFP):
            return o.e
        if isinstance(o, SymNum):
            raise SymLimit('mixed real and floating-point arithmetic')
        if isinstance(o, numbers.Real):
            return z3.FPVal(float(o), FP64)
        return None

    def _cmp(self, o, op):
        b = self._fp(o)
        if b is None:
            return NotImplemented
        a = self.e
        if op == 'lt':
            e = z3.fpLT(a, b)
        elif op == 'le':
            e = z3.fpLEQ(a, b)
        elif op == 'gt':
            e = z3.fpGT(a, b)
        elif op == 'ge':
            e = z3.fpGEQ(a, b)
        elif op == 'eq':
            e = z3.fpEQ(a, b)
        else:
            e = z3.Not(z3.fpEQ(a, b))
        return SymBool(e)

    def _arith(self, o, op, f, inf):
        b = self._fp(o)
        if b is None:
            return NotImplemented
        a = self.e
        if op.startswith('r'):
            a, b, op = b, a, op[1:]
        g = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
        return SymFP(g(z3.RNE(), a, b))

    def __add__(self, o):
        return self._arith(o, '+', None, None)

    def __radd__(self, o):
        return self._arith(o, 'r+', None, None)

    def __truediv__(self, o):
        return self._arith(o, '/', None, None)

    def __rtruediv__(self, o):
        return self._arith(o, 'r/', None, None)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __bool__(self):
        return CTX.branch(z3.Not(z3.fpIsZero(self.e)))

    def __int__(self):
        raise SymLimit('int() of a floating-point number')
    __trunc__ = __floor__ = __ceil__ = __int__


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return CTX.concretize(self)

    def __float__(self):
        return float(CTX.concretize(self))


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


def _flat(xs):
    if len(xs) == 1 and not isinstance(xs[0], (SymBool, SymNum, bool)) and \
            hasattr(xs[0], '__iter__'):
        return list(xs[0])
    return xs


def And(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    return _nary('And', z3.And, out) if out else True


def _nary(op, f, out):
    if len(out) == 1:
        return out[0]
    k = (op,) + tuple([id(x) for x in out])
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = (SymBool(f(*[x.e for x in out])), out)
    return r[0]


def Or(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    return _nary('Or', z3.Or, out) if out else False


def Not(x):
    if isinstance(x, SymBool):
        return _not(x)
    return not x


def _not(x):
    k = ('Not', id(x))
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = (SymBool(z3.Not(x.e)), x)
        _memo['Not', id(r[0])] = (x, r[0])
    return r[0]


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mk_bool(z3.simplify(bexpr(a) == bexpr(b)))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    k = ('Ite', id(c)) + tuple([(id(x),) if isinstance(x, SymNum) else (type(x), x) for x in (a, b)])
    r = _memo.get(k)
    if r is not None:
        return r[0]
    ae = a.e if isinstance(a, SymNum) else z3num(a)
    be = b.e if isinstance(b, SymNum) else z3num(b)
    ae, be = SymNum._lift(ae, be)
    r = SymNum.wrap(z3.If(c.e, ae, be))
    _memo[k] = (r, c, a, b)
    return r


def Min(*xs):
    xs = [x for x in _flat(xs)]
    fin = [x for x in xs if isinstance(x, SymNum) or x != INF]
    if not fin:
        return INF
    m = fin[0]
    for x in fin[1:]:
        m = Ite(x < m, x, m)
    return m


def Sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def Count(xs):
    """Number of true conditions, without forking."""
    n, terms = 0, []
    for x in xs:
        if isinstance(x, SymBool):
            terms.append(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
        elif x:
            n += 1
    if not terms:
        return n
    # (not memoised: rare)
    return SymInt(z3.Sum(terms) + n)


# ---------------------------------------------------------------------------

def fp_value(x):
    import struct
    b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def plain(v, m=None):
    """v as JSON, symbolic parts evaluated in the model m."""
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, SymNum):
        x = m.eval(v.e, model_completion=True)
        if z3.is_fp(x):
            return fp_value(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        return None
    if isinstance(v, (list, tuple)):
        return [plain(x, m) for x in v]
    if isinstance(v, dict):
        return [[plain(k, m), plain(x, m)] for k, x in sorted(v.items())]
    if hasattr(v, 'tolist'):
        return plain(v.tolist(), m)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, numbers.Integral):
        return int(v)
    if isinstance(v, numbers.Real):
        return float(v)
    return str(v)


class Violation(object):
    def __init__(self, label, values, choices, info, kind='assert'):
        self.label, self.values, self.choices = label, values, choices
        self.info, self.kind = info, kind

    def as_dict(self):
        return {'label': self.label, 'values': self.values,
                'choices': self.choices, 'info': self.info, 'kind': self.kind}


class Decision(object):
    __slots__ = ('kind', 'val', 'alts', 'lvl', 'aux')

    def __init__(self, kind, val, alts, lvl, aux=None):
        self.kind, self.val, self.alts, self.lvl, self.aux = kind, val, alts, lvl, aux


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'bounded', 'limits', 'errors', 'branches',
              'forks', 'queries', 'asserts', 'unknown', 'assert_queries')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.max_depth = 0
        self.covers = {}
        self.limit_notes = {}
        self.asserts_by_label = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.max_depth = max(self.max_depth, o.max_depth)
        for n in ('covers', 'limit_notes', 'asserts_by_label'):
            d = getattr(self, n)
            for k, v in getattr(o, n).items():
                d[k] = d.get(k, 0) + v


class SymContext(object):
    """Explores every path of one harness function."""
    symbolic = True

    def __init__(self, harness, params, tags, prefix=(), max_paths=None,
                 max_branches=4000, timeout_ms=60000, sample_mod=0, deadline=None,
                 want_smt=0):
        self.harness, self.params = harness, params
        self.tags = set(tags)
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.prefix = list(prefix)
        self.decisions = [Decision(k, v, [], None, aux) for (k, v, aux) in self.prefix]
        # Index of the decision at which a re-execution rejoins the solver's
        # state: everything before it is still asserted.  -1: nothing is.
        self.join = -1
        self.max_paths, self.max_branches = max_paths, max_branches
        self.violations = []
        self.samples = []
        self.smt = []
        self.want_smt = want_smt
        self.sample_mod = sample_mod
        self.max_samples = 4
        self.deadline = deadline
        self.level = 0
        self.npaths = 0

    # ---- path bookkeeping
    def _begin(self):
        self.pos = 0
        self.live = self.join < 0     # are constraints (re)asserted?
        self.known = {}
        self.keep = []
        self.model = None
        self.names = {}
        self.vars = []
        self.choices = []
        self.pending = []      # (label, expr, info)
        self.obs = []
        self.nbranch = 0
        self.path_limit = None
        self.info = {}
        self.stopped = False
        self.draws = []
        self.draw_scales = []
        self.notes = []

    def note_choice_p(self, seq, p):
        self.notes.append(('choice_p', list(seq), list(p)))

    def replaying(self):
        return self.pos < len(self.decisions)

    def explore(self):
        """Run paths until the subtree is exhausted or max_paths is reached.
        Returns the list of unexplored prefixes (empty when exhausted)."""
        global CTX
        CTX = self
        while True:
            if len(_memo) > MEMO_MAX:
                memo_reset()
            self._begin()
            self.run_path()
            self.npaths += 1
            if not self.backtrack():
                return []
            if (self.max_paths and self.npaths >= self.max_paths) or \
                    (self.deadline and time.time() > self.deadline):
                return self.remaining()

    def run_path(self):
        st = self.stats
        solver_s = st.solver_s
        try:
            try:
                self.harness(self, **self.params)
                self.flush()
                st.paths += 1
                self.take_sample()
            except PathInfeasible:
                st.infeasible += 1
            except PathBound:
                self.flush()
                st.paths += 1
                st.bounded += 1
                self.take_sample()
            except PathStop:
                st.paths += 1
            except SymLimit as e:
                self.note_limit(str(e))
                if self.nbranch > self.max_branches:      # perhaps it never ends: decided by a replay
                    self.record('no-termination', {}, kind='suspect')
            except PathTimeout:
                if st.solver_s - solver_s > 5:      # the solver's time, not the code's
                    raise SymLimit('the solver took too long')
                st.errors += 1
                self.record('no-termination', {}, kind='hang')
            except Steer:
                raise
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                own = any('/symq/' in f.filename and 'harness' not in f.filename and 'pyx' not in f.filename
                          for f in tb[-1:])
                try:
                    self.flush()
                except PathStop:
                    pass
                st.errors += 1
                self.record('exception:%s' % type(e).__name__,
                            {'exception': '%s: %s' % (type(e).__name__, e), 'at': where,
                             'trace': traceback.format_exc()[-1500:]}, kind='exception')
        except PathStop:
            pass
        except SymLimit as e:
            self.note_limit(str(e))
        if self.path_limit:
            st.limits += 1
            st.limit_notes[self.path_limit] = st.limit_notes.get(self.path_limit, 0) + 1
        st.max_depth = max(st.max_depth, len(self.decisions))

    def note_limit(self, msg):
        self.path_limit = self.path_limit or msg

    def backtrack(self):
        d = self.decisions
        while d and not d[-1].alts:
            d.pop()
        if not d:
            return False
        top = d[-1]
        if self.level > top.lvl:
            self.solver.pop(self.level - top.lvl)
            self.level = top.lvl
        top.val = top.alts.pop(0)
        self.join = len(d) - 1
        return True

    def remaining(self):
        out = []
        d = self.decisions
        base = []
        for i, x in enumerate(d):
            if x.alts:
                for a in x.alts:
                    out.append(base + [(x.kind, a, x.aux)])
            base = base + [(x.kind, x.val, x.aux)]
        out.append(base)      # the current one, not yet run
        return out

    # ---- solver access
    def check(self, *extra):
        t = time.time()
        if extra:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            if extra:
                self.solver.pop()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.note_limit('solver unknown: ' + self.solver.reason_unknown())
        return r, m

    def need_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise PathInfeasible()
            if m is None:
                raise SymLimit('solver gave no model')
            self.model = m
        return self.model

    def _add(self, e):
        """Constrain the path at the current point (fork-free)."""
        if self.live:
            self.solver.add(e)
            self.model = None

    # ---- branching
    def branch(self, e, sb=None):
        self.nbranch += 1
        if self.nbranch > self.max_branches:
            self.note_limit('branch bound exceeded')
            raise SymLimit('branch bound exceeded')
        if sb is None or sb.i is None:
            k = e.get_id()
            kd = e.decl().kind() if z3.is_app(e) else None
            if kd == z3.Z3_OP_TRUE:
                return True
            if kd == z3.Z3_OP_FALSE:
                return False
            if kd == z3.Z3_OP_NOT:
                return not self.branch(e.arg(0))
            if sb is not None:
                sb.i = k
        else:
            k = sb.i
        v = self.known.get(k)
        if v is not None:
            return v
        self.stats.branches += 1
        if self.replaying():
            d = self.decisions[self.pos]
            if d.kind not in ('b', 'f'):
                raise RuntimeError('non-deterministic harness (%s vs branch)' % d.kind)
            self._enter(d, e if d.val else (lambda: z3.Not(e)), forced=(d.kind == 'f'))
            v = d.val
        else:
            m = self.need_model()
            cur = z3.is_true(m.eval(e, model_completion=True))
            other = z3.Not(e) if cur else e
            r, om = self.check(other)
            if r != z3.unsat:
                self.flush()
            if r == z3.unsat:
                self.decisions.append(Decision('f', cur, [], self.level))
                self.pos += 1
                v = cur
            else:
                self.stats.forks += 1
                d = Decision('b', cur, [not cur], self.level)
                self.decisions.append(d)
                self._push(e if cur else z3.Not(e))
                self.pos += 1
                v = cur
        self.known[k] = v
        self.keep.append(e)
        return v

    def _push(self, e=None):
        self.solver.push()
        self.level += 1
        if e is not None:
            self.solver.add(e)

    def _enter(self, d, e, forced=False):
        """Replay decision d whose constraint is e."""
        if self.pos == self.join:
            self.live = True
        if self.live:
            d.lvl = self.level
            if not forced:
                self._push(e() if callable(e) else e)
                self.model = None
        self.pos += 1

    def choose(self, n, label='choice'):
        """A nondeterministic choice among n alternatives (all explored)."""
        if n <= 0:
            raise PathInfeasible()
        if n == 1:
            self.choices.append(0)
            return 0
        if self.replaying():
            d = self.decisions[self.pos]
            if d.kind != 'c':
                raise RuntimeError('non-deterministic harness (%s vs choice)' % d.kind)
            self._enter(d, None)
            v = d.val
        else:
            self.flush()
            self.decisions.append(Decision('c', 0, list(range(1, n)), self.level))
            self._push()
            self.pos += 1
            v = 0
        self.choices.append(v)
        return v

    def concretize(self, x):
        """Fork over the possible integer values of x."""
        e = x.e
        if not e.is_int():
            e = z3.ToInt(e)
            e = z3.If(x.e >= 0, e, -z3.ToInt(-x.e))
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(200):
            if self.replaying():
                d = self.decisions[self.pos]
                if d.kind not in ('v', 'w'):
                    raise RuntimeError('non-deterministic harness (%s vs value)' % d.kind)
                c = (lambda: e == d.aux) if d.val else (lambda: z3.Not(e == d.aux))
                self._enter(d, c, forced=(d.kind == 'w'))
                if d.val:
                    return d.aux
                continue
            m = self.need_model()
            v = m.eval(e, model_completion=True).as_long()
            r, om = self.check(z3.Not(e == v))
            if r == z3.unsat:
                self.decisions.append(Decision('w', True, [], self.level, v))
                self.pos += 1
                return v
            self.flush()
            self.stats.forks += 1
            self.decisions.append(Decision('v', True, [False], self.level, v))
            self._push(e == v)
            self.pos += 1
            return v
        self.note_limit('too many values to concretize')
        raise SymLimit('too many values to concretize')

    # ---- harness API
    def _name(self, name):
        i = self.names.get(name, 0)
        self.names[name] = i + 1
        return '%s_%d' % (name, i)

    plan = None

    def real(self, name, ge=None, gt=None, le=None, lt=None):
        """A fresh arbitrary real within the given (consistent) bounds."""
        if self.plan is not None:
            return self.plan(name, gt if ge is None else ge, lt if le is None else le)
        n = self._name(name)
        s = self._var('Real', n, z3.Real, SymReal)
        self._bounds(s, ge, gt, le, lt)
        return s

    def int(self, name, ge=None, le=None):
        n = self._name(name)
        s = self._var('Int', n, z3.Int, SymInt)
        self._bounds(s, ge, None, le, None)
        return s

    def fp(self, name, lo=None, hi=None, open=False):
        """A fresh double (no NaN, no infinity) in [lo, hi] or [lo, hi)."""
        s = self._var('FP', self._name(name), lambda n: z3.FP(n, FP64), SymFP)
        self._add(z3.Not(z3.Or(z3.fpIsNaN(s.e), z3.fpIsInf(s.e))))
        if lo is not None:
            self._add((s >= lo).e)
        if hi is not None:
            self._add((s < hi if open else s <= hi).e)
        return s

    def bool(self, name):
        return self._var('Bool', self._name(name), z3.Bool, SymBool)

    def _var(self, sort, n, mk, cls):
        k = ('var', sort, n)
        r = _memo.get(k)
        if r is None:
            r = _memo[k] = (cls(mk(n)),)
        self.vars.append((n, r[0].e))
        return r[0]

    def _bounds(self, s, ge, gt, le, lt):
        cs = []
        if ge is not None:
            cs.append(s >= ge)
        if gt is not None:
            cs.append(s > gt)
        if le is not None:
            cs.append(s <= le)
        if lt is not None:
            cs.append(s < lt)
        for c in cs:
            if c is True:
                continue
            if c is False:
                raise PathInfeasible()
            self._add(c.e)

    def assume(self, c):
        """Restrict the path; later behaviour only is affected."""
        if c is True:
            return
        if self.pos >= len(self.decisions):
            self.flush()
        if c is False or not isinstance(c, SymBool):
            if not c:
                raise PathInfeasible()
            return
        self._add(c.e)
        if self.pos >= len(self.decisions):
            r, m = self.check()
            if r == z3.unsat:
                raise PathInfeasible()
            self.model = m

    def check_that(self, cond, label, tags=None, **info):
        """Assert cond on the current path."""
        if tags is not None and not (self.tags & set(tags)):
            return
        if self.pos < len(self.decisions):
            return                       # already decided on the shared prefix
        self.stats.asserts += 1
        ab = self.stats.asserts_by_label
        ab[label] = ab.get(label, 0) + 1
        if isinstance(cond, SymNum):
            cond = cond != 0
        if isinstance(cond, SymBool):
            self.pending.append((label, cond.e, info))
        elif not cond:
            self.flush()
            self.record(label, info)
            raise PathStop()

    def flush(self):
        """Decide the pending assertions of this path with one query."""
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        neg = z3.Or([z3.Not(e) for _, e, _ in pend]) if len(pend) > 1 else z3.Not(pend[0][1])
        self.stats.assert_queries += 1
        if self.want_smt and len(self.smt) < self.want_smt and self.stats.assert_queries % 7 == 1:
            self.solver.push()
            self.solver.add(neg)
            self.smt.append(self.solver.to_smt2())
            self.solver.pop()
            self._last_smt = True
        else:
            self._last_smt = False
        r, m = self.check(neg)
        if self._last_smt:
            self.smt[-1] = (self.smt[-1], str(r))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            return      # noted as a limit: the run is inconclusive
        for label, e, info in pend:
            if z3.is_false(m.eval(e, model_completion=True)):
                self.record(label, info, model=m, neg=z3.Not(e))
                break
        else:
            self.record(pend[0][0], pend[0][2], model=m, neg=neg)
        raise PathStop()

    def cover(self, label, cond=True):
        """A reachability witness: the path so far is feasible by construction."""
        if self.pos < len(self.decisions):
            return
        if isinstance(cond, SymBool):
            r, _ = self.check(cond.e)
            if r != z3.sat:
                return
        elif not cond:
            return
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def observe(self, label, value):
        if self.sample_mod:
            self.obs.append((label, value))

    def fail(self, label, tags=None, **info):
        self.check_that(False, label, tags, **info)

    # ---- models
    def values_of(self, m):
        out = {}
        for n, v in self.vars:
            x = m.eval(v, model_completion=True)
            if z3.is_fp(v):
                out[n] = fp_value(x).hex()
            elif z3.is_bool(v):
                out[n] = bool(z3.is_true(x))
            elif z3.is_int(v):
                out[n] = x.as_long()
            elif z3.is_rational_value(x):
                out[n] = '%s/%s' % (x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                a = x.approx(30)
                out[n] = '%s/%s' % (a.numerator_as_long(), a.denominator_as_long())
            else:
                out[n] = str(x)
        return out

    def nice_model(self, neg=None):
        """Prefer models whose reals are small dyadic numbers (exact as floats)."""
        reals = [v for n, v in self.vars if z3.is_real(v)]
        best = None
        self.solver.push()
        if neg is not None:
            self.solver.add(neg)
        try:
            self.solver.set('timeout', 3000)
            for scale in (1, 8):
                self.solver.push()
                for i, v in enumerate(reals):
                    k = z3.Int('k!%d' % i)
                    self.solver.add(v * scale == z3.ToReal(k))
                r = self.solver.check()
                if r == z3.sat:
                    best = self.solver.model()
                self.solver.pop()
                if best is not None:
                    break
        finally:
            self.solver.set('timeout', 60000)
            self.solver.pop()
        return best

    def record(self, label, info, model=None, neg=None, kind='assert'):
        m = None
        try:
            m = self.nice_model(neg)
        except z3.Z3Exception:
            pass
        m = m or model
        alts = []
        if model is not None and m is not model:
            alts.append(self.values_of(model))
        if m is None:
            try:
                m = self.need_model()
            except PathInfeasible:
                return
        inf = {k: str(v)[:300] for k, v in info.items()}
        v = Violation(label, self.values_of(m), list(self.choices), inf, kind)
        v.alts = alts
        self.violations.append(v)
        self.stopped = True

    def take_sample(self):
        if not self.sample_mod or self.path_limit:
            return
        h = hashlib.sha1(repr([(d.kind, d.val, d.aux) for d in self.decisions]).encode()).digest()
        if (h[0] << 16 | h[1] << 8 | h[2]) % (
                1 if self.stats.paths <= 2 else 8 if self.stats.paths <= 40 else self.sample_mod):
            return
        if len(self.samples) >= self.max_samples:
            return
        m = self.nice_model()
        if m is None:
            return
        obs = [(lab, plain(v, m)) for lab, v in self.obs]
        self.samples.append({'values': self.values_of(m), 'choices': list(self.choices),
                             'obs': obs})


class calm(object):
    """Within it nothing is arbitrary: every number drawn is that of one fixed run (a long way into which the
    histories that follow start).  Draws are multiples of 1/64, so sums of them are exact."""

    def __init__(self, ctx, seed=0, **scale):
        self.ctx, self.k, self.seed, self.scale = ctx, 0, seed, scale

    def __call__(self, name, lo, hi):
        self.k += 1
        r = ((self.k * 37 + self.k // 5 * 11 + self.seed * 23) % 63 + 1) / 64.0
        lo = 0.0 if lo is None else lo
        if hi is not None:
            return lo + (hi - lo) * r
        return lo + self.scale.get(name.rstrip('0123456789'), 1) * r

    def __enter__(self):
        self.ctx.plan = self
        return self

    def __exit__(self, *a):
        self.ctx.plan = None


class ReplayEnd(Steer):
    pass


class ConcreteContext(object):
    """Runs a harness once on concrete values (replay of a counterexample)."""
    symbolic = False

    def __init__(self, harness, params, tags, values, choices):
        self.harness, self.params, self.tags = harness, params, set(tags)
        self.values, self.choices_in = values, list(choices)
        self.names = {}
        self.failures = []
        self.obs = []
        self.info = {}
        self.missing = 0
        self.choices = []
        self.draws = []
        self.draw_scales = []
        self.notes = []

    def note_choice_p(self, seq, p):
        self.notes.append(('choice_p', list(seq), list(p)))

    def run(self):
        global CTX
        CTX = self
        try:
            self.harness(self, **self.params)
        except PathTimeout:
            self.failures.append(('no-termination', {}))
        except Steer:
            pass
        except Exception as e:
            import traceback
            self.failures.append(('exception:%s' % type(e).__name__,
                                  {'exception': '%s: %s' % (type(e).__name__, e),
                                   'trace': traceback.format_exc()[-1500:]}))
        return self.failures

    def _name(self, name):
        i = self.names.get(name, 0)
        self.names[name] = i + 1
        return '%s_%d' % (name, i)

    def _get(self, name):
        n = self._name(name)
        if n in self.values:
            return self.values[n]
        self.missing += 1
        return None

    plan = None

    def real(self, name, ge=None, gt=None, le=None, lt=None):
        if self.plan is not None:
            return self.plan(name, gt if ge is None else ge, lt if le is None else le)
        v = self._get(name)
        if v is None:
            lo = ge if ge is not None else gt
            hi = le if le is not None else lt
            if lo is not None and hi is not None:
                return (lo + hi) / 2.0
            if lo is not None:
                return lo + 1.0
            return 0.0 if hi is None else hi - 1.0
        if isinstance(v, str):
            a, b = v.split('/')
            return float(Fraction(int(a), int(b)))
        return float(v)

    def fp(self, name, lo=None, hi=None, open=False):
        v = self._get(name)
        return (lo or 0.0) if v is None else float.fromhex(v)

    def int(self, name, ge=None, le=None):
        v = self._get(name)
        if v is None:
            return ge if ge is not None else (le if le is not None else 0)
        return int(v)

    def bool(self, name):
        return bool(self._get(name))

    def choose(self, n, label='choice'):
        if n <= 0:
            raise PathInfeasible()
        i = len(self.choices)
        v = self.choices_in[i] if i < len(self.choices_in) else 0
        v = min(v, n - 1)
        self.choices.append(v)
        return v

    def concretize(self, x):
        return int(x)

    def assume(self, c):
        if not c:
            raise PathInfeasible()

    def check_that(self, cond, label, tags=None, **info):
        if tags is not None and not (self.tags & set(tags)):
            return
        if not cond:
            self.failures.append((label, {k: str(v)[:300] for k, v in info.items()}))
            raise PathStop()

    def fail(self, label, tags=None, **info):
        self.check_that(False, label, tags, **info)

    def cover(self, label, cond=True):
        pass

    def observe(self, label, value):
        value = plain(value)
        self.obs.append((label, value))

    def flush(self):
        pass

    def note_limit(self, msg):
        pass
