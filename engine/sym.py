"""Symbolic values and a path-exploring executor for real Python/NumPy code.

The code under test is *run*, not parsed: the harness hands it proxy values (SymReal, SymInt,
SymBool, arrays of those) wrapping z3 terms.  Every branch on a symbolic condition goes through
``SymBool.__bool__``, which asks z3 which sides are feasible under the current path condition and
schedules the other side for a later re-execution.  When the queue is empty every feasible path
within the harness bounds has been executed, and each assertion on each path has been decided by z3
over all values that follow that path.

floats are modelled as mathematical reals (stated as an assumption in every evidence file).
"""
import itertools
import math
import time
from fractions import Fraction

import numpy as onp

import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

z3.set_param('memory_max_size', 12000)
sys.set_int_max_str_digits(0)       # numerators of model values can be long

INF = float('inf')


class Unsupported(Exception):
    """ the proxies cannot model this operation """


class PathAbort(BaseException):
    """ unwinds the code under test when an assumption makes this path infeasible """


class BudgetExceeded(BaseException):
    """ path or time budget exhausted """


# ---------------------------------------------------------------------------------------------
# current context
# ---------------------------------------------------------------------------------------------
_CTX = [None]


def ctx():
    return _CTX[0]


# ---------------------------------------------------------------------------------------------
# number handling
# ---------------------------------------------------------------------------------------------
_frac_cache = {}


def to_fraction(x):
    """ shortest decimal that identifies the float (so float32(0.9) is 9/10) """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, onp.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, onp.integer)):
        return Fraction(int(x))
    key = (type(x), float(x))
    f = _frac_cache.get(key)
    if f is None:
        if isinstance(x, (onp.float32, onp.float16)):
            f = Fraction(str(x))
        else:
            y = onp.float32(x)
            # a double that is exactly a float32 has most likely been through float32
            if onp.isfinite(y) and float(y) == float(x):
                f = Fraction(str(y))
            else:
                f = Fraction(repr(float(x)))
        _frac_cache[key] = f
    return f


def is_sym(x):
    return isinstance(x, Sym)


def is_num(x):
    return isinstance(x, (bool, int, float, Fraction, onp.bool_, onp.integer, onp.floating))


def _z(x):
    """ z3 arithmetic term """
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, onp.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, onp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, onp.floating)):
        if not math.isfinite(x):
            raise Unsupported(f'non-finite constant {x}')
        x = to_fraction(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise Unsupported(f'cannot lift {type(x)}')


def _zr(x):
    """ z3 Real term """
    e = _z(x)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if e.sort() == z3.IntSort():
        return z3.simplify(z3.ToReal(e)) if z3.is_int_value(e) else z3.ToReal(e)
    return e


def _zi(x):
    e = _z(x)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def _zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    return z3.BoolVal(bool(x))


def wrap(e):
    """ z3 term -> python constant where it is one, proxy otherwise """
    e = z3.simplify(e) if not _is_leaf(e) else e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    s = e.sort()
    if s == z3.BoolSort():
        return SymBool(e)
    if s == z3.IntSort():
        return SymInt(e)
    if s == z3.RealSort():
        return SymReal(e)
    raise Unsupported(f'sort {s}')


def _is_leaf(e):
    return e.num_args() == 0


def _is_int_like(x):
    return isinstance(x, (bool, int, onp.integer, onp.bool_, SymInt, SymBool))


def _isinf(x):
    return isinstance(x, (float, onp.floating)) and not math.isfinite(x)


def _as_operand(x):
    """ True if x can be an operand of a scalar proxy """
    return is_num(x) or isinstance(x, Sym)


def _unwrap0d(x):
    if isinstance(x, onp.ndarray) and x.ndim == 0:
        return x.item() if x.dtype != object else x[()]
    return x


class Sym:
    __slots__ = ('e',)
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, e):
        self.e = e

    # -- arithmetic ---------------------------------------------------------------------------
    def _bin(self, other, op, swap=False):
        if isinstance(other, onp.ndarray):
            if other.ndim and type(other) is not onp.ndarray:
                return NotImplemented
            if other.ndim:
                a, b = (other, self) if swap else (self, other)
                r = _vec2(lambda x, y: SCALAR[op](x, y), a, b)
                if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and r.size <= 16:
                    # a mask for plain arrays: fork on every entry
                    r = onp.array([bool(v) for v in r.ravel()]).reshape(r.shape)
                return r
            other = _unwrap0d(other)
        elif not _as_operand(other):
            if hasattr(other, '__jax_array__') or type(other).__module__.startswith('jaxlib'):
                other = _unwrap0d(onp.asarray(other))
                if isinstance(other, onp.ndarray):
                    a, b = (other, self) if swap else (self, other)
                    return _vec2(lambda x, y: SCALAR[op](x, y), a, b)
            else:
                return NotImplemented
        a, b = (other, self) if swap else (self, other)
        return SCALAR[op](a, b)

    def __add__(self, o): return self._bin(o, 'add')
    def __radd__(self, o): return self._bin(o, 'add', True)
    def __sub__(self, o): return self._bin(o, 'sub')
    def __rsub__(self, o): return self._bin(o, 'sub', True)
    def __mul__(self, o): return self._bin(o, 'mul')
    def __rmul__(self, o): return self._bin(o, 'mul', True)
    def __truediv__(self, o): return self._bin(o, 'div')
    def __rtruediv__(self, o): return self._bin(o, 'div', True)
    def __floordiv__(self, o): return self._bin(o, 'floordiv')
    def __rfloordiv__(self, o): return self._bin(o, 'floordiv', True)
    def __mod__(self, o): return self._bin(o, 'mod')
    def __rmod__(self, o): return self._bin(o, 'mod', True)
    def __pow__(self, o): return self._bin(o, 'pow')
    def __rpow__(self, o): return self._bin(o, 'pow', True)
    def __lt__(self, o): return self._bin(o, 'lt')
    def __le__(self, o): return self._bin(o, 'le')
    def __gt__(self, o): return self._bin(o, 'gt')
    def __ge__(self, o): return self._bin(o, 'ge')
    def __eq__(self, o): return self._bin(o, 'eq')
    def __ne__(self, o): return self._bin(o, 'ne')
    def __and__(self, o): return self._bin(o, 'and')
    def __rand__(self, o): return self._bin(o, 'and', True)
    def __or__(self, o): return self._bin(o, 'or')
    def __ror__(self, o): return self._bin(o, 'or', True)
    def __xor__(self, o): return self._bin(o, 'xor')
    def __rxor__(self, o): return self._bin(o, 'xor', True)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __invert__(self): return s_not(self) if isinstance(self, SymBool) else s_sub(-1, self)
    def __round__(self, n=None): raise Unsupported('round of a symbolic value')

    def __divmod__(self, o): return (self // o, self % o)

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return concretize_int(s_trunc(self))

    __trunc__ = __int__

    def __index__(self):
        raise TypeError('symbolic real used as index')

    def __bool__(self):
        return decide(_zb(self))

    def __repr__(self):
        return f'{type(self).__name__}({self.e})'

    def __format__(self, spec):
        return repr(self)

    # numpy-scalar look-alike surface
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def conjugate(self): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def ravel(self): return sarr([self])
    def flatten(self): return sarr([self])
    def reshape(self, *shape): return sarr(self).reshape(*shape)
    def astype(self, dtype, **k): return cast_scalar(self, dtype)
    def squeeze(self, *a, **k): return self
    # methods used by numpy's object ufunc loops
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def log1p(self): return s_log1p(self)
    def expm1(self): return s_expm1(self)
    def tanh(self): return s_tanh(self)
    def arctanh(self): return s_atanh(self)
    def sqrt(self): return s_sqrt(self)
    def square(self): return s_mul(self, self)
    def floor(self): return s_floor(self)
    def ceil(self): return s_ceil(self)
    def sign(self): return s_sign(self)
    def isnan(self): return False


class SymReal(Sym):
    __slots__ = ()

    @property
    def dtype(self): return onp.dtype('float64')

    def is_integer(self):
        return wrap(z3.IsInt(self.e))


class SymInt(Sym):
    __slots__ = ()

    @property
    def dtype(self): return onp.dtype('int64')

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def bit_length(self):
        return int(self).bit_length()


class SymBool(Sym):
    __slots__ = ()

    @property
    def dtype(self): return onp.dtype('bool')

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))


# ---------------------------------------------------------------------------------------------
# scalar operations
# ---------------------------------------------------------------------------------------------
def _norm(x):
    """ numpy scalar -> python, float -> Fraction if finite """
    if isinstance(x, Sym) or isinstance(x, (bool, int, Fraction)):
        return x
    if isinstance(x, onp.bool_):
        return bool(x)
    if isinstance(x, onp.integer):
        return int(x)
    if isinstance(x, (float, onp.floating)):
        return to_fraction(x) if math.isfinite(x) else float(x)
    x2 = _unwrap0d(x)
    if x2 is not x:
        return _norm(x2)
    raise Unsupported(f'scalar operand of type {type(x)}')


def _arith(zop, pyop):
    def f(a, b):
        a, b = _norm(a), _norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, float) or isinstance(b, float):
                return pyop(float(a), float(b))
            return pyop(a, b)
        if _isinf(a) or _isinf(b):
            return _inf_arith(pyop, a, b)
        if _is_int_like(a) and _is_int_like(b):
            return wrap(zop(_zi(a), _zi(b)))
        return wrap(zop(_zr(a), _zr(b)))
    return f


def _inf_arith(pyop, a, b):
    # one operand is a non-finite float, the other symbolic (and finite)
    nm = getattr(pyop, '__name__', '')
    if nm == 'add':
        return a if _isinf(a) else b
    if nm == 'sub':
        return a if _isinf(a) else -b
    if nm == 'mul':
        s, i = (a, b) if isinstance(a, Sym) else (b, a)
        if decide(_zr(s) > 0):
            return i
        if decide(_zr(s) < 0):
            return -i
        return float('nan')
    if nm == 'truediv' and _isinf(b):
        return Fraction(0)
    raise Unsupported('arithmetic with inf')


import operator as _op  # noqa: E402
_s_add = _arith(lambda x, y: x + y, _op.add)


def s_add(a, b):
    # int 0 is the unit of either sort
    if isinstance(a, Sym) and type(b) is int and b == 0 and not isinstance(a, SymBool):
        return a
    if isinstance(b, Sym) and type(a) is int and a == 0 and not isinstance(b, SymBool):
        return b
    return _s_add(a, b)


s_sub = _arith(lambda x, y: x - y, _op.sub)
_s_mul = _arith(lambda x, y: x * y, _op.mul)


def s_mul(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, float) and not isinstance(b, float):
        if (not isinstance(a, Sym) and a == 0) or (not isinstance(b, Sym) and b == 0):
            return 0 if (_is_int_like(a) and _is_int_like(b)) else Fraction(0)
        if type(a) is int and a == 1 and isinstance(b, Sym) and not isinstance(b, SymBool):
            return b
        if type(b) is int and b == 1 and isinstance(a, Sym) and not isinstance(a, SymBool):
            return a
        if isinstance(a, SymBool) and _is_int_like(b) is False:
            return s_ite(a, b, Fraction(0))
        if isinstance(b, SymBool) and _is_int_like(a) is False:
            return s_ite(b, a, Fraction(0))
    return _s_mul(a, b)


def s_div(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, float) or isinstance(b, float) or b == 0:
            with onp.errstate(all='ignore'):
                return float(onp.float64(float(a)) / onp.float64(float(b)))
        return Fraction(a) / Fraction(b)
    if _isinf(a) or _isinf(b):
        return _inf_arith(_op.truediv, a, b)
    if not isinstance(b, Sym):
        if b == 0:
            raise Unsupported('symbolic / 0')
        return wrap(_zr(a) / _zr(b))
    return wrap(_zr(a) / _zr(b))


def s_floordiv(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a // b
    if _is_int_like(a) and _is_int_like(b):
        za, zb = _zi(a), _zi(b)
        if not isinstance(b, Sym):
            if b > 0:
                return wrap(za / zb)
            return wrap((-za) / (-zb))
        # z3 div rounds so that the remainder is non-negative; python floors
        q = za / zb
        return wrap(z3.If(zb > 0, q, (-za) / (-zb)))
    return s_floor(s_div(a, b))


def s_mod(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a % b
    if _is_int_like(a) and _is_int_like(b):
        if not isinstance(b, Sym) and b > 0:
            return wrap(_zi(a) % _zi(b))
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def s_neg(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        return -a
    return wrap(-(_zi(a) if _is_int_like(a) else _zr(a)))


def _cmp(zop, pyop, name):
    def f(a, b):
        a, b = _norm(a), _norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return bool(pyop(a, b))
        if _isinf(a) or _isinf(b):
            if isinstance(a, Sym):
                return bool(pyop(0.0, b))
            return bool(pyop(a, 0.0))
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)) \
                and name in ('eq', 'ne'):
            return wrap(zop(_zb(a), _zb(b)))
        if _is_int_like(a) and _is_int_like(b):
            return wrap(zop(_zi(a), _zi(b)))
        return wrap(zop(_zr(a), _zr(b)))
    return f


s_lt = _cmp(lambda x, y: x < y, _op.lt, 'lt')
s_le = _cmp(lambda x, y: x <= y, _op.le, 'le')
s_gt = _cmp(lambda x, y: x > y, _op.gt, 'gt')
s_ge = _cmp(lambda x, y: x >= y, _op.ge, 'ge')
s_eq = _cmp(lambda x, y: x == y, _op.eq, 'eq')
s_ne = _cmp(lambda x, y: x != y, _op.ne, 'ne')


def _boolop(zop, pyop):
    def f(a, b):
        a, b = _norm(a), _norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return pyop(a, b)
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return wrap(zop(_zb(a), _zb(b)))
        return pyop(int(a), int(b))
    return f


s_and = _boolop(lambda x, y: z3.And(x, y), _op.and_)
s_or = _boolop(lambda x, y: z3.Or(x, y), _op.or_)
s_xor = _boolop(lambda x, y: z3.Xor(x, y), _op.xor)


def s_not(a):
    a = _norm(a)
    if isinstance(a, Sym):
        return wrap(z3.Not(_zb(a)))
    return not a


def s_truth(a):
    """ value -> SymBool/bool without forking """
    a = _norm(a)
    if isinstance(a, SymBool) or isinstance(a, bool):
        return a
    if isinstance(a, Sym):
        return s_ne(a, 0)
    return bool(a)


def s_ite(c, a, b):
    c = s_truth(c)
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    if not _as_operand(a) or not _as_operand(b):
        a, b = _unwrap0d(a), _unwrap0d(b)
        if not _as_operand(a) or not _as_operand(b):
            return a if decide(c.e) else b
    a, b = _norm(a), _norm(b)
    if _isinf(a) or _isinf(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym) and a == b:
            return a
        return a if decide(c.e) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrap(z3.If(c.e, _zb(a), _zb(b)))
    if _is_int_like(a) and _is_int_like(b):
        return wrap(z3.If(c.e, _zi(a), _zi(b)))
    return wrap(z3.If(c.e, _zr(a), _zr(b)))


PRUNE = [False]


def _prune_ite(c, a, b, tie=False):
    """ ite, but ask the solver first whether the path condition already decides it """
    if PRUNE[0] and isinstance(c, Sym) and ctx() is not None:
        k = c.e.decl().kind() if z3.is_app(c.e) else None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT) \
                and z3.is_real(c.e.arg(0)):
            try:
                lo, hi = interval(z3.simplify(c.e.arg(0) - c.e.arg(1)))
            except OverflowError:
                lo, hi = -INF, INF
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                lo, hi = -hi, -lo
            strict = k in (z3.Z3_OP_GT, z3.Z3_OP_LT)
            if lo > 0 or (lo == 0 and (tie or not strict)):
                return a
            if hi < 0 or (hi == 0 and (tie or strict)):
                return b
        if ctx().entails(c.e):
            return a
        n = z3.Not(c.e)
        if tie and k == z3.Z3_OP_GE:
            n = c.e.arg(0) <= c.e.arg(1)
        elif tie and k == z3.Z3_OP_LE:
            n = c.e.arg(0) >= c.e.arg(1)
        if ctx().entails(n):
            return b
    return s_ite(c, a, b)


def s_max(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a != a or b != b:
            return float('nan')
        return a if a >= b else b
    if _isinf(a):
        return b if a < 0 else a
    if _isinf(b):
        return a if b < 0 else b
    return _prune_ite(s_ge(a, b), a, b, True)


def s_min(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a != a or b != b:
            return float('nan')
        return a if a <= b else b
    if _isinf(a):
        return b if a > 0 else a
    if _isinf(b):
        return a if b > 0 else b
    return _prune_ite(s_le(a, b), a, b, True)


def s_abs(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        return abs(a)
    return _prune_ite(s_ge(a, 0), a, s_neg(a))


def s_sign(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        return (a > 0) - (a < 0) if not isinstance(a, Fraction) else Fraction((a > 0) - (a < 0))
    one, zero = (1, 0) if _is_int_like(a) else (Fraction(1), Fraction(0))
    return _prune_ite(s_gt(a, 0), one, _prune_ite(s_lt(a, 0), -one, zero))


def s_floor(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        return math.floor(a)
    if _is_int_like(a):
        return a
    if PRUNE[0] and ctx() is not None:
        k = ctx().fixed_floor(a.e)
        if k is not None:
            return k
    return wrap(z3.ToInt(a.e))


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        return math.trunc(a)
    if _is_int_like(a):
        return wrap(_zi(a))
    return s_ite(s_ge(a, 0), s_floor(a), s_ceil(a))


def s_round(a):
    """ round half to even """
    a = _norm(a)
    if not isinstance(a, Sym):
        return Fraction(round(a)) if isinstance(a, Fraction) else round(a)
    if _is_int_like(a):
        return a
    f = s_floor(a)
    d = s_sub(a, f)
    even = s_eq(s_mod(f, 2), 0)
    up = s_or(s_gt(d, Fraction(1, 2)), s_and(s_eq(d, Fraction(1, 2)), s_not(even)))
    return s_add(s_ite(up, s_add(f, 1), f), Fraction(0))


# -- transcendental functions: fresh real constants, keyed by canonical argument ----------------
class Atoms:
    """ table of transcendental terms; each becomes a fresh real with sound side axioms """

    def __init__(self):
        self.table = {}      # (fname, arg ast id) -> z3 const
        self.args = {}       # const name -> (fname, arg)
        self.keep = []

    def get(self, fname, *args):
        args = tuple(z3.simplify(a, som=True) for a in args)
        key = (fname,) + tuple(a.get_id() for a in args)
        c = self.table.get(key)
        if c is None:
            c = z3.Real(f'{fname}!{len(self.table)}')
            self.table[key] = c
            self.args[c.decl().name()] = (fname, args)
            self.keep.append(args)
        return c

    def is_atom(self, e):
        return e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED \
            and e.decl().name() in self.args

    def info(self, e):
        return self.args[e.decl().name()]


ATOMS = Atoms()


BOUNDS = {}          # input name -> (lo, hi) that the harness assumes for it


def reset_atoms():
    global ATOMS
    ATOMS = Atoms()
    BOUNDS.clear()


def interval(e, cache=None):
    """ sound enclosure (lo, hi) of a z3 real term under the assumed input ranges """
    cache = {} if cache is None else cache
    k = e.get_id()
    if k not in cache:
        cache[k] = (_interval(e, cache), e)
    return cache[k][0]


def _imul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return min(ps), max(ps)


def _out(lo, hi):
    """ widen by a few ulps """
    f = lambda v, s: v if v in (INF, -INF) else v + s * (abs(v) * 1e-12 + 1e-300)
    return f(lo, -1), f(hi, 1)


def _interval(e, cache):
    ALL = (-INF, INF)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = float(Fraction(e.numerator_as_long(), e.denominator_as_long())
                  if z3.is_rational_value(e) else e.as_long())
        return _out(v, v)
    if not z3.is_app(e):
        return ALL
    kind = e.decl().kind()
    if e.num_args() == 0:
        nm = e.decl().name()
        if nm in BOUNDS:
            return BOUNDS[nm]
        if ATOMS.is_atom(e):
            f, args = ATOMS.info(e)
            lo, hi = interval(args[0], cache)
            try:
                if f == 'exp':
                    return _out(math.exp(max(lo, -700)) if lo > -700 else 0.0,
                                math.exp(hi) if hi < 700 else INF)
                if f == 'log' and lo > 0:
                    return _out(math.log(lo), math.log(hi) if hi < INF else INF)
                if f == 'sqrt' and lo >= 0:
                    return _out(math.sqrt(lo), math.sqrt(hi) if hi < INF else INF)
            except (ValueError, OverflowError):
                pass
        return ALL
    if kind == z3.Z3_OP_ADD:
        ch = [interval(c, cache) for c in e.children()]
        return _out(sum(c[0] for c in ch), sum(c[1] for c in ch))
    if kind == z3.Z3_OP_SUB:
        ch = [interval(c, cache) for c in e.children()]
        return _out(ch[0][0] - sum(c[1] for c in ch[1:]), ch[0][1] - sum(c[0] for c in ch[1:]))
    if kind == z3.Z3_OP_UMINUS:
        a = interval(e.arg(0), cache)
        return -a[1], -a[0]
    if kind == z3.Z3_OP_MUL:
        r = (1.0, 1.0)
        for c in e.children():
            r = _imul(r, interval(c, cache))
        return _out(*r)
    if kind == z3.Z3_OP_DIV:
        a, b = interval(e.arg(0), cache), interval(e.arg(1), cache)
        if b[0] > 0 or b[1] < 0:
            return _out(*_imul(a, (1 / b[1] if b[1] not in (INF, -INF) else 0.0,
                                   1 / b[0] if b[0] not in (INF, -INF) else 0.0)))
        return ALL
    if kind == z3.Z3_OP_ITE:
        a, b = interval(e.arg(1), cache), interval(e.arg(2), cache)
        return min(a[0], b[0]), max(a[1], b[1])
    if kind == z3.Z3_OP_TO_REAL:
        return interval(e.arg(0), cache)
    return ALL


def linear_terms(e):
    """ real term -> [(Fraction coefficient, monomial or None)] after sum-of-monomials """
    e = z3.simplify(e, som=True)
    parts = list(e.children()) if z3.is_add(e) else [e]
    out = []
    for p in parts:
        if z3.is_rational_value(p):
            out.append((Fraction(p.numerator_as_long(), p.denominator_as_long()), None))
            continue
        coef, mono = Fraction(1), p
        if z3.is_mul(p):
            ch = list(p.children())
            if z3.is_rational_value(ch[0]):
                coef = Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long())
                ch = ch[1:]
                mono = ch[0] if len(ch) == 1 else z3.simplify(z3.Product(*ch), som=True)
        elif z3.is_app_of(p, z3.Z3_OP_UMINUS):
            coef, mono = Fraction(-1), p.arg(0)
        out.append((coef, mono))
    return out


def _zpow(base, k):
    """ z3 term to an integer power """
    if k == 0:
        return z3.RealVal(1)
    r = base
    for _ in range(abs(k) - 1):
        r = r * base
    return r if k > 0 else 1 / r


def s_exp(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        if isinstance(a, float):
            return math.exp(a) if a < INF else INF
        if a == 0:
            return Fraction(1)
        return wrap(ATOMS.get('exp', _zr(a)))
    r = None
    for coef, mono in linear_terms(_zr(a)):
        if mono is None:
            f = ATOMS.get('exp', z3.RealVal(str(coef)))
        else:
            if ATOMS.is_atom(mono) and ATOMS.info(mono)[0] == 'log' and coef.denominator == 1:
                base = ATOMS.info(mono)[1][0]
                f = _zpow(base, coef.numerator)
            elif coef.denominator == 1:
                f = _zpow(ATOMS.get('exp', mono), coef.numerator)
            else:
                q = z3.RealVal(str(Fraction(1, coef.denominator)))
                f = _zpow(ATOMS.get('exp', q * mono), coef.numerator)
        r = f if r is None else r * f
    return wrap(r)


class TooBig(Exception):
    pass


RAT_TERMS = 2500
ONE = {(): Fraction(1)}


class Poly:
    """ polynomial with rational coefficients over opaque z3 terms """
    __slots__ = ('t',)
    vars = {}                     # ast id -> term (kept alive)

    def __init__(self, t):
        if len(t) > RAT_TERMS:
            raise TooBig()
        self.t = t

    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def var(e):
        Poly.vars[e.get_id()] = e
        return Poly({((e.get_id(), 1),): Fraction(1)})

    def add(self, o, sgn=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + sgn * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def mul(self, o):
        if len(self.t) * len(o.t) > 20 * RAT_TERMS:
            raise TooBig()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for v, k in m2:
                    d[v] = d.get(v, 0) + k
                m = tuple(sorted(d.items()))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def pow(self, k):
        r = Poly.const(1)
        for _ in range(k):
            r = r.mul(self)
        return r

    def key(self):
        return tuple(sorted(self.t.items()))

    def divide(self, p):
        """ exact quotient or None """
        if len(p.t) == 1:
            (m, c), = p.t.items()
            t = {}
            for m2, c2 in self.t.items():
                d = dict(m2)
                for v, k in m:
                    if d.get(v, 0) < k:
                        return None
                    d[v] -= k
                t[tuple((v, k) for v, k in sorted(d.items()) if k)] = c2 / c
            return Poly(t)
        if len(self.t) < len(p.t) or len(self.t) > 300:
            return None
        vs = sorted({v for m in list(self.t) + list(p.t) for v, _ in m}, reverse=True)
        pos = {v: i for i, v in enumerate(vs)}

        def vec(m):
            r = [0] * len(vs)
            for v, k in m:
                r[pos[v]] = k
            return tuple(r)
        pt = {vec(m): c for m, c in p.t.items()}
        rem = {vec(m): c for m, c in self.t.items()}
        lm = max(pt)
        lc = pt[lm]
        q = {}
        for _ in range(400):
            if not rem:
                return Poly({tuple(sorted((vs[i], k) for i, k in enumerate(m) if k)): c
                             for m, c in q.items()})
            m = max(rem)
            if any(a < b for a, b in zip(m, lm)):
                return None
            dm = tuple(a - b for a, b in zip(m, lm))
            c = rem[m] / lc
            q[dm] = c
            for m2, c2 in pt.items():
                mm = tuple(a + b for a, b in zip(dm, m2))
                v = rem.get(mm, 0) - c * c2
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
        return None

    def content(self, all_vars=False):
        """ -> (coefficient, monomial dict, primitive part) """
        if not self.t:
            return Fraction(0), {}, self
        lead = self.t[min(self.t)]
        common = None
        for m in self.t:
            d = dict(m)
            common = d if common is None else {v: min(k, d[v]) for v, k in common.items() if v in d}
        if not all_vars:
            common = {v: k for v, k in common.items() if ATOMS.is_atom(Poly.vars[v])
                      and ATOMS.info(Poly.vars[v])[0] == 'exp'}
        t = {}
        for m, c in self.t.items():
            m2 = tuple((v, k - common.get(v, 0)) for v, k in m if k - common.get(v, 0))
            t[m2] = c / lead
        return lead, common, Poly(t)

    def z3(self):
        parts = []
        for m in sorted(self.t):
            c = self.t[m]
            r = None if c == 1 and m else z3.RealVal(str(c))
            for v, k in m:
                for _ in range(k):
                    r = Poly.vars[v] if r is None else r * Poly.vars[v]
            parts.append(r)
        return z3.Sum(*parts) if len(parts) > 1 else (parts[0] if parts else z3.RealVal(0))


class Frac:
    """ num / product of factors; factors: {key: (primitive Poly, exponent)} """
    __slots__ = ('n', 'f')

    def __init__(self, n, f=None):
        self.n, self.f = n, f or {}

    def mul(self, o):
        f = dict(self.f)
        for k, (p, e) in o.f.items():
            f[k] = (p, e + f[k][1]) if k in f else (p, e)
        return Frac(self.n.mul(o.n), f).reduce()

    def add(self, o, sg=1):
        f, ma, mb = {}, Poly.const(1), Poly.const(1)
        for k in {**self.f, **o.f}:
            ea = self.f[k][1] if k in self.f else 0
            eb = o.f[k][1] if k in o.f else 0
            p = (self.f.get(k) or o.f.get(k))[0]
            e = max(ea, eb)
            f[k] = (p, e)
            for _ in range(e - ea):
                ma = ma.mul(p)
            for _ in range(e - eb):
                mb = mb.mul(p)
        r = Frac(self.n.mul(ma).add(o.n.mul(mb), sg), f)
        return r.reduce() if (self.f and o.f) else r

    def inv(self):
        c, mono, prim = self.n.content(all_vars=True)
        f = {}
        for v, k in mono.items():
            p = Poly({((v, 1),): Fraction(1)})
            f[p.key()] = (p, k)
        if prim.t != ONE:
            f[prim.key()] = (prim, 1)
        n = Poly.const(1 / c)
        for p, e in self.f.values():
            for _ in range(e):
                n = n.mul(p)
        return Frac(n, f).reduce()

    def reduce(self):
        """ cancel factors of the denominator that divide the numerator """
        if not self.n.t:
            return Frac(self.n)
        n, f = self.n, {}
        for k, (p, e) in self.f.items():
            while e:
                q = n.divide(p)
                if q is None:
                    break
                n, e = q, e - 1
            if e:
                f[k] = (p, e)
        return Frac(n, f)


def ratform2(e):
    """ z3 real term -> (Frac, divisors): equal to e where no divisor vanishes """
    cache, divs = {}, {}

    def go(e):
        k = e.get_id()
        if k not in cache:
            cache[k] = (go1(e), e)
        return cache[k][0]

    def go1(e):
        if z3.is_rational_value(e):
            return Frac(Poly.const(Fraction(e.numerator_as_long(), e.denominator_as_long())))
        if z3.is_int_value(e):
            return Frac(Poly.const(e.as_long()))
        kind = e.decl().kind() if z3.is_app(e) else None
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            ch = [go(c) for c in e.children()]
            r = ch[0]
            for o in ch[1:]:
                r = r.add(o, 1 if kind == z3.Z3_OP_ADD else -1)
            return r
        if kind == z3.Z3_OP_MUL:
            ch = [go(c) for c in e.children()]
            r = ch[0]
            for o in ch[1:]:
                r = r.mul(o)
            return r
        if kind == z3.Z3_OP_UMINUS:
            r = go(e.arg(0))
            return Frac(r.n.mul(Poly.const(-1)), r.f)
        if kind == z3.Z3_OP_DIV:
            r, o = go(e.arg(0)), go(e.arg(1))
            if not o.n.t:
                raise TooBig()
            i = o.inv()
            if not (len(o.n.t) == 1 and () in o.n.t):
                divs.update({k: p for k, (p, _) in i.f.items()})
                _, mono, prim = o.n.content(all_vars=True)
                for v in mono:
                    p = Poly({((v, 1),): Fraction(1)})
                    divs[p.key()] = p
                if prim.t != ONE:
                    divs[prim.key()] = prim
            return r.mul(i)
        if kind == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            k = Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())
            if k.denominator == 1 and 0 <= k <= 8:
                o = go(e.arg(0))
                r = Frac(Poly.const(1))
                for _ in range(int(k)):
                    r = r.mul(o)
                return r
        if kind == z3.Z3_OP_TO_REAL:
            return Frac(Poly.var(z3.simplify(e)))
        return Frac(Poly.var(e))
    return go(e), list(divs.values())


def ratform(e):
    """ z3 real term -> (numerator, denominator) polynomials; equal to e where e is defined """
    r, _ = ratform2(e)
    d = Poly.const(1)
    for p, k in r.f.values():
        for _ in range(k):
            d = d.mul(p)
    return r.n, d


def _log_poly(p):
    """ log of a positive polynomial: content and common exp factors are taken out """
    c, mono, prim = p.content()
    if c < 0:
        c, prim = -c, prim.mul(Poly.const(-1))
    out = []
    if c != 1:
        out.append(ATOMS.get('log', z3.RealVal(str(c))))
    for v, k in sorted(mono.items()):
        out.append(k * ATOMS.info(Poly.vars[v])[1][0])
    if prim.t != Poly.const(1).t:
        e = prim.z3()
        if ATOMS.is_atom(e) and ATOMS.info(e)[0] == 'exp':
            out.append(ATOMS.info(e)[1][0])
        else:
            out.append(ATOMS.get('log', e))
    return z3.Sum(*out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))


def _log_term(e):
    """ log of a z3 real term, distributing over products/quotients of positive factors """
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if v == 1:
            return z3.RealVal(0)
        return ATOMS.get('log', e)
    if ATOMS.is_atom(e) and ATOMS.info(e)[0] == 'exp':
        return ATOMS.info(e)[1][0]
    if z3.is_mul(e) and all(known_positive(c) for c in e.children()):
        return z3.Sum(*[_log_term(c) for c in e.children()])
    if z3.is_div(e) and all(known_positive(c) for c in e.children()):
        return _log_term(e.arg(0)) - _log_term(e.arg(1))
    if z3.is_app_of(e, z3.Z3_OP_POWER) and known_positive(e.arg(0)):
        return e.arg(1) * _log_term(e.arg(0))
    if z3.is_add(e) or z3.is_sub(e) or z3.is_div(e):
        try:
            n, d = ratform(e)
        except TooBig:
            return ATOMS.get('log', e)
        if len(d.t) == 1 and () in d.t:      # a polynomial
            n = n.mul(Poly.const(1 / d.t[()]))
            if known_positive(n.z3()):
                return _log_poly(n)
        elif known_positive(n.z3()) and known_positive(d.z3()):
            return _log_poly(n) - _log_poly(d)
    return ATOMS.get('log', e)


def known_positive(e):
    if z3.is_rational_value(e):
        return e.numerator_as_long() > 0
    if ATOMS.is_atom(e):
        return ATOMS.info(e)[0] == 'exp'
    if z3.is_mul(e) or z3.is_add(e) or z3.is_div(e):
        if all(known_positive(c) for c in e.children()):
            return True
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        if known_positive(e.arg(1)) and known_positive(e.arg(2)):
            return True
    c = ctx()
    return c is not None and c.entails(e > 0)


def s_log(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        if a == 1:
            return Fraction(0)
        if a <= 0:
            return -INF if a == 0 else float('nan')
        if a == INF:
            return INF
        return wrap(ATOMS.get('log', _zr(a)))
    return wrap(_log_term(_zr(a)))


def s_log1p(a): return s_log(s_add(a, Fraction(1)))
def s_expm1(a): return s_sub(s_exp(a), Fraction(1))


def s_tanh(a):
    a = _norm(a)
    if not isinstance(a, Sym) and a == 0:
        return Fraction(0)
    e = s_exp(s_mul(2, a))
    return s_div(s_sub(e, 1), s_add(e, 1))


def s_atanh(a):
    return s_mul(Fraction(1, 2), s_log(s_div(s_add(1, a), s_sub(1, a))))


def s_logistic(a):
    return s_div(Fraction(1), s_add(1, s_exp(s_neg(a))))


def s_sqrt(a):
    a = _norm(a)
    if not isinstance(a, Sym):
        if isinstance(a, float):
            return math.sqrt(a)
        if a == 0:
            return Fraction(0)
        n, d = Fraction(a).numerator, Fraction(a).denominator
        if n > 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return Fraction(math.isqrt(n), math.isqrt(d))
    return wrap(ATOMS.get('sqrt', _zr(a)))


def s_pow(a, b):
    a, b = _norm(a), _norm(b)
    if not isinstance(b, Sym) and not isinstance(b, float) and Fraction(b).denominator == 1:
        k = int(b)
        if not isinstance(a, Sym):
            if isinstance(a, float):
                return a ** k
            if _is_int_like(a) and k >= 0 and _is_int_like(b):
                return a ** k
            if a == 0 and k < 0:
                return INF
            return Fraction(a) ** k
        if _is_int_like(a):
            if k >= 0 and _is_int_like(b):
                r = 1
                for _ in range(k):
                    r = s_mul(r, a)
                return r
        return wrap(_zpow(_zr(a), k))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a == 1:
            return Fraction(1)
        if a == 0:
            return Fraction(0) if b > 0 else INF
        if isinstance(a, float) or isinstance(b, float):
            return float(a) ** float(b)
    if isinstance(b, SymInt) and not isinstance(a, Sym):
        return s_pow(a, concretize_int(b))
    if not isinstance(b, Sym) and Fraction(b) == Fraction(1, 2):
        return s_sqrt(a)
    if not isinstance(b, Sym) and Fraction(b) == Fraction(-1, 2):
        return s_div(Fraction(1), s_sqrt(a))
    # real power of a non-negative base
    return s_exp(s_mul(b, s_log(a)))


def s_erf(a):
    return wrap(ATOMS.get('erf', _zr(_norm(a))))


def s_generic(fname):
    def f(a):
        return wrap(ATOMS.get(fname, _zr(_norm(a))))
    return f


SCALAR = {
    'add': s_add, 'sub': s_sub, 'mul': s_mul, 'div': s_div, 'floordiv': s_floordiv, 'mod': s_mod,
    'pow': s_pow, 'lt': s_lt, 'le': s_le, 'gt': s_gt, 'ge': s_ge, 'eq': s_eq, 'ne': s_ne,
    'and': s_and, 'or': s_or, 'xor': s_xor,
}


def cast_scalar(x, dtype):
    """ astype for one scalar """
    dt = sym_dtype(dtype)
    x = _norm(x) if _as_operand(x) else x
    if dt is None or dt.kind == 'O':
        return x
    if dt.kind == 'f':
        if isinstance(x, Sym):
            return wrap(_zr(x))
        return x if isinstance(x, (float, Fraction)) else Fraction(x)
    if dt.kind in 'iu':
        if isinstance(x, Sym):
            return s_trunc(x)
        return int(x)
    if dt.kind == 'b':
        return s_truth(x)
    return x


def sym_dtype(dtype):
    if dtype is None:
        return None
    base = getattr(dtype, '_py_type', None)
    if base is not None:
        dtype = base
    return onp.dtype(dtype)


# ---------------------------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------------------------
def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, onp.ndarray):
        if x.dtype != object and not isinstance(x, SArr):
            return False
        return any(isinstance(v, Sym) for v in onp.ndarray.ravel(x.view(onp.ndarray)))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _obj_fill(x):
    """ nested list / array -> plain object ndarray """
    if isinstance(x, onp.ndarray):
        return x.view(onp.ndarray).astype(object) if not isinstance(x, SArr) \
            else onp.array(x.view(onp.ndarray), dtype=object, copy=True)
    if isinstance(x, (list, tuple)):
        parts = [_obj_fill(v) for v in x]
        if not parts:
            return onp.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError('inhomogeneous shape')
        out = onp.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    if type(x).__module__.startswith('jaxlib') or hasattr(x, '__jax_array__'):
        return onp.asarray(x).astype(object)
    out = onp.empty((), dtype=object)
    out[()] = x
    return out


def sarr(x, dtype=None):
    a = _obj_fill(x).view(SArr)
    return a.astype(dtype) if dtype is not None else a


def vmap1(f, a):
    a = _obj_fill(a)
    out = onp.empty(a.shape, dtype=object)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        fo[i] = f(fa[i])
    return fo.reshape(a.shape).view(SArr)


def _vec2(f, a, b):
    a, b = onp.broadcast_arrays(_obj_fill(a), _obj_fill(b))
    out = onp.empty(a.shape, dtype=object)
    it = onp.ndindex(*a.shape)
    for i in it:
        out[i] = f(a[i], b[i])
    return out.view(SArr)


def vmapn(f, *arrs):
    arrs = onp.broadcast_arrays(*[_obj_fill(a) for a in arrs])
    out = onp.empty(arrs[0].shape, dtype=object)
    for i in onp.ndindex(*arrs[0].shape):
        out[i] = f(*[a[i] for a in arrs])
    return out.view(SArr)


UF2 = {
    'add': s_add, 'subtract': s_sub, 'multiply': s_mul, 'divide': s_div, 'true_divide': s_div,
    'floor_divide': s_floordiv, 'remainder': s_mod, 'mod': s_mod, 'power': s_pow,
    'float_power': s_pow,
    'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
    'less': s_lt, 'less_equal': s_le, 'greater': s_gt, 'greater_equal': s_ge,
    'equal': s_eq, 'not_equal': s_ne,
    'bitwise_and': s_and, 'bitwise_or': s_or, 'bitwise_xor': s_xor,
    'logical_and': lambda a, b: s_and(s_truth(a), s_truth(b)),
    'logical_or': lambda a, b: s_or(s_truth(a), s_truth(b)),
    'logical_xor': lambda a, b: s_xor(s_truth(a), s_truth(b)),
    'logaddexp': lambda a, b: s_log(s_add(s_exp(a), s_exp(b))),
}
UF1 = {
    'negative': s_neg, 'positive': lambda a: a, 'absolute': s_abs, 'fabs': s_abs,
    'exp': s_exp, 'log': s_log, 'log1p': s_log1p, 'expm1': s_expm1, 'tanh': s_tanh,
    'arctanh': s_atanh, 'sqrt': s_sqrt, 'square': lambda a: s_mul(a, a), 'sign': s_sign,
    'floor': s_floor, 'ceil': s_ceil, 'rint': s_round, 'trunc': s_trunc,
    'reciprocal': lambda a: s_div(1, a),
    'logical_not': lambda a: s_not(s_truth(a)),
    'invert': lambda a: s_not(a) if isinstance(a, (bool, SymBool, onp.bool_)) else s_sub(-1, a),
    'isnan': lambda a: isinstance(a, float) and a != a,
    'isinf': lambda a: isinstance(a, float) and math.isinf(a),
    'isfinite': lambda a: isinstance(a, Sym) or math.isfinite(a),
    'log2': lambda a: s_div(s_log(a), s_log(2)) if isinstance(a, Sym) else math.log2(a),
    'exp2': lambda a: s_pow(2, a),
    'conjugate': lambda a: a,
    'expit': s_logistic,
}


def _fix_index(key):
    """ make an index usable by numpy: SymInt -> forked int, SArr of ints/bools -> concrete """
    if isinstance(key, tuple):
        return tuple(_fix_index(k) for k in key)
    if isinstance(key, SymInt):
        return concretize_int(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, slice):
        return slice(*[concretize_int(k) if isinstance(k, Sym) else k
                       for k in (key.start, key.stop, key.step)])
    if isinstance(key, SArr) or (isinstance(key, onp.ndarray) and key.dtype == object):
        return concretize_index_array(key)
    if isinstance(key, list):
        return concretize_index_array(_obj_fill(key)) if has_sym(key) else key
    return key


def concretize_index_array(a):
    a = a.view(onp.ndarray)
    flat = [v for v in a.ravel()]
    if all(isinstance(v, (bool, onp.bool_, SymBool)) for v in flat) and flat:
        return onp.array([bool(v) for v in flat], dtype=bool).reshape(a.shape)
    return onp.array([concretize_int(v) if isinstance(v, Sym) else int(v) for v in flat],
                     dtype='int64').reshape(a.shape)


class SArr(onp.ndarray):
    """ object ndarray whose elements are python numbers or symbolic scalars """
    __array_priority__ = 2000

    @property
    def dtype(self):
        k = 'b'
        for v in onp.ndarray.ravel(self.view(onp.ndarray)):
            if isinstance(v, (bool, onp.bool_, SymBool)):
                continue
            if isinstance(v, (int, onp.integer, SymInt)):
                k = 'i' if k == 'b' else k
            elif isinstance(v, (float, Fraction, onp.floating, SymReal)):
                k = 'f'
            else:
                return onp.dtype(object)
        if self.size == 0:
            return onp.dtype('float64')
        return onp.dtype({'b': 'bool', 'i': 'int64', 'f': 'float64'}[k])

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        where = kw.pop('where', True)
        if method == '__call__':
            if name in UF2 and len(inputs) == 2:
                r = _vec2(UF2[name], *inputs)
            elif name in UF1 and len(inputs) == 1:
                r = vmap1(UF1[name], inputs[0])
            elif name == 'matmul':
                r = np_matmul(*inputs)
            elif not isinstance(getattr(onp, name, None), onp.ufunc):
                # user-defined (frompyfunc / vectorize): element by element on plain objects
                r = ufunc(*[_obj_fill(i) for i in inputs], **kw)
                r = _as_sarr(onp.asarray(r, dtype=object))
            else:
                raise Unsupported(f'ufunc {name}')
            if where is not True:
                base = out[0] if out is not None else sarr(onp.zeros(r.shape))
                r = vmapn(s_ite, where, r, base)
            if out is not None:
                out[0][...] = r
                return out[0]
            if r.size and all(isinstance(v, (bool, onp.bool_))
                              for v in r.view(onp.ndarray).ravel()):
                r = onp.array(r.view(onp.ndarray), dtype=bool)   # nothing symbolic left
            return r if r.ndim else r[()]
        if method == 'reduce':
            axis = kw.pop('axis', 0)
            keepdims = kw.pop('keepdims', False)
            initial = kw.pop('initial', None)
            if initial is getattr(onp, '_NoValue', None):
                initial = None
            r = np_reduce(UF2[name], inputs[0], axis, keepdims, initial, REDUCE_UNIT.get(name))
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == 'accumulate':
            return np_accumulate(UF2[name], inputs[0], kw.pop('axis', 0))
        if method == 'outer':
            a, b = inputs
            a, b = sarr(a), sarr(b)
            return _vec2(UF2[name], a.reshape(a.shape + (1,) * b.ndim), b)
        if method == 'at':
            a, idx, b = inputs
            idx = _fix_index(idx)
            idx = onp.atleast_1d(idx)
            b = onp.broadcast_to(_obj_fill(b), idx.shape)
            for k, i in onp.ndenumerate(idx):
                a[i] = UF2[name](a[i], b[k])
            return None
        raise Unsupported(f'ufunc method {name}.{method}')

    def __array_function__(self, func, types, args, kwargs):
        h = AF.get(func.__name__)
        if h is not None:
            r = h(*args, **kwargs)
            if r is not NotImplemented:
                return r
        r = super().__array_function__(func, types, args, kwargs)
        return _as_sarr(r)

    def __getitem__(self, key):
        r = onp.ndarray.__getitem__(self, _fix_index(key))
        return r

    def __setitem__(self, key, value):
        if isinstance(key, onp.ndarray) and has_sym(key) and key.shape == self.shape \
                and all(isinstance(v, (bool, onp.bool_, SymBool)) for v in key.ravel()):
            v = _obj_fill(value)
            if v.size == 1:
                v = v.reshape(())[()]
                merged = vmapn(lambda c, old: s_ite(c, v, old), key, self)
                onp.ndarray.__setitem__(self, Ellipsis, merged.view(onp.ndarray))
                return
        if isinstance(value, Sym):
            v = onp.empty((), dtype=object)
            v[()] = value
            value = v
        elif isinstance(value, SArr):
            value = value.view(onp.ndarray)
        onp.ndarray.__setitem__(self, _fix_index(key), value)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        return bool(self.reshape(-1)[0])

    def __int__(self): return int(self.reshape(-1)[0])

    def __float__(self):
        v = self.reshape(-1)[0]
        return float(v)

    def __index__(self):
        return _op.index(self.reshape(-1)[0])

    def astype(self, dtype, copy=True, **kw):
        return vmap1(lambda v: cast_scalar(v, dtype), self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_reduce(s_add, self, axis, keepdims, None, 0)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_reduce(s_mul, self, axis, keepdims, None, 1)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return np_reduce(s_max, self, axis, keepdims, None, None)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return np_reduce(s_min, self, axis, keepdims, None, None)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np_reduce(UF2['logical_and'], self, axis, keepdims, True, True)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np_reduce(UF2['logical_or'], self, axis, keepdims, False, False)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        r = self.sum(axis=axis, keepdims=keepdims)
        n = self.size / max(1, onp.size(r))
        return r / Fraction(int(n))

    def cumsum(self, axis=None, **kw):
        a = self if axis is not None else self.reshape(-1)
        return np_accumulate(s_add, a, axis or 0)

    def cumprod(self, axis=None, **kw):
        a = self if axis is not None else self.reshape(-1)
        return np_accumulate(s_mul, a, axis or 0)

    def argmax(self, axis=None, **kw):
        return np_argbest(self, axis, s_gt)

    def argmin(self, axis=None, **kw):
        return np_argbest(self, axis, s_lt)

    def clip(self, a_min=None, a_max=None, **kw):
        return np_clip(self, a_min, a_max)

    def dot(self, other):
        return np_matmul(self, other)

    def item(self, *args):
        if args:
            return self.reshape(-1)[args[0]]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.reshape(-1)[0]

    def tolist(self):
        return self.view(onp.ndarray).tolist()

    def __repr__(self):
        return 'SArr(' + repr(self.view(onp.ndarray)) + ')'

    def __deepcopy__(self, memo):
        return _obj_fill(self).view(SArr)

    def nonzero(self):
        return self._mask().nonzero()

    def _mask(self):
        return onp.array([bool(v) for v in self.view(onp.ndarray).ravel()],
                         dtype=bool).reshape(self.shape)


REDUCE_UNIT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
               'bitwise_and': True, 'bitwise_or': False}


def np_reduce(f, a, axis, keepdims=False, initial=None, unit=None):
    a = _obj_fill(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(ax % a.ndim for ax in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [d for d in range(a.ndim) if d not in axes]
    b = onp.transpose(a, rest + list(axes)).reshape([a.shape[d] for d in rest] + [-1])
    out = onp.empty(b.shape[:-1], dtype=object)
    for i in onp.ndindex(*out.shape):
        acc = initial
        for v in b[i]:
            acc = v if acc is None else f(acc, v)
        if acc is None:
            if unit is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            acc = unit
        out[i] = acc
    if keepdims:
        out = out.reshape([1 if d in axes else a.shape[d] for d in range(a.ndim)])
    out = out.view(SArr)
    return out if out.ndim else out[()]


def np_accumulate(f, a, axis):
    a = onp.moveaxis(_obj_fill(a), axis, 0)
    out = onp.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
        if i == 0:
            out[0] = a[0]
        else:
            out[i] = _vec2(f, out[i - 1], a[i]).view(onp.ndarray)
    return onp.moveaxis(out, 0, axis).view(SArr)


def np_argbest(a, axis, better):
    a = _obj_fill(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = onp.moveaxis(a, axis, -1)
    out = onp.empty(a.shape[:-1], dtype=object)
    for i in onp.ndindex(*out.shape):
        best, arg = a[i][0], 0
        for k in range(1, a.shape[-1]):
            c = better(a[i][k], best)
            arg = s_ite(c, k, arg)
            best = s_ite(c, a[i][k], best)
        out[i] = arg
    out = out.view(SArr)
    return out if out.ndim else out[()]


def np_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = _vec2(s_max, r, lo)
    if hi is not None:
        r = _vec2(s_min, r, hi)
    return r if r.ndim else r[()]


def np_matmul(a, b):
    a, b = _obj_fill(a), _obj_fill(b)
    if a.ndim == 0 or b.ndim == 0:
        return _vec2(s_mul, a, b)
    if a.ndim == 1 and b.ndim == 1:
        acc = 0
        for x, y in zip(a, b):
            acc = s_add(acc, s_mul(x, y))
        return acc
    if b.ndim == 1:
        return np_reduce(s_add, _vec2(s_mul, a, b), -1)
    if a.ndim == 1:
        return np_reduce(s_add, _vec2(s_mul, a[:, None], b), -2)
    p = _vec2(s_mul, a[..., :, :, None], b[..., None, :, :])
    return np_reduce(s_add, p, -2)


def _as_sarr(r):
    if isinstance(r, onp.ndarray) and not isinstance(r, SArr) and r.dtype == object:
        return r.view(SArr)
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_as_sarr(v) for v in r)
    return r


def _scal(r):
    return r[()] if isinstance(r, onp.ndarray) and r.ndim == 0 else r


def np_where(cond, *xy):
    if not xy:
        return sarr(cond)._mask().nonzero()
    x, y = xy
    xs, ys = _obj_fill(x), _obj_fill(y)
    return vmapn(s_ite, cond, xs, ys)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        return s_le(s_abs(s_sub(x, y)), s_add(to_fraction(atol), s_mul(to_fraction(rtol), s_abs(y))))
    return _scal(_vec2(f, a, b))


def np_unique(a, *args, **kw):
    if args or kw:
        return NotImplemented
    return onp.unique(concretize_index_array(_obj_fill(a)))


def np_sort_list(flat):
    """ symbolic sort by a compare-exchange network """
    v = list(flat)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = s_min(v[j], v[j + 1]), s_max(v[j], v[j + 1])
            v[j], v[j + 1] = lo, hi
    return v


def np_sort(a, axis=-1, **kw):
    a = onp.moveaxis(_obj_fill(a), axis, -1)
    out = onp.empty(a.shape, dtype=object)
    for i in onp.ndindex(*a.shape[:-1]):
        for k, v in enumerate(np_sort_list(a[i])):
            out[i + (k,)] = v
    return onp.moveaxis(out, -1, axis).view(SArr)


def np_argsort(a, axis=-1, **kw):
    a = onp.moveaxis(_obj_fill(a), axis, -1)
    out = onp.empty(a.shape, dtype='int64')
    for i in onp.ndindex(*a.shape[:-1]):
        row = list(a[i])
        order = []
        for k in range(len(row)):      # stable insertion sort, forking on comparisons
            pos = len(order)
            while pos > 0 and bool(s_lt(row[k], row[order[pos - 1]])):
                pos -= 1
            order.insert(pos, k)
        out[i] = order
    return onp.moveaxis(out, -1, axis)


def np_searchsorted(a, v, side='left', sorter=None):
    a = list(_obj_fill(a))
    cmp = s_lt if side == 'left' else s_le

    def one(x):
        r = 0
        for y in a:
            r = s_add(r, s_ite(cmp(y, x), 1, 0))
        return r
    return _scal(vmap1(one, v))


def np_quantile_unsupported(*a, **k):
    raise Unsupported('numpy quantile-like function')


def _red(f, unit):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **kw):
        return np_reduce(f, a, axis, bool(keepdims) if keepdims is not onp._NoValue else False,
                         None if initial is onp._NoValue else initial, unit)
    return g


def _np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return sarr(a).mean(axis=axis, keepdims=keepdims if keepdims is not onp._NoValue else False)


def _np_var(a, axis=None, **kw):
    a = sarr(a)
    m = a.mean(axis=axis, keepdims=True) if axis is not None else a.mean()
    d = a - m
    return (d * d).mean(axis=axis)


def _np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return _np_mean(a, axis)
    w = sarr(weights)
    return (sarr(a) * w).sum(axis=axis) / w.sum(axis=axis)


def _np_linspace(start, stop, num=50, endpoint=True, **kw):
    d = num - 1 if endpoint else num
    return sarr([s_add(start, s_mul(Fraction(k, max(d, 1)), s_sub(stop, start)))
                 for k in range(num)])


def _np_tensordot(a, b, axes=2):
    a, b = _obj_fill(a), _obj_fill(b)
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = [list(v) if isinstance(v, (list, tuple)) else [v] for v in axes]
    fa = [d for d in range(a.ndim) if d not in [x % a.ndim for x in ax_a]]
    fb = [d for d in range(b.ndim) if d not in [x % b.ndim for x in ax_b]]
    n = int(onp.prod([a.shape[d] for d in ax_a]))
    at = onp.transpose(a, fa + list(ax_a)).reshape(-1, n)
    bt = onp.transpose(b, list(ax_b) + fb).reshape(n, -1)
    r = np_matmul(at, bt).view(onp.ndarray)
    r = r.reshape([a.shape[d] for d in fa] + [b.shape[d] for d in fb]).view(SArr)
    return r if r.ndim else r[()]


AF = {
    'where': np_where, 'sum': _red(s_add, 0), 'prod': _red(s_mul, 1),
    'max': _red(s_max, None), 'amax': _red(s_max, None), 'nanmax': _red(s_max, None),
    'min': _red(s_min, None), 'amin': _red(s_min, None),
    'all': _red(lambda a, b: s_and(s_truth(a), s_truth(b)), True),
    'any': _red(lambda a, b: s_or(s_truth(a), s_truth(b)), False),
    'mean': _np_mean, 'var': _np_var, 'average': _np_average,
    'std': lambda a, axis=None, **k: _scal(vmap1(s_sqrt, _np_var(a, axis))),
    'cumsum': lambda a, axis=None, **k: sarr(a).cumsum(axis),
    'cumprod': lambda a, axis=None, **k: sarr(a).cumprod(axis),
    'argmax': lambda a, axis=None, **k: np_argbest(a, axis, s_gt),
    'argmin': lambda a, axis=None, **k: np_argbest(a, axis, s_lt),
    'clip': lambda a, a_min=None, a_max=None, **k: np_clip(a, a_min, a_max),
    'isclose': np_isclose,
    'allclose': lambda a, b, **k: np_reduce(s_and, sarr(np_isclose(a, b, **k)), None, False, True),
    'array_equal': lambda a, b, **k: onp.shape(a) == onp.shape(b) and np_reduce(
        s_and, _vec2(s_eq, a, b), None, False, True),
    'unique': np_unique, 'sort': np_sort, 'argsort': np_argsort,
    'searchsorted': np_searchsorted,
    'digitize': lambda x, bins, right=False: np_searchsorted(
        bins, x, side='left' if right else 'right'),
    'dot': np_matmul, 'matmul': np_matmul, 'inner': np_matmul,
    'linspace': _np_linspace, 'tensordot': lambda a, b, axes=2: _np_tensordot(a, b, axes),
    'quantile': np_quantile_unsupported, 'percentile': np_quantile_unsupported,
    'median': np_quantile_unsupported,
    'round': lambda a, decimals=0, **k: _scal(vmap1(s_round, a)),
    'around': lambda a, decimals=0, **k: _scal(vmap1(s_round, a)),
    'nonzero': lambda a: sarr(a)._mask().nonzero(),
    'flatnonzero': lambda a: onp.flatnonzero(sarr(a)._mask()),
    'argwhere': lambda a: onp.argwhere(sarr(a)._mask()),
    'count_nonzero': lambda a, axis=None, **k: np_reduce(
        s_add, vmap1(lambda v: s_ite(s_truth(v), 1, 0), a), axis, False, 0),
    'nan_to_num': lambda a, **k: a,
    'isscalar': lambda a: True,
    'shape': lambda a: onp.ndarray.shape.__get__(sarr(a)),
    'zeros_like': lambda a, dtype=None, shape=None, **k: full_like(a, 0, dtype, shape),
    'ones_like': lambda a, dtype=None, shape=None, **k: full_like(a, 1, dtype, shape),
    'empty_like': lambda a, dtype=None, shape=None, **k: full_like(a, 0, dtype, shape),
    'full_like': lambda a, fill_value, dtype=None, shape=None, **k: full_like(
        a, fill_value, dtype, shape),
    'diff': lambda a, n=1, axis=-1, **k: NotImplemented,
    'vectorize': None,
}


def full_like(a, fill, dtype=None, shape=None):
    dt = sym_dtype(dtype) or (a.dtype if hasattr(a, 'dtype') else onp.asarray(a).dtype)
    return full(shape if shape is not None else onp.shape(a), fill, dt)


def full(shape, fill, dtype=None):
    if isinstance(shape, (int, onp.integer)):
        shape = (shape,)
    out = onp.empty(tuple(int(d) for d in shape), dtype=object)
    f = _obj_fill(fill)
    out[...] = f if f.ndim else f[()]
    out = out.view(SArr)
    dt = sym_dtype(dtype)
    if dt is None:
        return out
    if dt.kind == 'O':
        return onp.array(out.view(onp.ndarray))
    return out.astype(dt)


# ---------------------------------------------------------------------------------------------
# the numpy stand-in installed in the modules under test
# ---------------------------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal)) or isinstance(x, Fraction)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, onp.ndarray) and x.size == 1:
                x = x.reshape(-1)[0]
            if isinstance(x, Sym):
                return wrap(_zr(x))
            if isinstance(x, Fraction):
                return x
            return float(x)
        return 0.0


class symfloat(metaclass=_FloatMeta):
    _py_type = float
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, onp.ndarray) and x.size == 1:
                x = x.reshape(-1)[0]
            if isinstance(x, Sym):
                return s_trunc(x)
            return int(x)
        return int(*a, **k)


class symint(metaclass=_IntMeta):
    _py_type = int


def _sym_builtin_max(*args, **kw):
    if not kw:
        vals = list(args[0]) if len(args) == 1 else list(args)
        if vals and any(isinstance(v, Sym) for v in vals) and all(_as_operand(v) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                r = s_max(r, v)
            return r
        return max(vals) if vals else max(*args)
    return max(*args, **kw)


def _sym_builtin_min(*args, **kw):
    if not kw:
        vals = list(args[0]) if len(args) == 1 else list(args)
        if vals and any(isinstance(v, Sym) for v in vals) and all(_as_operand(v) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                r = s_min(r, v)
            return r
        return min(vals) if vals else min(*args)
    return min(*args, **kw)


class _MathShim:
    _map = {'exp': s_exp, 'log': s_log, 'sqrt': s_sqrt, 'tanh': s_tanh, 'floor': s_floor,
            'ceil': s_ceil, 'fabs': s_abs, 'log1p': s_log1p, 'pow': s_pow, 'trunc': s_trunc}

    def __getattr__(self, name):
        f = getattr(math, name)
        g = self._map.get(name)
        if g is None:
            return f

        def h(*a):
            return g(*a) if any(isinstance(x, Sym) for x in a) else f(*a)
        return h


def _lift_arg(x):
    if isinstance(x, Sym):
        return sarr(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        try:
            return sarr(x)
        except ValueError:
            return x
    base = x if isinstance(x, type) else None
    if base is symfloat:
        return float
    if base is symint:
        return int
    return x


def _lift_deep(x):
    """ for functions that take sequences of arrays """
    if isinstance(x, (list, tuple)) and any(isinstance(v, onp.ndarray) for v in x):
        return type(x)(_lift_arg(v) for v in x)
    return _lift_arg(x)


class NPShim:
    """ numpy with symbolic-aware creation functions; everything else is numpy """

    def __init__(self, force_object=True):
        self.__dict__['_force'] = force_object
        self.__dict__['_over'] = {}

    def __setattr__(self, k, v):
        self.__dict__['_over'][k] = v

    def __getattr__(self, name):
        over = self.__dict__['_over']
        if name in over:
            return over[name]
        own = _SHIM.get(name)
        if own is not None:
            if name in _CREATE and not self._force:
                own = None
            else:
                return own
        f = getattr(onp, name)
        if isinstance(f, type) or not callable(f):
            return f

        def wrapped(*args, **kw):
            if not any(has_sym(a) or a is symfloat or a is symint or isinstance(a, SArr)
                       for a in itertools.chain(args, kw.values())):
                return f(*args, **kw)
            args = [_lift_deep(a) for a in args]
            kw = {k: _lift_deep(v) for k, v in kw.items()}
            if isinstance(f, onp.ufunc):
                return f(*args, **kw)
            h = AF.get(name)
            if name in _JOIN and kw.get('dtype') is not None:
                dt = kw.pop('dtype')
                kw.pop('casting', None)
                return _shim_array(wrapped(*args, **kw), dt)
            if h is not None:
                r = h(*args, **kw)
                if r is not NotImplemented:
                    return r
            return _as_sarr(f(*args, **kw))
        if isinstance(f, onp.ufunc):
            for m in ('reduce', 'accumulate', 'outer', 'at'):
                setattr(wrapped, m, getattr(f, m))
        wrapped.__name__ = name
        return wrapped


_JOIN = ('concatenate', 'stack', 'vstack', 'hstack')


def _shim_array(x, dtype=None, *args, **kw):
    kw = {k: v for k, v in kw.items() if k != 'dtype'}
    if has_sym(x) or isinstance(x, SArr):
        dt = sym_dtype(dtype)
        if dt is not None and dt.kind == 'O':
            return _obj_fill(x)
        return sarr(x, dt)
    return onp.array(x, dtype=sym_dtype(dtype), **kw)


def _shim_asarray(x, dtype=None, *args, **kw):
    if isinstance(x, SArr) and dtype is None:
        return x
    if has_sym(x) or isinstance(x, SArr):
        return _shim_array(x, dtype)
    return onp.asarray(x, dtype=sym_dtype(dtype))


def _shim_full(shape, fill_value, dtype=None, **kw):
    dt = sym_dtype(dtype)
    if dt is not None and dt.kind == 'O':
        return onp.full(shape, fill_value, dtype=object).view(SArr)
    if fill_value is None or isinstance(fill_value, str):
        return onp.full(shape, fill_value, dtype=dt)
    return full(shape, fill_value, dt)


def _shim_const(v):
    def f(shape, dtype=float, **kw):
        dt = sym_dtype(dtype) or onp.dtype(float)
        if dt.kind == 'O':
            return onp.full(shape, v, dtype=object).view(SArr)
        return full(shape, v, dt)
    return f


def _shim_isscalar(x):
    return isinstance(x, Sym) or onp.isscalar(x)




_CREATE = {'zeros', 'ones', 'empty', 'full'}
_SHIM = {
    'array': _shim_array, 'asarray': _shim_asarray, 'asanyarray': _shim_asarray,
    'ascontiguousarray': _shim_asarray,
    'zeros': _shim_const(0), 'ones': _shim_const(1), 'empty': _shim_const(0),
    'full': _shim_full, 'isscalar': _shim_isscalar,
}


# ---------------------------------------------------------------------------------------------
# executor
# ---------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0


def decide(cond):
    """ branch on a z3 boolean """
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    c = ctx()
    if c is None:
        raise Unsupported('symbolic branch outside of an exploration')
    return c.branch(cond)


def concretize_int(x):
    x = _norm(x)
    if not isinstance(x, Sym):
        return int(x)
    c = ctx()
    if c is None:
        raise Unsupported('symbolic int outside of an exploration')
    return c.pick_int(_zi(x))


class Explorer:
    """ depth-first path exploration by re-execution """

    def __init__(self, stats, max_paths=20000, deadline=None, query_ms=20000):
        self.stats = stats
        self.max_paths = max_paths
        self.deadline = deadline or (time.time() + 600)
        self.query_ms = query_ms
        self.solver = None
        self._entail_cache = {}

    # -- solver -------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        if t > self.deadline:
            raise BudgetExceeded('time')
        s = self.solver
        s.set('timeout', int(min(self.query_ms, max(1, (self.deadline - t) * 1000))))
        r = s.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def entails(self, e):
        if self.solver is None:
            return False
        key = (e.get_id(), len(self.pc))
        if key not in self._entail_cache:
            q, self.query_ms = self.query_ms, min(self.query_ms, 1500)
            try:
                ok = self._check(z3.Not(e)) == z3.unsat
                if not ok and PRUNE[0] and ATOMS.args:
                    ok = self._check(z3.Not(e), *atom_axioms(1)) == z3.unsat
            finally:
                self.query_ms = q
            self._entail_cache[key] = (ok, e)
        return self._entail_cache[key][0]

    def fixed_floor(self, e):
        """ the floor of e if the path condition determines it """
        try:
            if self._check() != z3.sat:
                return None
            v = self.solver.model().eval(e, model_completion=True)
        except z3.Z3Exception:
            return None
        if not z3.is_rational_value(v):
            return None
        k = math.floor(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return k if self.entails(z3.And(e >= k, e < k + 1)) else None

    def assume(self, cond):
        cond = _zb(cond) if not isinstance(cond, z3.ExprRef) else cond
        self.pc.append(cond)
        self.solver.add(cond)

    def _take(self, cond, value):
        self.assume(cond if value else z3.Not(cond))

    def branch(self, cond):
        i = self.pos
        self.pos += 1
        self.stats.decisions += 1
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind == 'b', 'non-deterministic harness'
            self._take(cond, v)
            return v
        rt = self._check(cond)
        rf = self._check(z3.Not(cond))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort()
        if rt == z3.unsat:
            v = False
        elif rf == z3.unsat:
            v = True
        else:
            v = True
            self.queue.append(self.trace + [('b', False)])
        self.trace.append(('b', v))
        self._take(cond, v)
        return v

    def pick_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = self.pos
        self.pos += 1
        self.stats.decisions += 1
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind in 'in', 'non-deterministic harness'
            if kind == 'i':
                self.assume(e == v)
                return v
            # 'n': all values in v are excluded, choose another
            excl = v
        else:
            excl = ()
        for x in excl:
            self.assume(e != x)
        r = self._check()
        if r != z3.sat:
            raise PathAbort()
        val = self.solver.model().eval(e, model_completion=True).as_long()
        if len(excl) > 64:
            raise Unsupported('symbolic int with too many values')
        base = self.trace if i >= len(self.prefix) else self.trace[:i]
        r2 = self._check(e != val)
        if r2 != z3.unsat:
            self.queue.append(base + [('n', tuple(excl) + (val,))])
        self.trace = base + [('i', val)]
        self.assume(e == val)
        return val

    def run(self, fn):
        """ run fn() on every feasible path """
        self.queue = [[]]
        n = 0
        while self.queue:
            self.prefix = self.queue.pop()
            self.trace = list(self.prefix)
            self.pos = 0
            self.pc = []
            self.solver = z3.Solver()
            self._entail_cache = {}
            n += 1
            if n > self.max_paths or time.time() > self.deadline:
                raise BudgetExceeded(f'{n - 1} paths explored, {len(self.queue) + 1} pending')
            old = _CTX[0]
            _CTX[0] = self
            try:
                fn()
                self.stats.paths += 1
            except PathAbort:
                pass
            finally:
                _CTX[0] = old


def fresh_real(name): return SymReal(z3.Real(name))
def fresh_int(name): return SymInt(z3.Int(name))
def fresh_bool(name): return SymBool(z3.Bool(name))


def atom_axioms(level=1):
    """ sound facts about the transcendental atoms created so far """
    ax = []
    by = {}
    for name, (f, args) in ATOMS.args.items():
        c = z3.Real(name)
        by.setdefault(f, []).append((c, args[0]))
        x = args[0]
        if f == 'exp':
            ax.append(c > 0)
            if level >= 1:
                ax += [c >= 1 + x, z3.Implies(x >= 0, c >= 1), z3.Implies(x <= 0, c <= 1),
                       z3.Implies(x > 0, c > 1), z3.Implies(x < 0, c < 1),
                       z3.Implies(x < 1, c * (1 - x) <= 1)]
        elif f == 'log':
            if level >= 1:
                ax += [z3.Implies(x > 0, c <= x - 1), z3.Implies(x >= 1, c >= 0),
                       z3.Implies(x > 1, c > 0), z3.Implies(z3.And(x > 0, x < 1), c < 0),
                       z3.Implies(z3.And(x > 0, x <= 1), c <= 0),
                       z3.Implies(x > 0, c * x >= x - 1)]
        elif f == 'sqrt':
            ax += [z3.Implies(x >= 0, z3.And(c >= 0, c * c == x))]
        elif f == 'erf':
            ax += [c < 1, c > -1]
    if level >= 1:
        cache = {}
        for name, (f, args) in ATOMS.args.items():
            if f in ('exp', 'log', 'sqrt') and not z3.is_rational_value(args[0]):
                c = z3.Real(name)
                lo, hi = interval(c, cache)
                if lo > -INF and lo == lo:
                    ax.append(c >= z3.RealVal(str(Fraction(lo))))
                if hi < INF and hi == hi:
                    ax.append(c <= z3.RealVal(str(Fraction(hi))))
    # numeric bounds for constants
    for name, (f, args) in ATOMS.args.items():
        x = args[0]
        if z3.is_rational_value(x):
            v = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            c = z3.Real(name)
            fn = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'erf': math.erf}.get(f)
            try:
                y = fn(v) if fn else None
            except (ValueError, OverflowError):
                y = None
            if y is not None:
                d = 1e-9 * (1 + abs(y))
                ax += [c >= z3.RealVal(str(Fraction(y - d))), c <= z3.RealVal(str(Fraction(y + d)))]
    if level >= 2:
        for f, items in by.items():
            for (c1, x1), (c2, x2) in itertools.combinations(items, 2):
                if f in ('exp', 'log', 'sqrt', 'erf'):
                    ok = z3.BoolVal(True) if f in ('exp', 'erf') else z3.And(x1 > 0, x2 > 0)
                    ax += [z3.Implies(z3.And(ok, x1 == x2), c1 == c2),
                           z3.Implies(z3.And(ok, x1 < x2), c1 < c2),
                           z3.Implies(z3.And(ok, x1 > x2), c1 > c2)]
                else:
                    ax.append(z3.Implies(x1 == x2, c1 == c2))
        # exp of an if-then-else argument
        for c, x in by.get('exp', []):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                for br, g in ((x.arg(1), x.arg(0)), (x.arg(2), z3.Not(x.arg(0)))):
                    ax.append(z3.Implies(g, c == ATOMS.get('exp', br)))
    return ax
