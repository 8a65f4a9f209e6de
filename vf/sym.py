"""
Symbolic values (proxies) for executing the real Python code of /repo on SMT
terms.

Every proxy wraps a z3 term.  Arithmetic on proxies builds terms; a truth test
(`if`, `and`, `while`, `in` ...) on a symbolic Boolean asks the current path
context to fork; a use that needs a machine integer (hash, index, range) asks
the context to split completely on the value.  Nothing is approximated: when a
C-level routine forces a symbolic real to a machine float the context records
a *concretisation* and the run is reported as incomplete.

Reals are kept as num/den pairs of polynomials, so that the solver only ever
sees polynomial (in)equalities (a division forks on "divisor is zero", where
Python would raise ZeroDivisionError).
"""
import builtins
import operator
import fractions
import math as _real_math
import types

import numpy as _np
import z3

# the original functions of the math module (it is patched during execution)
_math = types.SimpleNamespace(**{k: getattr(_real_math, k) for k in dir(_real_math)})

Fraction = fractions.Fraction

CUR = None  # the current symbolic path context (engine.SymCtx) or None


class EngineError(BaseException):
    pass


_TOKENS = {}


def reset_tokens():
    _TOKENS.clear()


def frac_of(x):
    return Fraction(x)


_RV = {}  # Fraction -> numeral
_NUM = {}  # ast id -> Fraction, for the numerals of _RV (kept alive)


def rv(x):
    """Exact z3 real of a finite python number."""
    f = Fraction(x)
    r = _RV.get(f)
    if r is None:
        if len(_RV) > 20000:
            _RV.clear()
            _NUM.clear()
        r = z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
        _RV[f] = r
        _NUM[r.get_id()] = f
    return r


def _cst(a):
    return _NUM.get(a.get_id())


def _is_num(x):
    return isinstance(x, (builtins.int, builtins.float, Fraction)) or (
        hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ()
    )


def _pynum(x):
    if hasattr(x, "item") and not isinstance(x, (builtins.int, builtins.float)):
        return x.item()
    return x


_ONE = rv(1)


def _mul(a, b):
    f = _cst(a)
    g = _cst(b)
    if f is not None:
        if g is not None:
            return rv(f * g)
        if f == 1:
            return b
        if f == 0:
            return a
    elif g is not None:
        if g == 1:
            return a
        if g == 0:
            return b
    return a * b


def _add(a, b):
    f = _cst(a)
    g = _cst(b)
    if f is not None:
        if g is not None:
            return rv(f + g)
        if f == 0:
            return b
    elif g is not None and g == 0:
        return a
    return a + b


def _neg(a):
    f = _cst(a)
    if f is not None:
        return rv(-f)
    return -a


class Sym:
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        """numpy scalars and arrays defer to us: operators on scalars, object arrays otherwise."""
        import numpy as np

        if method == "__call__" and not any(isinstance(x, np.ndarray) and x.ndim for x in inputs):
            op = _UFUNC.get(ufunc.__name__)
            if op is not None:
                return op(*[x.item() if isinstance(x, (np.generic, np.ndarray)) else x for x in inputs])
        xs = []
        for x in inputs:
            if isinstance(x, Sym):
                a = np.empty((), dtype=object)
                a[()] = x
                x = a
            xs.append(x)
        return getattr(ufunc, method)(*xs, **kw)


_UFUNC = {
    "add": operator.add,
    "subtract": operator.sub,
    "multiply": operator.mul,
    "divide": operator.truediv,
    "true_divide": operator.truediv,
    "floor_divide": operator.floordiv,
    "remainder": operator.mod,
    "power": operator.pow,
    "negative": operator.neg,
    "positive": operator.pos,
    "absolute": builtins.abs,
    "equal": operator.eq,
    "not_equal": operator.ne,
    "less": operator.lt,
    "less_equal": operator.le,
    "greater": operator.gt,
    "greater_equal": operator.ge,
    "ceil": lambda x: x.ceil() if isinstance(x, SymReal) else x,
    "floor": lambda x: x.floor() if isinstance(x, SymReal) else x,
    "rint": lambda x: x.rint() if isinstance(x, SymReal) else x,
    "minimum": lambda a, b: a if a <= b else b,
    "maximum": lambda a, b: a if a >= b else b,
    "isnan": lambda x: False,
    "isinf": lambda x: False,
    "isfinite": lambda x: True,
}


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        o = as_boolexpr(o)
        return mkbool(z3.And(self.e, o))

    __rand__ = __and__

    def __or__(self, o):
        o = as_boolexpr(o)
        return mkbool(z3.Or(self.e, o))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, as_boolexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, builtins.bool)):
            return mkbool(self.e == as_boolexpr(o))
        if isinstance(o, (SymInt, SymReal, builtins.int, builtins.float)):
            return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __hash__(self):
        return hash(builtins.bool(self))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) * o

    __rmul__ = __mul__

    def __str__(self):
        return str(builtins.bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(builtins.bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def as_boolexpr(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, builtins.bool):
        return z3.BoolVal(o)
    if z3.is_expr(o):
        return o
    raise TypeError(f"not a boolean: {o!r}")


def mkbool(e):
    """SymBool, or a plain bool when the term is already constant."""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def and_(*bs):
    res = []
    for b in bs:
        if isinstance(b, SymBool):
            res.append(b.e)
        elif not b:
            return False
    return mkbool(z3.And(*res)) if res else True


def or_(*bs):
    res = []
    for b in bs:
        if isinstance(b, SymBool):
            res.append(b.e)
        elif b:
            return True
    return mkbool(z3.Or(*res)) if res else False


class SymReal(Sym):
    """num/den, den is None when the denominator is 1 (den != 0 on the path)."""

    __slots__ = ("num", "den", "tok")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den
        self.tok = None

    # -- conversions ------------------------------------------------------
    @staticmethod
    def lift(x):
        """SymReal of a finite number, or None (inf, nan, not a number)."""
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.e))
        if isinstance(x, SymBool):
            return SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
        if _is_num(x):
            x = _pynum(x)
            if isinstance(x, builtins.float) and (x != x or x in (_math.inf, -_math.inf)):
                return None
            return SymReal(rv(x))
        return NotImplemented

    def expr(self):
        return self.num if self.den is None else self.num / self.den

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            return _pynum(o)  # finite + inf/nan
        if self.den is None and r.den is None:
            return SymReal(_add(self.num, r.num))
        d1 = _ONE if self.den is None else self.den
        d2 = _ONE if r.den is None else r.den
        if self.den is not None and r.den is not None and z3.eq(d1, d2):
            return SymReal(_add(self.num, r.num), d1)
        return SymReal(_add(_mul(self.num, d2), _mul(r.num, d1)), _mul(d1, d2))

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return SymReal(_neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            return -_pynum(o)
        return self.__add__(-r)

    def __rsub__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            return _pynum(o)
        return r.__add__(-self)

    def __mul__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            o = _pynum(o)
            if o != o or self == 0:
                return _math.nan
            return o if self > 0 else -o
        den = None
        if self.den is not None or r.den is not None:
            den = _mul(_ONE if self.den is None else self.den, _ONE if r.den is None else r.den)
        return SymReal(_mul(self.num, r.num), den)

    __rmul__ = __mul__

    def _inv(self):
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        if self.den is None:
            f = _cst(self.num)
            if f is not None:
                return SymReal(rv(1 / f))
        return SymReal(_ONE if self.den is None else self.den, self.num)

    def __truediv__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            o = _pynum(o)
            return _math.nan if o != o else 0.0
        return self * r._inv()

    def __rtruediv__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return r
        if r is None:
            return _pynum(o) * (1.0 if self > 0 else -1.0) if not (self == 0) else 1 / 0
        return r * self._inv()

    def __floordiv__(self, o):
        q = self / o
        return SymReal(z3.ToReal(q._floor()))

    def __rfloordiv__(self, o):
        return SymReal.lift(o).__floordiv__(self)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return SymReal.lift(o).__mod__(self)

    def __pow__(self, n):
        if isinstance(n, SymInt):
            n = CUR.concretize_int(n.e)
        if isinstance(n, builtins.float) and n.is_integer():
            n = builtins.int(n)
        if not isinstance(n, builtins.int):
            return NotImplemented
        res = SymReal(_ONE)
        for _ in range(abs(n)):
            res = res * self
        return res if n >= 0 else 1 / res

    def __abs__(self):
        if self.den is None:
            return SymReal(z3.If(self.num >= 0, self.num, -self.num))
        return SymReal(
            z3.If(self.num >= 0, self.num, -self.num),
            z3.If(self.den >= 0, self.den, -self.den),
        )

    # -- comparisons ------------------------------------------------------
    def _cmp(self, o, op):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return NotImplemented
        if r is None:
            o = _pynum(o)
            return op(0.0, o) if o == o else op(0.0, _math.nan)
        if self.den is None and r.den is None:
            return mkbool(op(self.num, r.num))
        # a/b op c/d  <=>  a*b*d^2 op c*d*b^2   (b, d != 0)
        b = _ONE if self.den is None else self.den
        d = _ONE if r.den is None else r.den
        dd = _mul(d, d)
        bb = _mul(b, b)
        return mkbool(op(_mul(_mul(self.num, b), dd), _mul(_mul(r.num, d), bb)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = SymReal.lift(o)
        if r is NotImplemented:
            return False
        if r is None:
            return False
        if self.den is None and r.den is None:
            return mkbool(self.num == r.num)
        b = _ONE if self.den is None else self.den
        d = _ONE if r.den is None else r.den
        return mkbool(_mul(self.num, d) == _mul(r.num, b))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return builtins.bool(self != 0)

    def __hash__(self):
        return hash(CUR.concretize_real(self))

    # -- integers ---------------------------------------------------------
    def _floor(self):
        if self.den is None:
            return z3.ToInt(self.num)
        # floor(n/d) as a fresh integer k with k <= n/d < k+1
        k = CUR.fresh_int("floor")
        kk = SymReal(z3.ToReal(k))
        CUR.add_def(as_boolexpr(and_(kk <= self, self < kk + 1)))
        return k

    def is_integer(self):
        if self.den is None:
            return mkbool(z3.IsInt(self.num))
        return mkbool(z3.ToReal(self._floor()) == self.expr())

    def _trunc(self):
        if self >= 0:
            return SymInt(self._floor())
        return SymInt(-((-self)._floor()))

    def __trunc__(self):
        return self._trunc()

    def __floor__(self):
        return SymInt(self._floor())

    def __ceil__(self):
        return SymInt(-((-self)._floor()))

    def __round__(self, n=None):
        if n is not None:
            s = 10**n
            return (self * s).__round__() / s
        f = self._floor()
        fr = SymReal(z3.ToReal(f))
        d = self - fr
        if d < rv_half():
            return SymInt(f)
        if d > rv_half():
            return SymInt(f + 1)
        return SymInt(z3.If(f % 2 == 0, f, f + 1))

    def rint(self):
        return SymReal(z3.ToReal(self.__round__().e))

    def ceil_real(self):
        return SymReal(z3.ToReal(-((-self)._floor())))

    ceil = ceil_real

    def floor(self):
        return SymReal(z3.ToReal(self._floor()))

    def conjugate(self):
        return self

    def __int__(self):
        return CUR.concretize_int(self._trunc().e)

    def __float__(self):
        return CUR.concretize_real(self)

    def item(self):
        return self

    # -- text: a token that the patched float() maps back ------------------
    def token(self):
        if self.tok is None:
            self.tok = f"<symreal#{len(_TOKENS)}>"
            _TOKENS[self.tok] = self
        return self.tok

    def __repr__(self):
        return self.token()

    __str__ = __repr__

    def __format__(self, spec):
        return self.token()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError("symbolic value cannot be pickled")


def rv_half():
    return Fraction(1, 2)


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, builtins.int):
            return SymInt(z3.IntVal(builtins.int(x)))
        if _is_num(x):
            p = _pynum(x)
            if isinstance(p, builtins.int):
                return SymInt(z3.IntVal(p))
        return None

    def real(self):
        return SymReal(z3.ToReal(self.e))

    def _bin(self, o, f, name, swap=False):
        r = SymInt.lift(o)
        if r is not None:
            return SymInt(f(r.e, self.e) if swap else f(self.e, r.e))
        return getattr(self.real(), name)(o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, "__add__")

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, "__radd__", True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, "__sub__")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, "__rsub__", True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return CUR.concretize_int(self.e) * o
        return self._bin(o, lambda a, b: a * b, "__mul__")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.real() / o

    def __rtruediv__(self, o):
        return self.real().__rtruediv__(o)

    def _divmod(self, r):
        """Python floor division / modulo of integer terms."""
        a, b = self.e, r.e
        if z3.is_int_value(b):
            bv = b.as_long()
            if bv == 0:
                raise ZeroDivisionError("integer modulo by zero")
            if bv > 0:
                return a / b, a % b  # z3: 0 <= a % b
            q = (-a) / z3.IntVal(-bv)
            return q, a - q * b
        if mkbool(b == 0):
            raise ZeroDivisionError("integer modulo by zero")
        if mkbool(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        r = SymInt.lift(o)
        if r is None:
            return self.real() // o
        return SymInt(self._divmod(r)[0])

    def __rfloordiv__(self, o):
        return SymInt.lift(o).__floordiv__(self)

    def __mod__(self, o):
        r = SymInt.lift(o)
        if r is None:
            return self.real() % o
        return SymInt(self._divmod(r)[1])

    def __rmod__(self, o):
        r = SymInt.lift(o)
        if r is None:
            return NotImplemented
        return r.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n):
        return SymReal.__pow__(self.real(), n)

    def _cmp(self, o, op, name):
        r = SymInt.lift(o)
        if r is not None:
            return mkbool(op(self.e, r.e))
        return getattr(self.real(), name)(o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "__lt__")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "__le__")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "__ge__")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b, "__eq__")

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return builtins.bool(self != 0)

    def __hash__(self):
        return hash(CUR.concretize_int(self.e))

    def __index__(self):
        return CUR.concretize_int(self.e)

    __int__ = __index__

    def __float__(self):
        return builtins.float(CUR.concretize_int(self.e))

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def item(self):
        return self

    def __repr__(self):
        return str(CUR.concretize_int(self.e))

    __str__ = __repr__

    def __format__(self, spec):
        return format(CUR.concretize_int(self.e), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------------------
# stand-ins for the builtins float / int / math, installed in the modules under
# test only while symbolic execution runs


class _NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._base) or isinstance(o, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base) or issubclass(c, cls._sym)

    def __getattr__(cls, name):
        a = getattr(cls._base, name)
        base = cls._base

        if callable(a):

            def f(x, *args, **kw):
                if isinstance(x, Sym):
                    return getattr(x, name)(*args, **kw)
                return getattr(base, name)(x, *args, **kw)

            return f
        return a

    def __eq__(cls, o):
        return o is cls._base or o is cls._self()

    def __hash__(cls):
        return hash(cls._base)

    def _self(cls):
        return cls


class SymFloatType(metaclass=_NumMeta):
    _base = builtins.float
    _sym = SymReal
    dtype = _np.dtype(builtins.float)  # lets numpy and pandas take it for float

    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return x.real()
        if isinstance(x, SymBool):
            return SymReal.lift(x)
        if isinstance(x, str):
            t = _TOKENS.get(x.strip())
            if t is not None:
                return t
            hook = FLOAT_TEXT_HOOK
            if hook is not None:
                v = hook(x.strip())
                if v is not None:
                    return v
        return builtins.float(x)


FLOAT_TEXT_HOOK = None


class SymIntType(metaclass=_NumMeta):
    _base = builtins.int
    _sym = SymInt
    dtype = _np.dtype(builtins.int)

    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x._trunc()
        if isinstance(x, SymBool):
            return SymInt.lift(x)
        if isinstance(x, str) and not a:
            t = _TOKENS.get(x.strip())
            if t is not None:
                raise ValueError("invalid literal for int()")
        return builtins.int(x, *a)


def _has_sym(xs):
    return any(isinstance(x, Sym) for x in xs)


class MathShim:
    """The functions of math that matter, lifted to symbolic arguments."""

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not _has_sym([a, b, rel_tol, abs_tol]):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if rel_tol < 0 or abs_tol < 0:
            raise ValueError("tolerances must be non-negative")
        for v in (a, b):
            if not isinstance(v, Sym) and (_math.isinf(v) or _math.isnan(v)):
                return False
        d = abs(a - b)
        return or_(
            a == b,
            d <= abs_tol,
            d <= rel_tol * abs(a),
            d <= rel_tol * abs(b),
        )

    @staticmethod
    def isinf(x):
        return False if isinstance(x, Sym) else _math.isinf(x)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, Sym) else _math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, Sym) else _math.isfinite(x)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, Sym) else _math.fabs(x)

    @staticmethod
    def fsum(xs):
        xs = list(xs)
        return sum(xs, 0.0) if _has_sym(xs) else _math.fsum(xs)

    @staticmethod
    def prod(xs, *, start=1):
        xs = list(xs)
        if not _has_sym(xs):
            return _math.prod(xs, start=start)
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def trunc(x):
        return x.__trunc__() if isinstance(x, Sym) else _math.trunc(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance(x, Sym) else _math.ceil(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance(x, Sym) else _math.floor(x)

    @staticmethod
    def fmod(a, b):
        if not _has_sym([a, b]):
            return _math.fmod(a, b)
        q = a / b
        return a - b * SymReal.lift(q.__trunc__())

    @staticmethod
    def modf(x):
        if not isinstance(x, Sym):
            return _math.modf(x)
        i = SymReal.lift(x.__trunc__())
        return (x - i, i)

    @staticmethod
    def copysign(a, b):
        if not _has_sym([a, b]):
            return _math.copysign(a, b)
        a = abs(a)
        return a if b >= 0 else -a

    @staticmethod
    def sqrt(x):
        if isinstance(x, Sym):
            raise EngineError("sqrt of a symbolic value")
        return _math.sqrt(x)


def patch_modules(prefixes=("andromede",), skip=()):
    """Install the stand-ins in the globals of the modules under test."""
    import sys

    lifted = {
        getattr(_math, k): getattr(MathShim, k)
        for k in vars(MathShim)
        if not k.startswith("_") and hasattr(_math, k)
    }
    for name, mod in list(sys.modules.items()):
        if mod is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
            continue
        if name in skip:
            continue
        g = vars(mod)
        g.setdefault("float", SymFloatType)
        g.setdefault("int", SymIntType)
        for k, v in list(g.items()):
            try:
                if v in lifted:
                    g[k] = lifted[v]
            except TypeError:
                pass
    for k in vars(MathShim):
        if not k.startswith("_") and hasattr(_math, k):
            setattr(_real_math, k, getattr(MathShim, k))


    _patch_pandas()


def _plain(key):
    """Index keys for native code: integers split on their values."""
    if isinstance(key, SymInt):
        return int(key)
    if isinstance(key, SymReal):
        return float(key)
    if isinstance(key, tuple) and any(isinstance(k, Sym) for k in key):
        return tuple(_plain(k) for k in key)
    if isinstance(key, slice) and any(isinstance(k, Sym) for k in (key.start, key.stop, key.step)):
        return slice(_plain(key.start), _plain(key.stop), _plain(key.step))
    return key


def _patch_pandas():
    """pandas tells integers by their type: indexers get plain keys."""
    from pandas.core import indexing

    for cls in (indexing._LocationIndexer, indexing._ScalarAccessIndexer):
        orig = cls.__getitem__
        if getattr(orig, "vf", False):
            continue

        def getitem(self, key, orig=orig):
            return orig(self, _plain(key))

        getitem.vf = True
        cls.__getitem__ = getitem


def same(a, b):
    """Syntactically equal values (no solver)."""
    return (a == b) is True


def ite(c, a, b):
    """a if c else b, without a branch."""
    if isinstance(c, SymBool):
        return SymReal(z3.If(c.e, SymReal.lift(a).expr(), SymReal.lift(b).expr()))
    return a if c else b
