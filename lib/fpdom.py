"""IEEE floating-point symbolic scalars (z3 FloatingPoint), for the code whose properties are about doubles."""
from __future__ import annotations
import math
import numpy as np
import z3
from . import poly as P, symarr as S, explore
from .poly import EngineError, Poly

RNE = z3.RNE()
SORT = z3.Float64()


def set_sort(s):
    global SORT
    SORT = s


def val(x):
    if isinstance(x, FP):
        return x.e
    if isinstance(x, Poly):
        if x.is_const():
            x = float(x)
        else:
            raise EngineError("mix of exact and floating-point symbolic values")
    if isinstance(x, (bool, int, float, np.number)) or hasattr(x, "numerator"):
        x = float(x)
        if math.isnan(x):
            return z3.fpNaN(SORT)
        if math.isinf(x):
            return z3.fpPlusInfinity(SORT) if x > 0 else z3.fpMinusInfinity(SORT)
        return z3.FPVal(x, SORT)
    return None


def br(e):
    return P.ctx().branch_z3(e)


def fAdd(a, b):
    return z3.fpAdd(RNE, a, b)


def fSub(a, b):
    return z3.fpSub(RNE, a, b)


def fMul(a, b):
    return z3.fpMul(RNE, a, b)


OPS = {fAdd: np.add, fSub: np.subtract, fMul: np.multiply}


class FP(S.FPBase):
    """np: numpy scalar semantics (division by zero gives inf/nan) instead of Python's (raises)"""

    __array_priority__ = 1000

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return S.ufunc(uf, method, inputs, kw)

    def __init__(self, e, np_=False):
        self.e = z3.simplify(e) if z3.is_app(e) and e.num_args() else e
        self.np = np_

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            return S.ufunc(OPS[f], "__call__", (o, self) if swap else (self, o), {})
        b = val(o)
        if b is None:
            return NotImplemented
        n = self.np or isinstance(o, (np.number,)) or (isinstance(o, FP) and o.np)
        return FP(f(b, self.e) if swap else f(self.e, b), n)

    def __add__(self, o):
        return self._bin(o, fAdd)

    def __radd__(self, o):
        return self._bin(o, fAdd, True)

    def __sub__(self, o):
        return self._bin(o, fSub)

    def __rsub__(self, o):
        return self._bin(o, fSub, True)

    def __mul__(self, o):
        return self._bin(o, fMul)

    def __rmul__(self, o):
        return self._bin(o, fMul, True)

    def _div(self, a, b, n):
        if not n:
            e = z3.simplify(z3.fpIsZero(b))
            if br(e):
                raise ZeroDivisionError("float division by zero")
        return FP(z3.fpDiv(RNE, a, b), n)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return S.ufunc(np.divide, "__call__", (self, o), {})
        b = val(o)
        if b is None:
            return NotImplemented
        return self._div(self.e, b, self.np or isinstance(o, np.number) or (isinstance(o, FP) and o.np))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return S.ufunc(np.divide, "__call__", (o, self), {})
        b = val(o)
        if b is None:
            return NotImplemented
        return self._div(b, self.e, self.np or isinstance(o, np.number))

    def __neg__(self):
        return FP(z3.fpNeg(self.e), self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return FP(z3.fpAbs(self.e), self.np)

    def __pow__(self, o):
        return power(self, o)

    def _cmp(self, o, f):
        b = val(o)
        if b is None:
            return NotImplemented
        return br(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        b = val(o)
        if b is None:
            return False
        return br(z3.fpEQ(self.e, b))

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return br(z3.Not(z3.fpIsZero(self.e)))

    def __float__(self):
        raise EngineError("concrete value of a symbolic float")

    def __int__(self):
        raise EngineError("int() of a symbolic float")

    __index__ = __int__

    def __format__(self, s):
        return "<fp>"

    def __repr__(self):
        return "<fp>"

    def isnan(self):
        return br(z3.fpIsNaN(self.e))

    def isinf(self):
        return br(z3.fpIsInf(self.e))

    def isfinite(self):
        return not br(z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e)))

    def sqrt(self):
        return FP(z3.fpSqrt(RNE, self.e), self.np)

    def conjugate(self):
        return self

    def is_integer(self):
        return br(z3.fpEQ(z3.fpRoundToIntegral(RNE, self.e), self.e))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_const(self):
        return False


def power(x, e):
    """x ** e for 0 < e < 1: an uninterpreted function with the special values of pow"""
    e = float(e)
    if e == 2:
        return x * x
    if not 0 < e < 1:
        raise EngineError(f"floating-point power {e}")
    c = P.ctx()
    k = c.__dict__.setdefault("_pow", {})
    key = (x.e.sexpr(), e)
    if key not in k:
        r = z3.FP(f"pow{len(k)}", SORT)
        z, one = z3.FPVal(0.0, SORT), z3.FPVal(1.0, SORT)
        inf = z3.fpPlusInfinity(SORT)
        c.pc.append(
            z3.And(
                z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x.e), z3.fpLT(x.e, z)),
                z3.Implies(z3.fpIsInf(x.e), z3.Implies(z3.fpGT(x.e, z), r == inf)),
                z3.Implies(z3.fpIsInf(r), z3.fpIsInf(x.e)),
                z3.Implies(z3.fpGEQ(x.e, z), z3.fpGEQ(r, z)),
                z3.Implies(z3.fpIsZero(x.e), z3.fpIsZero(r)),
                z3.Implies(z3.fpGEQ(x.e, one), z3.fpGEQ(r, one)),
                z3.Implies(z3.And(z3.fpGEQ(x.e, z), z3.fpLEQ(x.e, one)), z3.fpLEQ(r, one)),
            )
        )
        k[key] = FP(r, True)
    return k[key]


def sym(name, np_=False, finite=True):
    v = z3.FP(name, SORT)
    if finite:
        P.ctx().pc.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
    return FP(v, np_)


def fmax(a, b):
    """np.maximum: NaN propagates"""
    ea, eb = val(a), val(b)
    return FP(z3.If(z3.fpIsNaN(ea), ea, z3.If(z3.fpIsNaN(eb), eb, z3.If(z3.fpGEQ(ea, eb), ea, eb))), True)


def fmin(a, b):
    ea, eb = val(a), val(b)
    return FP(z3.If(z3.fpIsNaN(ea), ea, z3.If(z3.fpIsNaN(eb), eb, z3.If(z3.fpLEQ(ea, eb), ea, eb))), True)


def arange(*a):
    """np.arange over doubles: length ceil((stop-start)/step), elements start + i*delta"""
    if len(a) == 1:
        a = (0.0, a[0], 1.0)
    elif len(a) == 2:
        a = (a[0], a[1], 1.0)
    lo, hi, st = (FP(val(x), True) for x in a)
    q = (hi - lo) / st
    n = 0
    while q > float(n):  # forks; the caller bounds the length
        n += 1
        if n > getattr(P.ctx(), "arange_max", 64):
            raise P.EngineError("arange length bound")
    r = np.empty(n, dtype=object)
    if n:
        d = (lo + st) - lo
        for i in range(n):
            r[i] = lo if i == 0 else (lo + st if i == 1 else lo + d * float(i))
    return S.wrap(r, "f")


def model_float(m, v):
    """value of an FP constant in a model as a Python float"""
    x = m.eval(v.e if isinstance(v, FP) else v, model_completion=True)
    if z3.is_fp_value(x):
        if x.isNaN():
            return math.nan
        if x.isInf():
            return -math.inf if x.isNegative() else math.inf
        s = -1.0 if x.sign() else 1.0
        if x.isZero():
            return s * 0.0
        eb, sb = x.sort().ebits(), x.sort().sbits()
        sig = x.significand_as_long()
        ex = x.exponent_as_long(True)
        bias = 2 ** (eb - 1) - 1
        if ex == 0:
            return s * sig * 2.0 ** (1 - bias - (sb - 1))
        return s * math.ldexp(2 ** (sb - 1) + sig, ex - bias - (sb - 1))
    return float("nan")


# ------------------------------------------------------------------ rounded reals
U53 = z3.Q(1, 2**53)


def nonfinite(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


class RF(S.FPBase):
    """a double as a real number; every operation returns the exact result up to the relative
    rounding error 2^-53 (a fresh value in that interval): linear arithmetic for add, sub and scaling"""

    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return S.ufunc(uf, method, inputs, kw)

    @staticmethod
    def lift(x):
        if isinstance(x, RF):
            return x.e
        if isinstance(x, Poly):
            if not x.is_const():
                raise EngineError("mix of exact and rounded symbolic values")
            x = float(x)
        if isinstance(x, (bool, int, float, np.number)) or hasattr(x, "numerator"):
            if not isinstance(x, int) and not math.isfinite(float(x)):
                raise EngineError("non-finite constant with a rounded real")
            return explore.rat(float(x) if not isinstance(x, int) else x)
        return None

    @staticmethod
    def const(e):
        e = z3.simplify(e)
        return e.as_fraction() if z3.is_rational_value(e) else None

    @staticmethod
    def rnd(x):
        x = z3.simplify(x)
        c = RF.const(x)
        if c is not None:
            return RF(explore.rat(float(c)))
        k = P.ctx().__dict__.setdefault("_rnd", {})
        key = x.sexpr()
        if key not in k:
            r = z3.Real(f"rnd{len(k)}")
            d = U53 * z3.If(x >= 0, x, -x)
            P.ctx().pc.append(z3.And(r - x <= d, x - r <= d))
            k[key] = r
        return RF(k[key])

    def _bin(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return S.ufunc(getattr(np, op), "__call__", (o, self) if swap else (self, o), {})
        if nonfinite(o):
            return self._nonfin(float(o), op, swap)
        b = RF.lift(o)
        if b is None:
            return NotImplemented
        x, y = (b, self.e) if swap else (self.e, b)
        if op == "add":
            return RF(y) if RF.const(x) == 0 else RF(x) if RF.const(y) == 0 else RF.rnd(x + y)
        if op == "subtract":
            return RF(x) if RF.const(y) == 0 else RF.rnd(x - y)
        cx, cy = RF.const(x), RF.const(y)
        if op == "multiply":
            for c, v in ((cx, y), (cy, x)):
                if c is not None:
                    p = abs(c)
                    if p == 0:
                        return RF(z3.RealVal(0))
                    if p.numerator & (p.numerator - 1) == 0 and p.denominator & (p.denominator - 1) == 0:
                        return RF(z3.simplify(c.numerator * v / c.denominator))  # powers of two are exact
                    return RF.rnd(explore.rat(c) * v)
            return RF.fresh()
        if op == "divide":
            if cy is not None and cy != 0:
                p = abs(cy)
                if p.numerator & (p.numerator - 1) == 0 and p.denominator & (p.denominator - 1) == 0:
                    return RF(z3.simplify(x * explore.rat(1 / cy)))
                return RF.rnd(x * explore.rat(1 / cy))
            if br(y == 0):
                raise ZeroDivisionError("float division by zero")
            return RF.quot(x, y)
        raise EngineError(op)

    def _nonfin(self, o, op, swap):
        """result with an infinity or NaN: depends on the sign of self at most"""
        if op == "add" or math.isnan(o):
            return o
        if op == "subtract":
            return o if swap else -o
        if op == "divide" and not swap:
            return 0.0
        if op == "divide" and br(self.e == 0):
            raise ZeroDivisionError("float division by zero")
        if op == "multiply" and br(self.e == 0):
            return math.nan
        return o if br(self.e > 0) else -o

    @staticmethod
    def quot(x, y):
        """x / y, by the exact quotient q with q*y == x"""
        return LazyRF(x, y)

    @staticmethod
    def number():
        n = P.ctx().__dict__.setdefault("_any", [0])
        n[0] += 1
        return n[0]

    @staticmethod
    def fresh():
        return RF(z3.Real(f"any{RF.number()}"))

    def __add__(self, o):
        return self._bin(o, "add")

    __radd__ = lambda self, o: self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "subtract")

    def __rsub__(self, o):
        return self._bin(o, "subtract", True)

    def __mul__(self, o):
        return self._bin(o, "multiply")

    def __rmul__(self, o):
        return self._bin(o, "multiply", True)

    def __truediv__(self, o):
        return self._bin(o, "divide")

    def __rtruediv__(self, o):
        return self._bin(o, "divide", True)

    def __neg__(self):
        return RF(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return RF(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if nonfinite(o):
            return bool(f(0.0, float(o)))
        b = RF.lift(o)
        if b is None:
            return NotImplemented
        return br(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if nonfinite(o):
            return False
        b = RF.lift(o)
        return False if b is None else br(self.e == b)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return br(self.e != 0)

    def __float__(self):
        raise EngineError("concrete value of a symbolic float")

    def __trunc__(self):
        if self < 0:
            return forkint(self, lambda k: self <= k)
        return forkint(self, lambda k: self < k + 1, 0)

    __int__ = __trunc__

    def __ceil__(self):
        return forkint(self, lambda k: self <= k)

    def ceil(self):
        return self.__ceil__()

    def __floor__(self):
        return forkint(self, lambda k: self < k + 1)

    def floor(self):
        return self.__floor__()

    def rint(self):
        return self.__round__()

    def __round__(self, n=None):
        if n:
            raise EngineError("round to digits")
        def near(k):
            b = explore.rat(2 * k + 1)
            if k % 2 == 0:
                return br(self.e * 2 <= b)
            return br(self.e * 2 < b)
        return forkint(self, near)

    def __format__(self, s):
        return "<fp>"

    def __repr__(self):
        return "<fp>"

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def conjugate(self):
        return self

    def is_integer(self):
        raise EngineError("is_integer")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_const(self):
        return False


class LazyRF(RF):
    """a quotient nobody has looked at yet (only shown in a message, say): its nonlinear definition is stated on first use"""

    def __init__(self, x, y):
        self._xy, self._v = (x, y), None

    @property
    def e(self):
        if self._v is None:
            x, y = self._xy
            q = z3.Real(f"quot{RF.number()}")
            P.ctx().pc.append(q * y == x)
            self._v = RF.rnd(q).e
        return self._v



INTMAX = 24


def forkint(x, le, lo=-1):
    """smallest integer k >= lo accepted by le (forks); values outside [lo, INTMAX] are outside the bound"""
    for k in range(lo, getattr(P.ctx(), "intmax", INTMAX) + 1):
        if le(k):
            return k
    raise explore.PathAbort()


def rsym(name):
    return RF(z3.Real(name))
