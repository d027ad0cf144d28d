"""Symbolic scalars: sparse Laurent polynomials over exact complex rationals.

A ``Poly`` is a finite sum  coef * prod(atom ** e)  with rational exponents.
Atoms are named unknowns (inputs, oracle outputs) or defined quantities
(``exp(m)`` of a monomial, ``1/p`` of a non-monomial, ``abs``, ``root``).
Two contexts use the same class:

* algebraic   (ctx.T is None): everything exact;
* power series (ctx.T = order): the atom ``h`` (id 0) is a formal small
  parameter, monomials with h-exponent > T are dropped, exp and 1/p are
  expanded as series in h.

Comparisons on Poly are *branches* of the program under test: they are decided by
the solver when one outcome is infeasible and forked otherwise (lib/explore.py).
"""
from __future__ import annotations
from fractions import Fraction
import cmath, math
import numpy as np


class EngineError(Exception):
    """The code used something the encoding does not cover (an error exit)."""


# ----------------------------------------------------------------- coefficients
class CQ:
    """exact complex rational with nonzero imaginary part"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __eq__(self, o):
        if isinstance(o, CQ):
            return self.re == o.re and self.im == o.im
        return False if not isinstance(o, complex) else complex(self) == o

    def __hash__(self):
        return hash((self.re, self.im))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __neg__(self):
        return CQ(-self.re, -self.im)

    def __repr__(self):
        return f"({self.re}+{self.im}i)"


def cq(re, im):
    return re if im == 0 else CQ(re, im)


def c_add(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a + b
    if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        return c_num(a) + c_num(b)
    ar, ai = (a.re, a.im) if isinstance(a, CQ) else (a, 0)
    br, bi = (b.re, b.im) if isinstance(b, CQ) else (b, 0)
    return cq(ar + br, ai + bi)


def c_mul(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a * b
    if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        return c_num(a) * c_num(b)
    ar, ai = (a.re, a.im) if isinstance(a, CQ) else (a, 0)
    br, bi = (b.re, b.im) if isinstance(b, CQ) else (b, 0)
    return cq(ar * br - ai * bi, ar * bi + ai * br)


def c_inv(a):
    if type(a) is Fraction:
        return 1 / a
    if isinstance(a, CQ):
        d = a.re * a.re + a.im * a.im
        return cq(a.re / d, -a.im / d)
    return 1 / a


def c_conj(a):
    if type(a) is Fraction or isinstance(a, float):
        return a
    if isinstance(a, CQ):
        return CQ(a.re, -a.im)
    return a.conjugate()


def c_num(a):
    if type(a) is Fraction:
        return float(a)
    if isinstance(a, CQ):
        return complex(a)
    return a


def c_exact(a):
    return type(a) is Fraction or isinstance(a, CQ)


def c_re_im(a):
    if type(a) is Fraction or isinstance(a, float):
        return a, Fraction(0)
    if isinstance(a, CQ):
        return a.re, a.im
    return a.real, a.imag


_simp_cache = {}


def simp_float(x: float):
    """simplest rational that rounds to x, or x itself if there is no simple one"""
    r = _simp_cache.get(x)
    if r is not None:
        return r
    r = x
    if math.isfinite(x):
        if x == int(x) and abs(x) < 2**80:
            r = Fraction(int(x))
        else:
            f = Fraction(x).limit_denominator(10**6)
            if f != 0 and f.numerator / f.denominator == x and abs(x) > 1e-9:
                r = f
            else:
                s = repr(x)
                digits = s.split("e")[0].replace(".", "").replace("-", "").strip("0")
                if len(digits) <= 6:
                    r = Fraction(s)
                else:
                    m, e = math.frexp(x)
                    # short dyadics are exact
                    if Fraction(x).denominator <= 2**40:
                        r = Fraction(x)
    _simp_cache[x] = r
    return r


def to_coef(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise EngineError(f"non-finite constant {x} met symbolic value")
        return simp_float(x)
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if not cmath.isfinite(x):
            raise EngineError(f"non-finite constant {x} met symbolic value")
        a, b = simp_float(x.real), simp_float(x.imag)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return cq(a, b)
        return x
    if isinstance(x, CQ):
        return x
    return None


NUM = (bool, int, float, complex, np.number, np.bool_, Fraction, CQ)

# ----------------------------------------------------------------- atoms


class Atom:
    __slots__ = ("id", "name", "kind", "real", "pos", "nonneg", "integer", "arg", "conj", "lo", "hi", "extra")

    def __init__(self, id, name, kind, real=True, pos=False, nonneg=False, integer=False, arg=None, extra=None):
        self.id, self.name, self.kind = id, name, kind
        self.real, self.pos, self.nonneg, self.integer = real, pos, nonneg or pos, integer
        self.arg, self.extra = arg, extra
        self.conj = None

    def __repr__(self):
        return self.name


class Ctx:
    """one symbolic-execution context (fresh per path)"""

    def __init__(self, T=None):
        self.T = T
        self.atoms = []
        self.byname = {}
        self.h = self._new("h", "sym", real=True, pos=True)  # id 0
        self.branch = None  # set by explorer: callable(rel, poly) -> bool
        self.pc = []  # path condition: list of (rel, Poly)
        self.zero_div = False  # True: division by a symbol forks on zero (IEEE result); 'raise': Python floats
        self.eigdecomp = None
        self.notes = []

    def _new(self, name, kind, **kw):
        a = Atom(len(self.atoms), name, kind, **kw)
        self.atoms.append(a)
        self.byname[name] = a
        return a

    def atom(self, name, kind, **kw):
        a = self.byname.get(name)
        if a is None:
            a = self._new(name, kind, **kw)
        return a

    def sym(self, name, real=True, pos=False, nonneg=False, integer=False):
        """a fresh (or same-named) unknown as a Poly"""
        a = self.atom(name, "sym", real=real, pos=pos, nonneg=nonneg, integer=integer)
        return Poly({((a.id, 1),): Fraction(1)})


CTX: Ctx = Ctx()


def nm(kind, p):
    """readable unique atom name"""
    k = p.key()
    d = CTX.__dict__.setdefault("_names", {})
    r = d.get((kind, k))
    if r is None:
        s = repr(p)
        if len(s) > 60:
            s = f"#{len(d)}"
        r = d[(kind, k)] = f"{kind}[{s}]"
    return r


def set_ctx(c):
    global CTX
    CTX = c
    _mcache.clear()
    return c


def ctx():
    return CTX


_mcache = {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mcache.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mcache) < 2000000:
        _mcache[k] = r
    return r


def m_pow(m, e):
    return tuple((i, x * e) for i, x in m) if e != 0 else ()


def h_exp(m):
    return m[0][1] if m and m[0][0] == 0 else 0


class Poly:
    __slots__ = ("t", "_key")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        c = to_coef(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def lift(x):
        if isinstance(x, Poly):
            return x
        c = to_coef(x)
        if c is None:
            if isinstance(x, np.ndarray) and x.ndim == 0:
                return Poly.lift(x.item())
            raise EngineError(f"cannot lift {type(x)} to a symbolic scalar")
        return Poly({(): c} if c != 0 else {})

    def key(self):
        if self._key is None:
            self._key = frozenset((m, _ck(c)) for m, c in self.t.items())
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        if not self.t:
            return Fraction(0)
        return self.t[()]

    def exact(self):
        return all(c_exact(c) for c in self.t.values())

    def fast_real(self):
        return all(not isinstance(c, (CQ, complex)) or (isinstance(c, complex) and c.imag == 0) for c in self.t.values()) and all(
            CTX.atoms[i].real for m in self.t for i, _ in m
        )

    def is_real(self):
        if self.fast_real():
            return True
        # z + conj(z) and the like: every complex unknown appears together with its conjugate
        if len(self.t) > 400 or CTX.T is not None:
            return False
        at = self.atoms()
        for i in at:
            a = CTX.atoms[i]
            if not a.real and a.kind == "sym" and (a.conj is None or a.conj.id not in at):
                return False
        try:
            return not (self - self.conjugate()).t
        except EngineError:
            return False

    def is_int(self):
        return all(type(c) is Fraction and c.denominator == 1 for c in self.t.values()) and all(
            CTX.atoms[i].integer and e > 0 for m in self.t for i, e in m
        )

    def __repr__(self):
        if not self.t:
            return "0"
        s = []
        for m, c in list(self.t.items())[:12]:
            f = "*".join(CTX.atoms[i].name + (f"^{e}" if e != 1 else "") for i, e in m)
            s.append(f"{c}" + ("*" + f if f else ""))
        return " + ".join(s) + (" + ..." if len(self.t) > 12 else "")

    def __format__(self, spec):
        return "<sym>"

    __str__ = __repr__

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, NUM):
                if not _fin(o):
                    return _nonfin("add", o)
                o = Poly.const(o)
            else:
                return _defer("add", self, o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = c_add(x, c)
                if x == 0:
                    del r[m]
                else:
                    r[m] = x
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, NUM):
                if not _fin(o):
                    return _nonfin("sub", o)
                o = Poly.const(o)
            else:
                return _defer("subtract", self, o)
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, NUM):
            return (-self) + o
        return _defer("subtract", o, self)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, NUM):
                if not _fin(o):
                    return _nonfin("mul", o)
                c = to_coef(o)
                if c == 0:
                    return Poly({})
                if c == 1:
                    return self
                return Poly({m: c_mul(x, c) for m, x in self.t.items()})
            return _defer("multiply", self, o)
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) < len(b):
            a, b = b, a
        r = {}
        T = CTX.T
        if T is None:
            for m2, c2 in b.items():
                for m1, c1 in a.items():
                    m = m_mul(m1, m2)
                    c = c_mul(c1, c2)
                    x = r.get(m)
                    if x is None:
                        r[m] = c
                    else:
                        r[m] = c_add(x, c)
        else:
            for m2, c2 in b.items():
                lim = T - h_exp(m2)
                for m1, c1 in a.items():
                    if m1 and m1[0][0] == 0 and m1[0][1] > lim or (lim < 0 and h_exp(m1) > lim):
                        continue
                    m = m_mul(m1, m2)
                    c = c_mul(c1, c2)
                    x = r.get(m)
                    if x is None:
                        r[m] = c
                    else:
                        r[m] = c_add(x, c)
        r = {m: c for m, c in r.items() if c != 0}
        if _reduce_needed(r):
            return _reduce(Poly(r))
        return Poly(r)

    __rmul__ = __mul__

    def inverse(self):
        t = self.t
        if not t:
            raise ZeroDivisionError("symbolic division by an exact zero")
        if len(t) == 1:
            ((m, c),) = t.items()
            return _reduce(Poly({m_pow(m, -1): c_inv(c)}))
        if CTX.T is not None:
            lo = min(h_exp(m) for m in t)
            low = {m: c for m, c in t.items() if h_exp(m) == lo}
            if len(low) == 1:
                l = Poly(low).inverse()
                x = (self * l) - 1  # higher order in h
                # 1/(1+x) = sum (-x)^k
                r = Poly.const(1)
                p = Poly.const(1)
                for _ in range(4 * (CTX.T + 8)):
                    p = p * (-x)
                    if not p.t:
                        break
                    r = r + p
                else:
                    raise EngineError("series inversion did not terminate")
                return r * l
        # inverse atom of the normalised polynomial
        m0, c0 = min(t.items(), key=lambda kv: repr(kv[0]))
        n = self * Poly({(): c_inv(c0)})
        a = CTX.atom(nm("inv", n), "inv", real=n.is_real(), arg=n)
        return Poly({((a.id, 1),): c_inv(c0)})

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, NUM):
                if not _fin(o):
                    return _nonfin("div", o)
                c = to_coef(o)
                if c == 0:
                    return _div0(self)
                return self * Poly({(): c_inv(c)})
            return _defer("divide", self, o)
        if CTX.zero_div and not o.is_const():
            if CTX.branch("==", o):
                return _div0(self)
        if not o.t:
            return _div0(self)
        return self * o.inverse()

    def __rtruediv__(self, o):
        if isinstance(o, NUM):
            return Poly.lift(o).__truediv__(self)
        return _defer("divide", o, self)

    def __pow__(self, e):
        if isinstance(e, Poly):
            if e.is_const():
                e = e.const_value()
            else:
                raise EngineError("symbolic exponent")
        c = to_coef(e)
        if c is None:
            return _defer("power", self, e)
        if not isinstance(c, Fraction):
            raise EngineError(f"unsupported exponent {e}")
        if c.denominator == 1:
            n = int(c)
            if n < 0:
                return (Poly.const(1) / self) ** (-n)
            r, b = Poly.const(1), self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        return root(self, c)

    def __rpow__(self, b):
        if isinstance(b, NUM):
            # b**p = exp(p log b)
            if b == 1:
                return Poly.const(1)
            if b == -1 and self.is_const():
                return Poly.const((-1) ** int(self.const_value()))
            raise EngineError("constant to a symbolic power")
        return _defer("power", b, self)

    def __ceil__(self):
        from . import fpdom

        return fpdom.forkint(self, lambda k: self <= k)

    def __floor__(self):
        from . import fpdom

        return fpdom.forkint(self, lambda k: self < k + 1)

    def __trunc__(self):
        from . import fpdom

        if self < 0:
            return fpdom.forkint(self, lambda k: self <= k)
        return fpdom.forkint(self, lambda k: self < k + 1, 0)

    def __round__(self, n=None):
        from . import fpdom

        if n:
            if self.is_const():
                v = self.const_value()
                return Poly.lift(round(float(v), int(n)))
            if not self.is_real():
                raise EngineError("round to digits")
            # a fresh integer k with |x 10^n - k| <= 1/2
            k = CTX.sym(nm(f"rnd{n}", self), integer=True)
            s = Fraction(10) ** int(n)
            if (self.key(), "r", n) not in CTX.__dict__.setdefault("_divs", set()):
                CTX._divs.add((self.key(), "r", n))
                CTX.pc += [("<=", self * s - k - Fraction(1, 2)), (">=", self * s - k + Fraction(1, 2))]
            return k / s
        return fpdom.forkint(self, lambda k: self * 2 <= 2 * k + 1 if k % 2 == 0 else self * 2 < 2 * k + 1)

    def __divmod__(self, o):
        """integer division by a positive constant: fresh integers q, r with self = o q + r, 0 <= r < o"""
        if isinstance(o, Poly) and o.is_const():
            o = o.const_value()
        if not (self.is_int() and isinstance(o, (int, np.integer, Fraction)) and o > 0 and o == int(o)):
            raise EngineError("integer division of a symbolic value")
        o = int(o)
        if self.is_const():
            a, b = divmod(int(self), o)
            return Poly.const(a), Poly.const(b)
        q = CTX.sym(nm(f"quo{o}", self), integer=True)
        r = CTX.sym(nm(f"rem{o}", self), integer=True)
        if (self.key(), o) not in CTX.__dict__.setdefault("_divs", set()):
            CTX._divs.add((self.key(), o))
            CTX.pc += [("==", q * o + r - self), (">=", r), ("<", r - o)]
        return q, r

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return divmod(self, 2)[1]
        raise EngineError("bit operation on a symbolic value")

    __rand__ = __and__

    # -- comparisons are branches
    def _cmp(self, rel, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            if math.isnan(o):
                return rel == "!="
            big = o > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[rel]
        d = self - o
        if d is NotImplemented:
            return NotImplemented
        return decide(rel, d)

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        r = self._cmp("==", o)
        return False if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __ne__(self, o):
        r = self._cmp("!=", o)
        return True if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __hash__(self):
        # caches keyed by symbolic values hit for identical ones
        if self.is_const():
            return hash(self.const_value())
        if self.is_int():
            # a table keyed by small integers is looked up by value: one path for each
            for k in (0, 1, -1, 2, 3):
                if decide("==", self - k):
                    return hash(k)
        return hash(frozenset(self.t.items()))

    def __bool__(self):
        return decide("!=", self)

    def __float__(self):
        if self.is_const():
            return float(c_num(self.const_value()))
        raise EngineError("symbolic value concretised by float()")

    def __complex__(self):
        if self.is_const():
            return complex(c_num(self.const_value()))
        raise EngineError("symbolic value concretised by complex()")

    def __int__(self):
        if self.is_const() and type(self.const_value()) is Fraction:
            return int(self.const_value())
        raise EngineError("symbolic value concretised by int()")

    def __index__(self):
        if self.is_const() and type(self.const_value()) is Fraction and self.const_value().denominator == 1:
            return int(self.const_value())
        hook = getattr(ctx(), "arange_hook", None)  # harness: a symbolic size was accepted
        if hook is not None:
            hook(self)
        raise EngineError("symbolic value used as an index")

    # -- unary functions
    def conjugate(self):
        r = Poly({})
        for m, c in self.t.items():
            p = Poly({(): c_conj(c)})
            for i, e in m:
                p = p * (atom_conj(CTX.atoms[i]) ** e if not isinstance(e, Fraction) or e.denominator == 1 else _frac_pow_atom(atom_conj(CTX.atoms[i]), e))
            r = r + p
        return r

    conj = conjugate

    @property
    def real(self):
        if self.is_real():
            return self
        return (self + self.conjugate()) / 2

    @property
    def imag(self):
        if self.is_real():
            return Poly({})
        return (self - self.conjugate()) / Poly.const(2j)

    def __abs__(self):
        return absval(self)

    def exp(self):
        return expp(self)

    def sqrt(self):
        return root(self, Fraction(1, 2))

    def cosh(self):
        return (expp(self) + expp(-self)) / 2

    def sinh(self):
        return (expp(self) - expp(-self)) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def cos(self):
        i = Poly.const(1j)
        return (expp(i * self) + expp(-i * self)) / 2

    def sin(self):
        i = Poly.const(1j)
        return (expp(i * self) - expp(-i * self)) / Poly.const(2j)

    def expm1(self):
        return expp(self) - 1

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symarr

        return symarr.ufunc(ufunc, method, inputs, kw)

    def deriv(self, i):
        """partial derivative with respect to the real unknown of atom id i"""
        r = Poly({})
        for m, c in self.t.items():
            for j, e in m:
                d = _datom(CTX.atoms[j], i)
                if d.t:
                    r = r + Poly({m_mul(m, ((j, -1),)): c_mul(c, Fraction(e))}) * d
        return r

    # substitute atoms by Polys (dict atom id -> Poly)
    def subs(self, mp):
        r = Poly({})
        for m, c in self.t.items():
            p = Poly({(): c})
            rest = []
            for i, e in m:
                if i in mp:
                    p = p * (mp[i] ** e)
                else:
                    rest.append((i, e))
            r = r + p * Poly({tuple(rest): Fraction(1)})
        return r

    def hcoef(self, k):
        """coefficient polynomial of h**k"""
        return Poly({(m[1:] if m and m[0][0] == 0 else m): c for m, c in self.t.items() if h_exp(m) == k})

    def atoms(self):
        return {i for m in self.t for i, _ in m}


def _ck(c):
    return repr(c)


def _fin(o):
    if isinstance(o, (float, np.floating)):
        return math.isfinite(o)
    if isinstance(o, (complex, np.complexfloating)):
        return cmath.isfinite(complex(o))
    return True


def _nonfin(op, o):
    if op == "div":
        return Poly({})
    return float("nan") if isinstance(o, (float, np.floating)) and math.isnan(o) else (-o if op == "sub" else o)


def _div0(num):
    """IEEE result of num/0 (warnings ignored); sign handled for nonneg numerators"""
    if CTX.zero_div == "raise":  # Python floats
        raise ZeroDivisionError("float division by zero")
    if isinstance(num, Poly) and not num.is_const():
        if CTX.zero_div:
            if CTX.branch("==", num):
                return float("nan")
            if CTX.branch(">", num):
                return float("inf")
            return float("-inf")
        raise ZeroDivisionError("symbolic numerator over zero")
    v = num.const_value() if isinstance(num, Poly) else to_coef(num)
    if v == 0:
        return float("nan")
    return float("inf") if c_num(v) > 0 else float("-inf")


def _defer(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import symarr

        return symarr.ufunc(getattr(np, op), "__call__", (a, b), {})
    return NotImplemented


def _reduce_needed(t):
    for m in t:
        for i, e in m:
            k = CTX.atoms[i].kind
            if k == "root" and e >= CTX.atoms[i].extra:
                return True
    return False


def _reduce(p):
    """rewrite root atoms r**n -> radicand"""
    for _ in range(50):
        if not _reduce_needed(p.t):
            return p
        r = Poly({})
        for m, c in p.t.items():
            q = Poly({(): c})
            rest = []
            for i, e in m:
                a = CTX.atoms[i]
                if a.kind == "root" and e >= a.extra:
                    k = int(e // a.extra)
                    rem = e - k * a.extra
                    q = q * (a.arg ** k)
                    if rem:
                        rest.append((i, rem))
                else:
                    rest.append((i, e))
            r = r + q * Poly({tuple(rest): Fraction(1)})
        p = r
    raise EngineError("root reduction did not terminate")


def _frac_pow_atom(p, e):
    """p is a single-atom Poly (atom conj); raise to rational e"""
    ((m, c),) = p.t.items()
    if c == 1:
        return Poly({m_pow(m, e): Fraction(1)})
    raise EngineError("fractional power of conj")


def _datom(a, i):
    if a.id == i:
        return Poly.const(1)
    if a.kind == "sym":
        return Poly({})
    me = Poly({((a.id, 1),): Fraction(1)})
    d = a.arg.deriv(i)
    if not d.t:
        return d
    if a.kind == "exp":
        return me * d
    if a.kind == "inv":
        return -(me * me) * d
    raise EngineError(f"derivative of a {a.kind} atom")


def clear_inv(p):
    """p multiplied by the denominators of its 1/q atoms"""
    saveT, CTX.T = CTX.T, None
    try:
        for _ in range(50):
            inv = [i for i in p.atoms() if CTX.atoms[i].kind == "inv"]
            if not inv:
                return p
            i = inv[-1]
            K = max([e for m in p.t for j, e in m if j == i] + [0])
            r = Poly({})
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                r = r + Poly({tuple(x for x in m if x[0] != i): c}) * CTX.atoms[i].arg ** int(K - e)
            p = r
        raise EngineError("denominators not cleared")
    finally:
        CTX.T = saveT


def atom_conj(a):
    """conjugate of an atom as Poly"""
    if a.real:
        return Poly({((a.id, 1),): Fraction(1)})
    if a.conj is None:
        if a.kind == "sym":
            b = CTX._new("conj(" + a.name + ")", "sym", real=False)
            a.conj, b.conj = b, a
        elif a.kind == "exp":
            e = expp(a.arg.conjugate())
            return e
        elif a.kind == "inv":
            return a.arg.conjugate().inverse()
        elif a.kind == "root":
            return root(a.arg.conjugate(), Fraction(1, a.extra))
        else:
            raise EngineError(f"conjugate of {a.kind} atom")
    return Poly({((a.conj.id, 1),): Fraction(1)})


def expp(p):
    """exp of a Poly"""
    r = Poly.const(1)
    c0 = p.t.get((), None)
    if c0 is not None:
        if isinstance(c0, (float, complex)) or True:
            v = cmath.exp(complex(c_num(c0)))
            r = Poly.const(v.real if v.imag == 0 else v)
    rest = {m: c for m, c in p.t.items() if m != ()}
    T = CTX.T
    if T is not None:
        ser = {m: c for m, c in rest.items() if h_exp(m) > 0}
        rest = {m: c for m, c in rest.items() if h_exp(m) <= 0}
        if ser:
            x = Poly(ser)
            s, q = Poly.const(1), Poly.const(1)
            for k in range(1, 4 * (T + 8)):
                q = q * x * Fraction(1, k)
                if not q.t:
                    break
                s = s + q
            r = r * s
    for m, c in rest.items():
        re, im = c_re_im(c)
        for part, unit in ((re, Fraction(1)), (im, CQ(Fraction(0), Fraction(1)))):
            if part == 0:
                continue
            if isinstance(part, float):
                part = Fraction(part)
            arg = Poly({m: unit})
            realm = all(CTX.atoms[i].real for i, _ in m)
            isreal = realm and unit == 1
            a = CTX.atom(nm("exp", arg), "exp", real=isreal, pos=isreal, arg=arg)
            e = int(part) if part.denominator == 1 else part
            r = r * Poly({((a.id, e),): Fraction(1)})
    return r


def absval(p):
    if p.is_const():
        v = p.const_value()
        if isinstance(v, (Fraction, float)):
            return Poly.const(abs(v))
        return Poly.const(abs(complex(c_num(v))))
    t = p.t
    if len(t) == 1:
        ((m, c),) = t.items()
        v = abs(c) if isinstance(c, (Fraction, float)) else None
        if v is None:
            if isinstance(c, CQ) and c.re == 0:
                v = abs(c.im)
            else:
                v = to_coef(abs(complex(c_num(c))))
        r = Poly({(): v})
        for i, e in m:
            r = r * _abs_atom(CTX.atoms[i], e)
        return r
    if p.is_real():
        # decide sign when possible without forking: keep as an atom  |p|, |p|>=0, |p|^2=p^2
        pass
    m0, c0 = min(t.items(), key=lambda kv: repr(kv[0]))
    if p.is_real():
        n = p * Poly({(): c_inv(abs(c0) if isinstance(c0, (Fraction, float)) else c0)})
        if n.t[m0] != 1 and c_num(n.t[m0]) < 0:
            n = -n
        a = CTX.atom(nm("abs", n), "abs", real=True, nonneg=True, arg=n)
        return Poly({((a.id, 1),): Fraction(1)}) * abs(c0)
    n = p * Poly({(): c_inv(c0)})
    a = CTX.atom(nm("abs", n), "abs", real=True, nonneg=True, arg=n)
    return Poly({((a.id, 1),): Fraction(1)}) * Poly.const(abs(complex(c_num(c0))) if not isinstance(c0, Fraction) else abs(c0))


def _abs_atom(a, e):
    if a.nonneg:
        return Poly({((a.id, e),): Fraction(1)})
    if a.kind == "exp" and not a.real:
        # |exp(w)| = exp(Re w)
        return expp(a.arg.real * e)
    if a.real and (not isinstance(e, Fraction)) and e % 2 == 0:
        return Poly({((a.id, e),): Fraction(1)})
    arg = Poly({((a.id, 1),): Fraction(1)})
    b = CTX.atom("abs[" + a.name + "]", "abs", real=True, nonneg=True, arg=arg)
    return Poly({((b.id, e),): Fraction(1)})


def root(p, c):
    """p ** c for a non-integer rational c >= 0 semantic: principal root of nonneg real"""
    n = c.denominator
    if p.is_const():
        v = p.const_value()
        if v == 0:
            return Poly({})
        v = c_num(v)
        if isinstance(v, complex):
            raise EngineError("root of complex constant")
        return Poly.const(v ** float(c))
    if len(p.t) == 1:
        ((m, k),) = p.t.items()
        if all(CTX.atoms[i].kind == "exp" and CTX.atoms[i].real for i, _ in m):
            base = Poly({m_pow(m, c): Fraction(1)})
            return base * root(Poly({(): k}), c) if k != 1 else base
    if CTX.T is not None:
        b = Poly({m: v for m, v in p.t.items() if h_exp(m) == 0})
        if all(h_exp(m) >= 0 for m in p.t) and b.is_const() and b.t and type(b.const_value()) is Fraction and b.const_value() > 0 and len(p.t) > 1:
            x = (p - b) / b.const_value()
            r, term = Poly.const(1), Poly.const(1)
            for k in range(1, int(CTX.T) + 1):
                term = term * x * ((c - k + 1) / k)
                r = r + term
            return r * root(b, c)
    if not p.is_real():
        if n != 2:
            raise EngineError("fractional power of a complex value")
        a = CTX.atom(nm("root2", p), "root", real=False, arg=p, extra=2)
    else:
        a = CTX.atom(nm(f"root{n}", p), "root", real=True, nonneg=True, arg=p, extra=n)
    r = Poly({((a.id, 1),): Fraction(1)})
    k = c.numerator
    return r ** k if k != 1 else r


def decide(rel, d):
    """truth of  d rel 0"""
    if d.is_const():
        v = d.const_value()
        if isinstance(v, (CQ, complex)):
            if rel == "==":
                return v == 0
            if rel == "!=":
                return v != 0
            raise EngineError("ordering of complex values")
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[rel]
    if CTX.branch is None:
        raise EngineError(f"undetermined branch {d!r} {rel} 0")
    return CTX.branch(rel, d)
