"""SymArray: numpy arrays of symbolic scalars with faithful dtype/view/in-place behaviour.

An ndarray subclass over object storage plus a logical dtype (b/i/f/c).  Views,
slices, fancy and boolean indexing, in-place updates and aliasing are numpy's own;
arithmetic goes through ``ufunc`` below.
"""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
from . import poly as P
from .poly import Poly, EngineError, NUM, CQ

ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}
DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64), "c": np.dtype(np.complex128)}


class FPBase:
    """marker base class for floating-point symbolic scalars (lib/fpdom.py)"""

    kind = "f"


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    k = np.dtype(dt).kind
    if k == "u":
        return "i"
    if k not in ORDER:
        raise EngineError(f"dtype {dt} not encoded")
    if np.dtype(dt) not in (DT["b"], DT["i"], DT["f"], DT["c"]) and k in "fc":
        return k + "!"  # reduced precision storage
    return k


def elem_kind(x):
    if isinstance(x, Poly):
        if x.is_int() and not x.is_const():
            return "i"
        return "f" if x.is_real() else "c"
    if isinstance(x, FPBase):
        return "f"
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    if isinstance(x, (complex, np.complexfloating, CQ)):
        return "c"
    raise EngineError(f"value of type {type(x).__name__} inside a symbolic array")


def infer_kind(a):
    k = "b"
    for x in a.flat:
        e = elem_kind(x)
        if ORDER[e] > ORDER[k]:
            k = e
            if k == "c":
                break
    return k if a.size else "f"


class SymArray(np.ndarray):
    kind = "f"

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self.kind = getattr(obj, "kind", "f")

    # numpy's C code uses the storage dtype; python code sees the logical dtype
    @property
    def dtype(self):
        return DT[self.kind]

    @dtype.setter
    def dtype(self, v):
        raise EngineError("dtype assignment")

    def __setitem__(self, idx, val):
        plain(self)[_idx(idx)] = coerce(val, self.kind)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, _idx(idx))
        return r

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        k = kind_of_dtype(dtype)
        if len(k) > 1:
            raise EngineError("reduced precision dtype")
        if k == self.kind and not copy:
            return self
        return wrap(coerce(np.array(plain(self), dtype=object), k, warn=True), k)

    @property
    def real(self):
        return wrap(vec(lambda x: x.real, plain(self)), "f" if self.kind == "c" else self.kind)

    @real.setter
    def real(self, v):
        raise EngineError("real assignment")

    @property
    def imag(self):
        return wrap(vec(lambda x: x.imag, plain(self)), "f" if self.kind == "c" else self.kind)

    @imag.setter
    def imag(self, v):
        raise EngineError("imag assignment")

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def dot(self, b, out=None):
        if out is not None:
            out[...] = func_dot(self, b)
            return out
        return func_dot(self, b)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, keepdims=keepdims) if axis is not None else np.add.reduce(self.ravel())

    def mean(self, axis=None, **k):
        return _mean(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return np.multiply.reduce(self, axis=axis) if axis is not None else np.multiply.reduce(self.ravel())

    def max(self, axis=None, **k):
        return np.maximum.reduce(self.ravel() if axis is None else self, axis=0 if axis is None else axis)

    def min(self, axis=None, **k):
        return np.minimum.reduce(self.ravel() if axis is None else self, axis=0 if axis is None else axis)

    def any(self, *a, **k):
        return any(bool(x) for x in plain(self).flat)

    def all(self, *a, **k):
        return all(bool(x) for x in plain(self).flat)

    def nonzero(self):
        return np.nonzero(vec(lambda x: bool(x), plain(self)).astype(bool))

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return plain(self).item(*a)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(plain(self).flat[0])

    def __reduce__(self):
        raise EngineError("pickle of symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f"SymArray<{self.kind}>({plain(self).tolist()!r})"

    __str__ = __repr__

    def __format__(self, s):
        return "<symarray>"


# methods that delegate to functions in our table
def _mk(name):
    f = getattr(np, name)

    def m(self, *a, **k):
        return f(self, *a, **k)

    return m


for _n in ("cumsum", "cumprod", "clip", "argmax", "argmin", "std", "var", "round", "searchsorted", "ptp", "trace"):
    if hasattr(np, _n):
        setattr(SymArray, _n, _mk(_n))


def _idx(i):
    if isinstance(i, SymArray):
        if i.kind == "b":
            return vec(bool, plain(i)).astype(bool)
        return plain(i).astype(int)
    if isinstance(i, tuple):
        return tuple(_idx(x) for x in i)
    return i


def plain(a):
    if isinstance(a, SymArray):
        return np.ndarray.view(a, np.ndarray)
    return a


def wrap(a, kind):
    r = np.asarray(a, dtype=object)
    r = np.ndarray.view(r, SymArray)
    r.kind = kind
    return r


def vec(f, a):
    r = np.empty(a.shape, dtype=object)
    rf, af = r.reshape(-1), a.reshape(-1) if a.ndim else a.reshape(1)
    rf = r.reshape(-1) if r.ndim else None
    if rf is None:
        r[()] = f(a[()])
        return r
    for i in range(af.size):
        rf[i] = f(af[i])
    return r


class ComplexWarningHit(UserWarning):
    pass


def truncated(x):
    """float stored in an integer array: the integer part (a fresh integer tied to x)"""
    if not isinstance(x, Poly) or not x.is_real():
        raise EngineError("symbolic float stored in an integer array")
    c = P.CTX
    k = 1 + getattr(c, "ntrunc", 0)
    c.ntrunc = k
    y = c.sym(f"trunc{k}", integer=True)
    if c.branch(">=", x):
        c.pc += [("<=", y - x), (">", y + 1 - x)]
    else:
        c.pc += [(">=", y - x), ("<", y - 1 - x)]
    return y


def coerce(val, kind, warn=False):
    """value(s) as stored into an array of logical kind `kind` (numpy unsafe setitem semantics)"""
    isarr = isinstance(val, (np.ndarray, list, tuple))
    a = val
    if isinstance(val, (list, tuple)):
        a = np_array(val)
    a = plain(a)
    if isarr and a.dtype != object:
        a = a.astype(object)

    def one(x):
        k = elem_kind(x)
        if ORDER[k] <= ORDER[kind]:
            if kind == "c" and isinstance(x, (bool, np.bool_, np.number)):
                return x.item() if hasattr(x, "item") else int(x)
            return x
        if kind == "f":  # complex -> float drops the imaginary part (ComplexWarning)
            return x.real
        if kind == "i" and k == "f":
            if isinstance(x, (float, np.floating)):
                return int(x)
            return truncated(x)
        if kind == "i":
            return one(x.real)
        if kind == "b":
            return bool(x)
        return x

    if not isarr:
        return one(a)
    return vec(one, a)


def lift_arr(x):
    """-> (plain object array or scalar, kind)"""
    if isinstance(x, SymArray):
        return plain(x), x.kind
    if isinstance(x, (Poly, FPBase)):
        return x, elem_kind(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x, infer_kind(x)
        return x, x.dtype.kind if x.dtype.kind != "u" else "i"
    if isinstance(x, NUM):
        return x, elem_kind(x)
    if isinstance(x, (list, tuple)):
        return lift_arr(np_array(x))
    raise EngineError(f"operand of type {type(x).__name__}")


def np_array(x, dtype=None, copy=True):
    """np.array over possibly nested sequences with symbolic leaves"""
    if isinstance(x, SymArray):
        if dtype is not None:
            return x.astype(dtype, copy=copy)
        return x.copy() if copy else x
    if isinstance(x, (Poly, FPBase)):
        a = np.empty((), dtype=object)
        a[()] = x
        k = kind_of_dtype(dtype) if dtype is not None else elem_kind(x)
        return wrap(coerce(a, k), k)
    if isinstance(x, (list, tuple)):
        if any(_has_sym(e) for e in x):
            parts = [np_array(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x]
            if isinstance(parts[0], np.ndarray):
                a = np.stack([np.asarray(plain(p), dtype=object) for p in parts])
            else:
                a = np.empty(len(parts), dtype=object)
                for i, e in enumerate(parts):
                    a[i] = e.item() if isinstance(e, np.ndarray) else e
            k = kind_of_dtype(dtype) if dtype is not None else infer_kind(a)
            return wrap(coerce(a, k), k)
    if isinstance(x, np.ndarray) and x.dtype == object:
        k = kind_of_dtype(dtype) if dtype is not None else infer_kind(x)
        return wrap(coerce(np.array(x), k), k)
    r = np.array(x, dtype=dtype) if copy else np.asarray(x, dtype=dtype)
    return r


def _has_sym(e):
    if isinstance(e, (Poly, SymArray, FPBase)):
        return True
    if isinstance(e, (list, tuple)):
        return any(_has_sym(x) for x in e)
    return isinstance(e, np.ndarray) and e.dtype == object


def force_sym(a):
    """numeric ndarray -> SymArray (used for creation functions)"""
    a = np.asarray(a)
    k = a.dtype.kind
    if k == "u":
        k = "i"
    if k not in ORDER:
        raise EngineError(f"array of dtype {a.dtype}")
    if k in "fc" and a.dtype not in (DT["f"], DT["c"]):
        raise EngineError("reduced precision dtype")
    return wrap(a.astype(object), k)


def symmax(a, b):
    if isinstance(a, float) and math.isnan(a):
        return a
    if isinstance(b, float) and math.isnan(b):
        return b
    if isinstance(a, FPBase) or isinstance(b, FPBase):
        from . import fpdom

        return fpdom.fmax(a, b)
    return a if _lex_ge(a, b) else b


def _lex_ge(a, b):
    """numpy's order on complex numbers is lexicographic"""
    if elem_kind(a) == "c" or elem_kind(b) == "c":
        ar, br = a.real, b.real
        if ar == br:
            return bool(a.imag >= b.imag)
        return bool(ar > br)
    return bool(a >= b)


def symmin(a, b):
    if isinstance(a, float) and math.isnan(a):
        return a
    if isinstance(b, float) and math.isnan(b):
        return b
    if isinstance(a, FPBase) or isinstance(b, FPBase):
        from . import fpdom

        return fpdom.fmin(a, b)
    return a if _lex_ge(b, a) else b


def _unary(name):
    npf = getattr(np, name)

    def f(x):
        if isinstance(x, (Poly, FPBase)):
            m = getattr(x, name, None)
            if m is None:
                raise EngineError(f"np.{name} of a symbolic value")
            return m()
        if isinstance(x, (Fraction, CQ)):
            return getattr(Poly.const(x), name)()
        r = npf(x)
        return r.item() if hasattr(r, "item") else r

    return f


def _abs(x):
    return abs(x) if not isinstance(x, CQ) else abs(complex(x))


UN = {}
for _n in ("exp", "sqrt", "cosh", "sinh", "tanh", "cos", "sin", "expm1", "log", "log1p", "exp2", "log2", "log10", "tan", "arctan", "arccos", "arcsin"):
    UN[_n] = _unary(_n)
UN["absolute"] = _abs
UN["fabs"] = _abs
UN["conjugate"] = lambda x: x.conjugate()
UN["negative"] = lambda x: -x
UN["positive"] = lambda x: x
UN["square"] = lambda x: x * x
UN["reciprocal"] = lambda x: 1 / x
UN["deg2rad"] = UN["radians"] = lambda x: x * (math.pi / 180)
UN["rad2deg"] = UN["degrees"] = lambda x: x * (180 / math.pi)
UN["logical_not"] = lambda x: not x
UN["invert"] = lambda x: (not x)


def _sign(x):
    if isinstance(x, (Poly,)):
        return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)
    return float(np.sign(x))


UN["sign"] = _sign


def _rounder(name, dunder):
    npf = getattr(np, name)

    def f(x):
        if isinstance(x, (Poly, FPBase)):
            return float(getattr(x, dunder)())
        return float(npf(x))

    return f


for _n, _d in (("ceil", "__ceil__"), ("floor", "__floor__"), ("rint", "__round__"), ("trunc", "__trunc__")):
    UN[_n] = _rounder(_n, _d)


def _isnan(x):
    if isinstance(x, Poly):
        return False
    if isinstance(x, FPBase):
        return x.isnan()
    return bool(np.isnan(x))


def _isinf(x):
    if isinstance(x, Poly):
        return False
    if isinstance(x, FPBase):
        return x.isinf()
    return bool(np.isinf(x))


UN["isnan"] = _isnan
UN["isinf"] = _isinf
UN["isfinite"] = lambda x: not (_isnan(x) or _isinf(x))
KEEPK = {"conjugate", "negative", "positive", "square", "sign"}
BOOLK = {"isnan", "isinf", "isfinite", "logical_not"}


def npdiv(a, b):
    if isinstance(b, (Poly, FPBase)) or isinstance(a, (Poly, FPBase)):
        return a / b
    if b == 0:
        with np.errstate(all="ignore"):
            r = np.divide(a, b)
        return r.item()
    return a / b


def nppow(a, b):
    if isinstance(a, (Poly, FPBase)) or isinstance(b, (Poly, FPBase)):
        return a**b
    with np.errstate(all="ignore"):
        return np.power(float(a) if isinstance(a, int) and b < 0 else a, b).item()


BIN = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": npdiv,
    "power": nppow,
    "float_power": nppow,
    "maximum": symmax,
    "minimum": symmin,
    "fmax": symmax,
    "fmin": symmin,
    "less": lambda a, b: bool(a < b),
    "less_equal": lambda a, b: bool(a <= b),
    "greater": lambda a, b: bool(a > b),
    "greater_equal": lambda a, b: bool(a >= b),
    "equal": lambda a, b: bool(a == b),
    "not_equal": lambda a, b: bool(a != b),
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_xor": lambda a, b: bool(a) != bool(b),
    "bitwise_and": lambda a, b: bool(a) and bool(b),
    "bitwise_or": lambda a, b: bool(a) or bool(b),
    "bitwise_xor": lambda a, b: bool(a) != bool(b),
    "hypot": lambda a, b: UN["sqrt"](a * a + b * b),
    "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a),
    "heaviside": lambda a, b: 0.0 if a < 0 else (1.0 if a > 0 else b),
    "floor_divide": lambda a, b: UN["floor"](npdiv(a, b)) if not (elem_kind(a) == "i" and elem_kind(b) == "i") else a // b,
    "remainder": lambda a, b: a - b * UN["floor"](npdiv(a, b)) if not (elem_kind(a) == "i" and elem_kind(b) == "i") else a % b,
    "fmod": lambda a, b: a - b * UN["trunc"](npdiv(a, b)),
}
BIN["mod"] = BIN["remainder"]
CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor"}
BITB = {"bitwise_and", "bitwise_or", "bitwise_xor"}


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    dtype = kw.pop("dtype", None)
    if isinstance(out, tuple):
        out = out[0] if out else None
    ops = [lift_arr(x) for x in inputs] if method in ("__call__", "outer") else None
    if method == "__call__":
        if name in UN and len(ops) == 1:
            a, k = ops[0]
            f = UN[name]
            if isinstance(a, np.ndarray):
                r = vec(f, a.astype(object) if a.dtype != object else a)
            else:
                r = f(a)
            if name in BOOLK or (name == "invert" and k == "b"):
                rk = "b"
            elif name in ("absolute", "fabs"):
                rk = "f" if k == "c" else k
            elif name in KEEPK:
                rk = k
            else:
                rk = "c" if k == "c" else "f"
            if name == "invert" and k != "b":
                raise EngineError("bitwise invert of non-boolean")
        elif name == "matmul":
            return _ret(func_dot(inputs[0], inputs[1]), None, out)
        elif name in BIN and len(ops) == 2:
            (a, ka), (b, kb) = ops
            f = BIN[name]
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                A = np.asarray(a, dtype=object) if isinstance(a, np.ndarray) else _box(a)
                B = np.asarray(b, dtype=object) if isinstance(b, np.ndarray) else _box(b)
                A, B = np.broadcast_arrays(A, B)
                r = np.empty(A.shape, dtype=object)
                if r.ndim == 0:
                    r = f(_py(A[()]), _py(B[()]))
                else:
                    wm = None if where is True else np.broadcast_to(np.asarray(plain(where)).astype(bool), A.shape)
                    if wm is not None:
                        base = plain(out) if out is not None else None
                    for ix in np.ndindex(*A.shape):
                        if wm is not None and not wm[ix]:
                            r[ix] = base[ix] if base is not None else P.ctx().sym(f"UNINIT{len(P.ctx().atoms)}")
                        else:
                            r[ix] = f(_py(A[ix]), _py(B[ix]))
            else:
                r = f(_py(a), _py(b))
            if name in CMP or (name in BITB and ka == kb == "b"):
                rk = "b"
            elif name in BITB:
                raise EngineError("bitwise operation on non-booleans")
            else:
                rk = ka if ORDER[ka] >= ORDER[kb] else kb
                if name in ("divide", "float_power", "hypot") and ORDER[rk] < 2:
                    rk = "f"
        else:
            raise EngineError(f"ufunc {name} not encoded")
        if dtype is not None:
            rk = kind_of_dtype(dtype)
            if isinstance(r, np.ndarray):
                r = coerce(r, rk)
        return _ret(r, rk, out)
    if method == "reduce":
        a, k = lift_arr(inputs[0])
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        f = BIN[name]
        a = np.asarray(a, dtype=object)
        if axis is None:
            shp = a.shape
            a = a.reshape(-1)
            ax = 0
        else:
            ax = axis
            if isinstance(ax, tuple):
                raise EngineError("tuple axis")
        ax = ax % max(a.ndim, 1)
        b = np.moveaxis(a, ax, 0)
        if b.shape[0] == 0:
            if name in ("maximum", "minimum"):
                raise ValueError("zero-size array to reduction operation")
            ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}[name]
            r = np.empty(b.shape[1:], dtype=object)
            r.fill(ident)
            if r.ndim == 0:
                r = ident
        else:
            r = b[0]
            for i in range(1, b.shape[0]):
                if isinstance(r, np.ndarray):
                    q = np.empty(r.shape, dtype=object)
                    for ix in np.ndindex(*r.shape):
                        q[ix] = f(_py(r[ix]), _py(b[i][ix]))
                    r = q if q.ndim else q[()]
                else:
                    r = f(_py(r), _py(b[i]))
        if keep:
            r = np.expand_dims(np.asarray(r, dtype=object), ax) if axis is not None else np.asarray(r, dtype=object).reshape((1,) * len(shp))
        if name in CMP:
            k = "b"
        elif k == "b":
            k = "i" if name in ("add", "multiply") else k
        return _ret(r, k, out)
    if method == "outer":
        (a, ka), (b, kb) = ops
        A = np.asarray(a, dtype=object)
        B = np.asarray(b, dtype=object)
        A2 = A.reshape(A.shape + (1,) * B.ndim)
        return ufunc(uf, "__call__", (wrap(A2, ka), wrap(B, kb)), {})
    if method == "accumulate":
        a, k = lift_arr(inputs[0])
        f = BIN[name]
        a = np.asarray(a, dtype=object)
        if a.ndim != 1:
            raise EngineError("accumulate on nd")
        r = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.size):
            acc = a[i] if i == 0 else f(acc, a[i])
            r[i] = acc
        return _ret(r, k, out)
    raise EngineError(f"ufunc method {name}.{method}")


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def _ret(r, k, out):
    if k is None:
        if out is None:
            return r
        k = r.kind if isinstance(r, SymArray) else elem_kind(r)
    if out is not None:
        if isinstance(out, SymArray):
            if ORDER[k] > ORDER[out.kind]:
                raise TypeError(f"Cannot cast ufunc output from kind {k} to {out.kind} with casting rule 'same_kind'")
            plain(out)[...] = plain(r)
            return out
        raise EngineError("in-place symbolic update of a numeric array")
    if isinstance(r, np.ndarray):
        if k == "b":
            return r.astype(bool)
        return wrap(r, k)
    return r


def func_dot(a, b):
    (A, ka), (B, kb) = lift_arr(a), lift_arr(b)
    k = ka if ORDER[ka] >= ORDER[kb] else kb
    if not isinstance(A, np.ndarray) or not isinstance(B, np.ndarray) or A.ndim == 0 or B.ndim == 0:
        return ufunc(np.multiply, "__call__", (a, b), {})
    A = A.astype(object) if A.dtype != object else A
    B = B.astype(object) if B.dtype != object else B
    if A.shape[-1] != (B.shape[0] if B.ndim == 1 else B.shape[-2]):
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned")
    if A.ndim == 1 and B.ndim == 1:
        return _dot1(A, B)
    if A.ndim == 2 and B.ndim == 1:
        r = np.empty(A.shape[0], dtype=object)
        for i in range(A.shape[0]):
            r[i] = _dot1(A[i], B)
        return wrap(r, k)
    if A.ndim == 1 and B.ndim == 2:
        r = np.empty(B.shape[1], dtype=object)
        for i in range(B.shape[1]):
            r[i] = _dot1(A, B[:, i])
        return wrap(r, k)
    if A.ndim == 2 and B.ndim == 2:
        r = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                r[i, j] = _dot1(A[i], B[:, j])
        return wrap(r, k)
    raise EngineError("dot of high-dimensional arrays")


def _dot1(a, b):
    s = 0
    for x, y in zip(a, b):
        if type(x) is int and x == 0 or type(y) is int and y == 0:
            continue
        x, y = _py(x), _py(y)
        if (isinstance(x, (int, float)) and x == 0) or (isinstance(y, (int, float)) and y == 0):
            if not (isinstance(x, float) and not math.isfinite(x)) and not (isinstance(y, float) and not math.isfinite(y)):
                continue
        s = s + x * y
    return s


# ---------------------------------------------------------------- numpy functions
def _norm(x, ord=None, axis=None, keepdims=False):
    A, k = lift_arr(x)
    A = np.asarray(A, dtype=object)
    if ord == "fro":
        ord = None
    if axis is not None and not (A.ndim == 1 and axis in (0, -1, (0,))):
        if isinstance(axis, tuple):
            raise EngineError("norm over several axes")
        B = np.moveaxis(A, axis, 0)
        r = np.empty(B.shape[1:], dtype=object)
        for ix in np.ndindex(*r.shape):
            r[ix] = _norm(wrap(B[(slice(None),) + ix], k), ord)
        r = wrap(r, "f")
        return np.expand_dims(r, axis) if keepdims else r
    if ord not in (None, 2):
        if A.ndim == 1 and ord == np.inf:
            return np.max(np.abs(wrap(A, k)))
        if A.ndim == 1 and ord == -np.inf:
            return np.min(np.abs(wrap(A, k)))
        if A.ndim == 1 and ord == 1:
            return np.sum(np.abs(wrap(A, k)))
        if A.ndim == 2 and ord in (1, np.inf):
            return np.max(np.sum(np.abs(wrap(A, k)), axis=0 if ord == 1 else 1))
        raise EngineError("norm variant")
    if A.ndim == 2 and ord == 2:
        raise EngineError("spectral norm")
    s = 0
    for e in A.flat:
        e = _py(e)
        if isinstance(e, (Poly, FPBase)):
            s = s + (e * e if elem_kind(e) != "c" else _abs2(e))
        else:
            s = s + (e.real**2 + e.imag**2)
    return UN["sqrt"](s) if isinstance(s, (Poly, FPBase)) else np.float64(math.sqrt(s))


def _abs2(e):
    return abs(e) ** 2


def _inv(M):
    A, k = lift_arr(M)
    A = np.asarray(A, dtype=object)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = A.shape[0]
    c = P.ctx()
    rk = "c" if k == "c" else "f"
    if all(_isnum(e) for e in A.flat):
        return force_sym(np.linalg.inv(np.array([[complex(P.c_num(P.to_coef(_numv(e)))) for e in row] for row in A]))) if rk == "c" else force_sym(
            np.linalg.inv(np.array([[float(P.c_num(P.to_coef(_numv(e)))) for e in row] for row in A]))
        )
    if c.T is not None:
        # A = A0 + h(...): Neumann series about the numeric part
        A0 = np.empty((n, n), dtype=complex)
        for i in range(n):
            for j in range(n):
                e = A[i, j]
                if isinstance(e, Poly):
                    if any(P.h_exp(m) < 0 for m in e.t) or any(P.h_exp(m) == 0 and m != () for m in e.t):
                        raise EngineError("matrix inverse: h^0 part is not numeric")
                    A0[i, j] = complex(P.c_num(e.t.get((), Fraction(0))))
                else:
                    A0[i, j] = complex(e)
        exactdiag = _exact_diag(A)
        if exactdiag is not None:
            B0 = wrap(np.array([[exactdiag[i] if i == j else 0 for j in range(n)] for i in range(n)], dtype=object), "c")
        else:
            B0 = force_sym(np.linalg.inv(A0))
        I = force_sym(np.eye(n))
        X = func_dot(B0, wrap(A, k)) - I
        X = wrap(vec(_drop0, plain(X)), X.kind)
        R, T = I, I
        for _ in range(c.T + 1):
            T = -func_dot(T, X)
            R = R + T
        R = func_dot(R, B0)
        R.kind = rk
        return R
    dec = _decompose(A)
    if dec is not None:
        S, d, Si = dec
        D = [1 / (x if isinstance(x, Poly) else Poly.lift(x)) for x in d]
        return _compose(S, D, Si, rk)
    if n == 1:
        return wrap(np.array([[1 / Poly.lift(A[0, 0])]], dtype=object), rk)
    if n == 2:
        a, b, cc, d = A[0, 0], A[0, 1], A[1, 0], A[1, 1]
        det = Poly.lift(a * d - b * cc)
        di = 1 / det
        return wrap(np.array([[d * di, -b * di], [-cc * di, a * di]], dtype=object), rk)
    raise EngineError("inverse of a general symbolic matrix")


def _drop0(e):
    # the h^0 part of B0*A - I is zero up to rounding of the numeric inverse
    if isinstance(e, Poly):
        return Poly({m: c for m, c in e.t.items() if P.h_exp(m) > 0})
    return 0


def _exact_diag(A):
    n = A.shape[0]
    out = []
    for i in range(n):
        for j in range(n):
            e = A[i, j]
            c0 = e.t.get((), Fraction(0)) if isinstance(e, Poly) else P.to_coef(_py(e))
            if i != j and c0 != 0:
                return None
            if i == j:
                if c0 == 0:
                    return None
                out.append(Poly({(): P.c_inv(c0)}))
    return out


def _isnum(e):
    return not isinstance(e, (Poly, FPBase)) or (isinstance(e, Poly) and e.is_const())


def _numv(e):
    return e.const_value() if isinstance(e, Poly) else _py(e)


def _decompose(A):
    """A = S diag(d) S^-1 for a decomposition registered by the harness"""
    c = P.ctx()
    n = A.shape[0]
    cands = [(np.eye(n, dtype=object), np.eye(n, dtype=object))]
    if c.eigdecomp is not None:
        cands += [(S, Si) for S, Si in c.eigdecomp if S.shape[0] == n]
    for S, Si in cands:
        D = plain(func_dot(func_dot(wrap(Si, "f"), wrap(A, "c")), wrap(S, "f")))
        if all(_zero(D[i, j]) for i in range(n) for j in range(n) if i != j):
            return S, [D[i, i] for i in range(n)], Si
    return None


def _zero(e):
    if isinstance(e, Poly):
        return all(abs(P.c_num(c)) < 1e-13 for c in e.t.values()) if not e.exact() else not e.t
    return e == 0


def _compose(S, D, Si, kind):
    n = len(D)
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M[i, j] = S[i, j] * D[j]
    return wrap(plain(func_dot(wrap(M, kind), wrap(Si, "f"))), kind)


def _expm(M):
    A, k = lift_arr(M)
    A = np.asarray(A, dtype=object)
    n = A.shape[0]
    rk = "c" if k == "c" else "f"
    c = P.ctx()
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError("expected square array_like input")
    if all(_isnum(e) for e in A.flat):
        import scipy.linalg as sl

        B = np.array([[complex(P.c_num(P.to_coef(_numv(e)))) for e in r] for r in A])
        return force_sym(sl.expm(B) if rk == "c" else sl.expm(B.real))
    if c.T is not None:
        if any(any(P.h_exp(m) <= 0 for m in e.t) for e in A.flat if isinstance(e, Poly)) or any(e != 0 for e in A.flat if not isinstance(e, Poly)):
            raise EngineError("expm of a matrix that is not O(h)")
        I = force_sym(np.eye(n))
        R, T = I, I
        for j in range(1, c.T + 1):
            T = func_dot(T, wrap(A, k)) * Fraction(1, j)
            R = R + T
        R.kind = rk
        return R
    dec = _decompose(A)
    if dec is None:
        raise EngineError("expm of a symbolic matrix without a registered eigendecomposition")
    S, d, Si = dec
    return _compose(S, [P.expp(Poly.lift(x)) for x in d], Si, rk)


def _eig(M):
    A, k = lift_arr(M)
    A = np.asarray(A, dtype=object)
    if all(_isnum(e) for e in A.flat):
        w, S = np.linalg.eig(np.array([[complex(P.c_num(P.to_coef(_numv(e)))) for e in r] for r in A]) if k == "c" else np.array([[float(_numv(e)) for e in r] for r in A]))
        return force_sym(w), force_sym(S)
    dec = _decompose(A)
    if dec is None:
        raise EngineError("eig of a symbolic matrix without a registered eigendecomposition")
    S, d, Si = dec
    kc = k == "c" or any(elem_kind(Poly.lift(x)) == "c" for x in [*d, *np.asarray(S, dtype=object).flat])
    w = wrap(np.array([Poly.lift(x) for x in d] + [None], dtype=object)[:-1], "c" if kc else "f")
    return w, wrap(np.array(S, dtype=object), w.kind)


def _eigh(M, UPLO="L"):
    """the symmetric eigensolver: reads one triangle only and takes the matrix for Hermitian"""
    A, k = lift_arr(M)
    A = np.array(A, dtype=object)
    n = A.shape[0]
    if all(_isnum(e) for e in A.flat):
        w, S = np.linalg.eigh(np.array([[complex(P.c_num(P.to_coef(_numv(e)))) for e in r] for r in A]) if k == "c" else np.array([[float(_numv(e)) for e in r] for r in A]), UPLO)
        return force_sym(w), force_sym(S)
    if UPLO == "U":
        A = A.T.copy()
    H = np.empty((n, n), dtype=object)
    for i in range(n):
        H[i, i] = Poly.lift(A[i, i]).real
        for j in range(i):
            H[i, j] = Poly.lift(A[i, j])
            H[j, i] = H[i, j].conjugate()
    if all(bool(H[i, j] == 0) for i in range(n) for j in range(i)):
        return wrap(np.array([H[i, i] for i in range(n)] + [None], dtype=object)[:-1], "f"), force_sym(np.eye(n))
    if n == 2:
        a, d, b = H[0, 0], H[1, 1], H[1, 0]
        r = P.root(((a - d) / 2) ** 2 + b * b.conjugate(), Fraction(1, 2))
        w = [(a + d) / 2 - r, (a + d) / 2 + r]
        S = np.empty((2, 2), dtype=object)
        for j in range(2):
            nrm = P.root((w[j] - d) ** 2 + b * b.conjugate(), Fraction(1, 2))
            S[0, j], S[1, j] = (w[j] - d) / nrm, b / nrm
        return wrap(np.array(w + [None], dtype=object)[:-1], "f"), wrap(S, k if k == "c" else "f")
    dec = _decompose(H)
    if dec is None:
        raise EngineError("eigh of a symbolic matrix")
    S, d, Si = dec
    w = wrap(np.array([Poly.lift(x) for x in d] + [None], dtype=object)[:-1], "f")
    S = np.array(S, dtype=object)
    for j in range(n):
        S[:, j] = S[:, j] / math.sqrt(sum(abs(complex(P.c_num(P.to_coef(_numv(e))))) ** 2 for e in S[:, j]))
    return w, wrap(S, w.kind)


def _det(M):
    A, k = lift_arr(M)
    A = np.asarray(A, dtype=object)
    if A.shape[0] == 0:
        return 1.0
    if A.shape[0] > 4:
        raise EngineError("determinant of a large symbolic matrix")

    def go(B):
        if len(B) == 1:
            return B[0][0]
        return sum(((-1) ** j * B[0][j] * go([r[:j] + r[j + 1 :] for r in B[1:]]) for j in range(len(B))), 0)

    return go([[_py(e) for e in r] for r in A])


def _sorted(A):
    import functools

    lt = lambda a, b: -1 if not _lex_ge(a[0], b[0]) else (0 if bool(a[0] == b[0]) else 1)
    return [i for _, i in sorted([(_py(e), i) for i, e in enumerate(A)], key=functools.cmp_to_key(lt))]


def _sort(a, axis=-1, **k):
    A, kk = lift_arr(a)
    A = np.asarray(A, dtype=object)
    if A.ndim != 1:
        raise EngineError("sort of a matrix")
    return wrap(A[_sorted(A)], kk)


def _argsort(a, axis=-1, **k):
    A = np.asarray(lift_arr(a)[0], dtype=object)
    if A.ndim != 1:
        raise EngineError("argsort of a matrix")
    return np.array(_sorted(A), dtype=int)


def _eigvals(M):
    return _eig(M)[0]


def _cond(M, p=None):
    A, k = lift_arr(M)
    A = np.asarray(A, dtype=object)
    if all(_isnum(e) for e in A.flat):
        return float(np.linalg.cond(np.array([[complex(P.c_num(P.to_coef(_numv(e)))) for e in r] for r in A])))
    c = P.ctx()
    r = c.sym("cond", real=True, pos=True)
    c.pc.append((">=", r - 1))
    return r


def _matrix_power(M, n):
    if n < 0:
        return _matrix_power(_inv(M), -n)
    R = force_sym(np.eye(M.shape[0]))
    for _ in range(n):
        R = func_dot(R, M)
    return R


def _solve(A, b):
    return func_dot(_inv(A), b)


def dft(n, sign):
    k = np.arange(n)
    W = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            W[i, j] = _rootu((sign * i * j) % n, n)
    return W


def _rootu(k, n):
    # exact where cos/sin are rational
    f = Fraction(k, n)
    ex = {Fraction(0): 1, Fraction(1, 2): -1, Fraction(1, 4): CQ(Fraction(0), Fraction(1)), Fraction(3, 4): CQ(Fraction(0), Fraction(-1))}
    if f in ex:
        return ex[f]
    c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)
    if abs(abs(c) - 0.5) < 1e-12:
        c = math.copysign(0.5, c)
    if abs(abs(s) - 0.5) < 1e-12:
        s = math.copysign(0.5, s)
    return complex(c, s)


def _m(x, c):
    if isinstance(c, int):
        return x * c
    if isinstance(c, CQ):
        return (x if isinstance(x, Poly) else Poly.lift(x)) * Poly({(): c})
    return x * c


def _fftn1(x, n, inverse):
    W = dft(n, 1 if inverse else -1)
    r = np.empty(n, dtype=object)
    for i in range(n):
        s = 0
        for j in range(n):
            s = s + _m(_py(x[j]), W[i, j])
        r[i] = s / n if inverse else s
    return r


def _along(x, axis, f, kind):
    A, k = lift_arr(x)
    A = np.asarray(A, dtype=object)
    B = np.moveaxis(A, axis, -1)
    rows = [f(B[ix]) for ix in np.ndindex(*B.shape[:-1])]
    m = len(rows[0])
    R = np.empty(B.shape[:-1] + (m,), dtype=object)
    for ix, row in zip(np.ndindex(*B.shape[:-1]), rows):
        R[ix] = row
    return wrap(np.moveaxis(R, -1, axis), kind)


def _resize(x, n):
    if len(x) >= n:
        return x[:n]
    r = np.empty(n, dtype=object)
    r[:] = 0
    r[: len(x)] = x
    return r


def _scale(r, n, norm, inverse):
    if norm in (None, "backward"):
        return r
    if norm == "ortho":
        f = math.sqrt(n) if inverse else 1 / math.sqrt(n)
    elif norm == "forward":
        f = n if inverse else Fraction(1, n)
    else:
        raise ValueError(f"Invalid norm value {norm}")
    return vec(lambda e: e * f, r)


def _fft(a, n=None, axis=-1, norm=None, out=None):
    return _along(a, axis, lambda x: _scale(_fftn1(_resize(x, n or len(x)), n or len(x), False), n or len(x), norm, False), "c")


def _ifft(a, n=None, axis=-1, norm=None, out=None):
    return _along(a, axis, lambda x: _scale(_fftn1(_resize(x, n or len(x)), n or len(x), True), n or len(x), norm, True), "c")


def _rfft(a, n=None, axis=-1, norm=None, out=None):
    A, k = lift_arr(a)
    if k == "c":
        raise TypeError("rfft of complex input (imaginary part discarded)")
    return _along(a, axis, lambda x: _scale(_fftn1(_resize(x, n or len(x)), n or len(x), False), n or len(x), norm, False)[: (n or len(x)) // 2 + 1], "c")


def _re(e):
    return e.real if not isinstance(e, (Fraction, CQ)) else (e if isinstance(e, Fraction) else e.re)


def _irfft(a, n=None, axis=-1, norm=None, out=None):

    def f(x):
        N = n if n is not None else 2 * (len(x) - 1)
        x = _resize(x, N // 2 + 1)
        full = np.empty(N, dtype=object)
        for i in range(N):
            if i == 0 or 2 * i == N:
                full[i] = _re(_py(x[i]))
            elif i <= N // 2:
                full[i] = _py(x[i])
            else:
                full[i] = _py(x[N - i]).conjugate()
        r = _scale(_fftn1(full, N, True), N, norm, True)
        return vec(_re, r)

    return _along(a, axis, f, "f")


def _where(c, x=None, y=None):
    C = plain(c)
    C = vec(bool, C).astype(bool) if isinstance(C, np.ndarray) and C.dtype == object else np.asarray(C)
    if x is None:
        return np.nonzero(C)
    (X, kx), (Y, ky) = lift_arr(x), lift_arr(y)
    k = kx if ORDER[kx] >= ORDER[ky] else ky
    X, Y = (np.asarray(v, dtype=object) if isinstance(v, np.ndarray) else _box(v) for v in (X, Y))
    C, X, Y = np.broadcast_arrays(C, X, Y)
    r = np.empty(C.shape, dtype=object)
    for ix in np.ndindex(*C.shape):
        r[ix] = X[ix] if C[ix] else Y[ix]
    return wrap(r, k)


def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    A, kk = lift_arr(a)
    A = np.asarray(A, dtype=object)
    return ufunc(np.add, "reduce", (wrap(A, kk),), {"axis": axis, "keepdims": keepdims})


def _anyall(f):
    def g(a, axis=None, **k):
        A, _ = lift_arr(a)
        return f(bool(x) for x in np.asarray(A, dtype=object).flat)

    return g


def _maxmin(uf):
    def g(a, axis=None, **k):
        A, kk = lift_arr(a)
        return ufunc(uf, "reduce", (wrap(np.asarray(A, dtype=object), kk),), {"axis": axis})

    return g


def _mean(a, axis=None, **k):
    A, kk = lift_arr(a)
    A = np.asarray(A, dtype=object)
    n = A.size if axis is None else int(np.prod([A.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    return _sum(a, axis=axis, keepdims=bool(k.get("keepdims", False))) / n


def _average(a, axis=None, weights=None, returned=False, **k):
    if weights is not None or returned:
        raise EngineError("weighted average")
    return _mean(a, axis=axis, **k)


def _multi_dot(arrays, out=None):
    r = arrays[0]
    for b in arrays[1:]:
        r = func_dot(r, b)
    return r


def _putmask(a, mask, values):
    m = np.asarray(mask)
    if np.ndim(values):
        values = np.resize(plain(values), m.shape)[m]
    a[m] = values


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = plain(src)[where] if isinstance(src, np.ndarray) else src


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        kk = kind_of_dtype(dtype) if dtype is not None else (a.kind if isinstance(a, SymArray) else lift_arr(a)[1])
        shp = np.shape(a) if shape is None else shape
        if f == "empty":
            return uninit(shp, kk)
        if f == "full":
            r = np.empty(shp, dtype=object)
            r[...] = args[0] if args else k["fill_value"]
            return wrap(coerce(r, kk), kk)
        r = np.empty(shp, dtype=object)
        r[...] = {"zeros": 0, "ones": 1}[f]
        return wrap(r, kk)

    return g


_ucount = [0]


def uninit(shape, kind):
    r = np.empty(shape, dtype=object)
    for ix in np.ndindex(*r.shape):
        _ucount[0] += 1
        r[ix] = P.ctx().sym(f"UNINIT{_ucount[0]}", real=kind != "c")
    return wrap(r, kind)


def _max(*a, **k):
    return _maxmin(np.maximum)(*a, **k)


def _array_equal(a, b, **k):
    A, B = np.asarray(plain(a), dtype=object), np.asarray(plain(b), dtype=object)
    return A.shape == B.shape and all(bool(x == y) for x, y in zip(A.flat, B.flat))


def _einsum(spec, *ops, **k):
    A = [np.asarray(lift_arr(o)[0], dtype=object) for o in ops]
    k = max((lift_arr(o)[1] for o in ops), key=lambda x: ORDER[x])
    r = np.einsum(spec, *A, optimize=False)
    return wrap(r, k) if isinstance(r, np.ndarray) and r.ndim else (r.item() if isinstance(r, np.ndarray) else r)


def _outer(a, b, out=None):
    (A, ka), (B, kb) = lift_arr(a), lift_arr(b)
    return ufunc(np.multiply, "__call__", (wrap(np.asarray(A, dtype=object).reshape(-1, 1), ka), wrap(np.asarray(B, dtype=object).reshape(1, -1), kb)), {})


def _clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if isinstance(e, (Poly,)):
            return e
        return np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf).item()

    A, k = lift_arr(x)
    return wrap(vec(f, np.asarray(A, dtype=object)), k)


def _argext(better):
    def g(a, axis=None, **k):
        A = np.asarray(lift_arr(a)[0], dtype=object)
        if axis is not None and A.ndim > 1:
            raise EngineError("argmax axis")
        A = A.reshape(-1)
        b = 0
        for i in range(1, A.size):
            if better(A[i], A[b]):
                b = i
        return b

    return g


def _vdot(a, b):
    A = np.asarray(lift_arr(a)[0], dtype=object).reshape(-1)
    B = np.asarray(lift_arr(b)[0], dtype=object).reshape(-1)
    return _dot1(vec(lambda x: x.conjugate(), A), B)


def _polyval(p, x):
    y = 0
    for c in p:
        y = y * x + c
    return y


TABLE = {}


def _reg(name, f, mod=np):
    obj = getattr(mod, name, None)
    if obj is not None:
        TABLE[obj] = f


for nm, f in dict(
    sum=_sum, any=_anyall(any), all=_anyall(all), max=_maxmin(np.maximum), min=_maxmin(np.minimum), amax=_maxmin(np.maximum), amin=_maxmin(np.minimum),
    mean=_mean, average=_average, putmask=_putmask, cumprod=lambda a, axis=None, **k: ufunc(np.multiply, "accumulate", (a.ravel() if axis is None else a,), {}), dot=func_dot, where=_where, isclose=_isclose, copyto=_copyto, zeros_like=_like("zeros"), ones_like=_like("ones"),
    empty_like=_like("empty"), full_like=_like("full"), array_equal=_array_equal, einsum=_einsum, outer=_outer, inner=func_dot, vdot=_vdot, clip=_clip,
    nan_to_num=_nan_to_num, argmax=_argext(lambda a, b: a > b), argmin=_argext(lambda a, b: a < b), polyval=_polyval,
    iscomplexobj=lambda x: lift_arr(x)[1] == "c", isrealobj=lambda x: lift_arr(x)[1] != "c",
    real=lambda x: x.real, imag=lambda x: x.imag, prod=lambda a, axis=None, **k: ufunc(np.multiply, "reduce", (a,), {"axis": axis}),
    count_nonzero=lambda a, **k: sum(1 for e in np.asarray(lift_arr(a)[0], dtype=object).flat if bool(e)),
    iscomplex=lambda x: vec(lambda e: bool(_py(e).imag != 0), np.asarray(lift_arr(x)[0], dtype=object)).astype(bool),
    isreal=lambda x: vec(lambda e: bool(_py(e).imag == 0), np.asarray(lift_arr(x)[0], dtype=object)).astype(bool),
    sort=_sort, argsort=_argsort, nanmax=_maxmin(np.maximum), nanmin=_maxmin(np.minimum), nansum=_sum, real_if_close=lambda a, tol=100: a.real if all(bool(_py(e).imag == 0) for e in np.asarray(lift_arr(a)[0], dtype=object).flat) else a,
    cumsum=lambda a, axis=None, **k: ufunc(np.add, "accumulate", (a.ravel() if axis is None else a,), {}),
    copy=lambda a, **k: a.copy(), result_type=lambda *a: DT[max((lift_arr(x)[1] if not isinstance(x, (np.dtype, type)) else np.dtype(x).kind for x in a), key=lambda q: ORDER[q])],
    common_type=lambda *a: DT[max([lift_arr(x)[1] for x in a] + ["f"], key=lambda q: ORDER[q])].type,
    allclose=lambda a, b, **k: bool(np.all(_isclose(a, b, **k))),
    shares_memory=lambda a, b, **k: np.shares_memory(plain(a), plain(b)), may_share_memory=lambda a, b, **k: np.may_share_memory(plain(a), plain(b)),
    ).items():
    _reg(nm, f)
for nm, f in dict(norm=_norm, inv=_inv, eig=_eig, eigvals=_eigvals, cond=_cond, matrix_power=_matrix_power, solve=_solve, eigh=_eigh, multi_dot=_multi_dot, eigvalsh=lambda M, UPLO="L": _eigh(M, UPLO)[0], det=_det).items():
    _reg(nm, f, np.linalg)
for nm, f in dict(fft=_fft, ifft=_ifft, rfft=_rfft, irfft=_irfft).items():
    _reg(nm, f, np.fft)

# structural functions: run numpy's own code on the object storage
STRUCT = set()
for nm in (
    "reshape ravel transpose hstack vstack stack concatenate tile repeat flipud fliplr flip roll diag diagonal expand_dims squeeze moveaxis "
    "swapaxes broadcast_to broadcast_arrays meshgrid atleast_1d atleast_2d split array_split append insert delete take shape size ndim column_stack "
    "diagflat triu tril rot90 block row_stack fill_diagonal trace kron compress extract dstack ix_ put place"
).split():
    if hasattr(np, nm):
        STRUCT.add(getattr(np, nm))


def _strip(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(e) for e in x)
    return x


def _kinds(x, out):
    if isinstance(x, np.ndarray):
        out.append(lift_arr(x)[1])
    elif isinstance(x, (list, tuple)):
        for e in x:
            _kinds(e, out)


def _rewrap(r, k):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return np.ndarray.view(r, SymArray) if False else _setk(r, k)
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(e, k) if isinstance(e, np.ndarray) and e.dtype == object else e for e in r)
    return r


def _setk(r, k):
    v = np.ndarray.view(r, SymArray)
    v.kind = k
    return v


def array_function(func, args, kwargs):
    f = TABLE.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func in STRUCT:
        ks = []
        _kinds(list(args) + list(kwargs.values()), ks)
        k = max(ks, key=lambda q: ORDER[q])
        if func is np.meshgrid:
            # per-argument kinds
            r = func(*_strip(list(args)), **kwargs)
            return [(_setk(e, lift_arr(a)[1]) if e.dtype == object else e) for e, a in zip(r, args if kwargs.get("indexing", "xy") else args)]
        r = func(*_strip(list(args)), **{a: _strip(b) for a, b in kwargs.items()})
        return _rewrap(r, k)
    impl = getattr(func, "_implementation", None)
    if impl is not None and type(impl).__name__ == "function":
        # numpy's own Python code over symbolic arrays
        try:
            r = impl(*args, **kwargs)
        except (TypeError, AttributeError) as e:
            raise EngineError(f"numpy function {getattr(func, '__name__', func)} not encoded: {e}")
        ks = []
        _kinds(list(args) + list(kwargs.values()), ks)
        return _fixkind(r, max(ks, key=lambda q: ORDER[q]) if ks else "f")
    raise EngineError(f"numpy function {getattr(func, '__name__', func)} not encoded")


def _fixkind(r, k):
    if isinstance(r, (tuple, list)):
        return type(r)(_fixkind(e, k) for e in r)
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype == object:
        kk = infer_kind(r)
        return wrap(r, kk if ORDER[kk] >= ORDER[k] else k)
    return r
