"""Loads /repo/rkstiff from source (regenerated on every run) against symbolic stand-ins
for numpy / scipy / logging, without touching the installed package."""
from __future__ import annotations
import ast, builtins, os, sys, types, hashlib, importlib
import numpy as _np
from . import poly as P, symarr as S
from .poly import Poly, EngineError

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "rkstiff"
SOURCES = {}  # module -> sha


# ------------------------------------------------------------------ numpy proxy
class NSProxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        return getattr(self.__dict__["_real"], n)


def _anysym(args):
    return any(S._has_sym(a) for a in args)


def _dispatch(func, impl):
    """numpy function called directly: symbolic version if a list/scalar argument is symbolic"""

    def f(*a, **k):
        if _anysym(a) or _anysym(k.values()):
            return impl(*a, **k)
        return func(*a, **k)

    f.__name__ = getattr(func, "__name__", "f")
    f.__wrapped__ = func
    return f


def _creation(val):
    def f(shape, dtype=float, order="C", **k):
        if isinstance(shape, Poly):
            shape = shape.__index__()
        kk = S.kind_of_dtype(dtype)
        if len(kk) > 1:
            return getattr(_np, {0: "zeros", 1: "ones"}[val])(shape, dtype=dtype)
        r = _np.empty(shape, dtype=object)
        r[...] = val
        return S.wrap(r, kk)

    return f


def _empty(shape, dtype=float, **k):
    return S.uninit(shape, S.kind_of_dtype(dtype))


def _full(shape, v, dtype=None, **k):
    r = _np.empty(shape, dtype=object)
    r[...] = v
    kk = S.kind_of_dtype(dtype) if dtype is not None else S.elem_kind(v) if not isinstance(v, _np.ndarray) else S.lift_arr(v)[1]
    return S.wrap(S.coerce(r, kk), kk)


def _eye(n, m=None, k=0, dtype=float, **kw):
    r = _np.eye(n, m, k, dtype=int).astype(object)
    return S.wrap(r, S.kind_of_dtype(dtype))


def _arange(*a, **k):
    if _anysym(a):
        hook = getattr(P.ctx(), "arange_hook", None)
        if hook is not None:
            return hook(*a, **k)
        return _sym_arange(*a, **k)
    return _np.arange(*a, **k)


def _sym_arange(*a, dtype=None, **k):
    from . import fpdom

    if any(isinstance(x, S.FPBase) for x in a):
        return fpdom.arange(*a)
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    lo, hi, st = a
    # exact-real length: ceil((hi-lo)/st) must be a constant
    q = Poly.lift((Poly.lift(hi) - lo) / st)
    if not q.is_const():
        raise EngineError("arange of symbolic length")
    import math

    n = max(0, math.ceil(q.const_value()))
    r = _np.empty(n, dtype=object)
    for i in range(n):
        r[i] = Poly.lift(lo) + Poly.lift(st) * i
    return S.wrap(r, S.infer_kind(r))


def _linspace(lo, hi, num=50, endpoint=True, retstep=False, dtype=None, **k):
    if not _anysym((lo, hi)):
        return _np.linspace(lo, hi, num, endpoint=endpoint, retstep=retstep, dtype=dtype, **k)
    d = num - 1 if endpoint else num
    st = (hi - lo) / d
    r = _np.empty(num, dtype=object)
    for i in range(num):
        r[i] = lo + st * i
    r = S.wrap(r, S.infer_kind(r))
    return (r, st) if retstep else r


def _asarray(x, dtype=None, **k):
    if isinstance(x, S.SymArray):
        return x if dtype is None else x.astype(dtype, copy=False)
    return S.np_array(x, dtype=dtype, copy=False)


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    r = S.np_array(x, dtype=dtype, copy=copy)
    while r.ndim < ndmin:
        r = r[None]
    return r


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(x, (slice, str)) for x in key):
            return _np.r_[key]
        parts = [x if isinstance(x, _np.ndarray) else _np.atleast_1d(x) if not isinstance(x, (Poly, S.FPBase)) else S.np_array([x]) for x in key]
        return _np.concatenate(parts) if not any(isinstance(p, S.SymArray) for p in parts) else S.array_function(_np.concatenate, (parts,), {})


class _C:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if not _anysym(key):
            return _np.c_[key]
        return S.array_function(_np.column_stack, (list(key),), {})


def _fftfreq(n, d=1.0, **k):
    if isinstance(d, (Poly, S.FPBase)):
        return S.force_sym(_np.fft.fftfreq(n, 1.0 / n)) / (d * n)
    return _np.fft.fftfreq(n, d)


def _rfftfreq(n, d=1.0, **k):
    if isinstance(d, (Poly, S.FPBase)):
        return S.force_sym(_np.fft.rfftfreq(n, 1.0 / n)) / (d * n)
    return _np.fft.rfftfreq(n, d)


def _scalar_or(func):
    """linalg etc. on SymArray goes through __array_function__ already"""
    return func


def _chebpts2(n):
    hook = getattr(P.ctx(), "chebpts2_hook", None)
    if hook is not None:
        return hook(n)
    return _np.polynomial.chebyshev.chebpts2(n)


def _denum(x):
    """numeric SymArray -> numeric ndarray"""
    if isinstance(x, S.SymArray):
        if any(isinstance(e, (Poly, S.FPBase)) and not e.is_const() for e in S.plain(x).flat):
            return None
        f = (lambda e: complex(P.c_num(P.to_coef(S._numv(e)))) if x.kind == "c" else float(P.c_num(P.to_coef(S._numv(e)))))
        return _np.array([f(e) for e in S.plain(x).flat]).reshape(x.shape)
    return x


def _special(name):
    import scipy.special as sp

    f = getattr(sp, name)

    def g(*a, **k):
        hook = getattr(P.ctx(), "special_hook", None)
        if hook is not None:
            return hook(name, *a, **k)
        b = [_denum(x) for x in a]
        if any(x is None for x in b) or any(isinstance(x, Poly) for x in b):
            raise EngineError(f"scipy.special.{name} of a symbolic value")
        return f(*b, **k)

    return g


def _vectorize(*a, **k):
    raise EngineError("np.vectorize")


class _Quiet:
    """logger whose output is discarded; records level and messages for the properties about logging"""

    def __init__(self, name):
        self.name = name
        self.level = 0
        self.handlers = []
        self.messages = []
        self.propagate = True
        self.disabled = False

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def hasHandlers(self):
        return bool(self.handlers)

    def getEffectiveLevel(self):
        return self.level or 30

    def isEnabledFor(self, l):
        hook = getattr(P.ctx(), "log_enabled_hook", None)
        if hook is not None:
            return hook(self, l)
        return l >= self.getEffectiveLevel()

    def _log(self, lvl, msg, *args, **k):
        self.messages.append((lvl, msg, args))

    def debug(self, m, *a, **k):
        self._log(10, m, *a)

    def info(self, m, *a, **k):
        self._log(20, m, *a)

    def warning(self, m, *a, **k):
        self._log(30, m, *a)

    def error(self, m, *a, **k):
        self._log(40, m, *a)

    def critical(self, m, *a, **k):
        self._log(50, m, *a)

    exception = error
    warn = warning

    def log(self, lvl, m, *a, **k):
        self._log(lvl, m, *a)


class _Handler:
    def __init__(self, *a):
        self.level = 0
        self.formatter = None

    def setFormatter(self, f):
        self.formatter = f

    def setLevel(self, l):
        self.level = l


def make_logging():
    import logging as real

    loggers = {}

    def getLogger(name=None):
        if name not in loggers:
            loggers[name] = _Quiet(name)
        return loggers[name]

    m = NSProxy("logging", real, {"getLogger": getLogger, "StreamHandler": _Handler, "NullHandler": _Handler})
    m.loggers = loggers
    return m


def make_numpy():
    over = {}
    over["zeros"] = _creation(0)
    over["ones"] = _creation(1)
    over["empty"] = _empty
    over["full"] = _full
    over["eye"] = _eye
    over["identity"] = lambda n, dtype=float: _eye(n, dtype=dtype)
    over["arange"] = _arange
    over["linspace"] = _linspace
    over["array"] = _array
    over["asarray"] = _asarray
    over["ascontiguousarray"] = _asarray
    over["asanyarray"] = _asarray
    over["zeros_like"] = lambda a, *x, **k: S._like("zeros")(a, *x, **k)
    over["ones_like"] = lambda a, *x, **k: S._like("ones")(a, *x, **k)
    over["empty_like"] = lambda a, *x, **k: S._like("empty")(a, *x, **k)
    over["full_like"] = lambda a, *x, **k: S._like("full")(a, *x, **k)
    over["r_"] = _R()
    over["c_"] = _C()
    over["fromiter"] = lambda it, dtype=float, count=-1, **k: _array(list(it), dtype=dtype)
    over["vectorize"] = _vectorize
    over["float64"] = _FloatType(_np.float64)
    over["complex128"] = _np.complex128
    # scalar / list arguments do not dispatch by __array_function__
    for f, impl in list(S.TABLE.items()):
        nm = f.__name__
        if getattr(_np, nm, None) is f and nm not in over:
            over[nm] = _dispatch(f, impl)
    for f in S.STRUCT:
        nm = f.__name__
        if getattr(_np, nm, None) is f and nm not in over:
            over[nm] = _dispatch(f, (lambda *a, _f=f, **k: S.array_function(_f, tuple(S.np_array(x) if isinstance(x, list) and S._has_sym(x) and False else x for x in a), k)))
    for nm in list(S.UN) + list(S.BIN):
        if hasattr(_np, nm):
            over.setdefault(nm, _UF(getattr(_np, nm)))
    for nm, al in (("abs", "absolute"), ("conj", "conjugate"), ("true_divide", "divide"), ("pow", "power"), ("bitwise_not", "invert")):
        over[nm] = _UF(getattr(_np, al))
    lin = {}
    for f, impl in S.TABLE.items():
        if getattr(_np.linalg, f.__name__, None) is f:
            lin[f.__name__] = _dispatch(f, impl)
    over["linalg"] = NSProxy("numpy.linalg", _np.linalg, lin)
    fft = {"fftfreq": _fftfreq, "rfftfreq": _rfftfreq}
    for f, impl in S.TABLE.items():
        if getattr(_np.fft, f.__name__, None) is f:
            fft[f.__name__] = _dispatch(f, impl)
    over["fft"] = NSProxy("numpy.fft", _np.fft, fft)
    cheb = NSProxy("numpy.polynomial.chebyshev", _np.polynomial.chebyshev, {"chebpts2": _chebpts2})
    over["polynomial"] = NSProxy("numpy.polynomial", _np.polynomial, {"chebyshev": cheb})
    return NSProxy("numpy", _np, over)


class _FloatType:
    """np.float64 used both as dtype and as constructor"""

    def __new__(cls, real):
        return real


class _UF:
    """ufunc stand-in: real ufunc attributes, symbolic scalars handled"""

    def __init__(self, uf):
        self._uf = uf

    def __call__(self, *a, **k):
        if self._uf.__name__ == "exp":
            _fault("exp")
        if _anysym(a):
            return S.ufunc(self._uf, "__call__", tuple(a), dict(k))
        return self._uf(*a, **k)

    def __getattr__(self, n):
        at = getattr(self._uf, n)
        if n in ("reduce", "outer", "accumulate"):

            def f(*a, **k):
                if _anysym(a):
                    return S.ufunc(self._uf, n, tuple(a), dict(k))
                return at(*a, **k)

            return f
        return at


# ------------------------------------------------------------------ builtins
def _b_float(x=0.0):
    if isinstance(x, (Poly,)):
        if x.is_const():
            return float(x)
        if not x.is_real():
            raise TypeError("float() argument must be real")
        return x
    if isinstance(x, S.FPBase):
        return x
    return builtins.float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, S.FPBase) or (isinstance(o, Poly) and o.is_real() and not o.is_int()):
            return True
        return builtins.isinstance(o, builtins.float)

    def __call__(cls, x=0.0):
        return _b_float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Poly):
            return o.is_int()
        if type(o).__name__ == "SymInt":
            return True
        return builtins.isinstance(o, builtins.int)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], Poly):
            if a[0].is_int():
                return a[0]
            return a[0].__trunc__() if not a[0].is_const() else builtins.int(float(a[0]))
        return builtins.int(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


def _unshim_type(t):
    return t


class ShimFloat(builtins.float, metaclass=type("FM", (_FloatMeta, type), {})):
    pass


class ShimInt(builtins.int, metaclass=type("IM", (_IntMeta, type), {})):
    pass


def _b_max(*a, **k):
    if len(a) == 1 and not k:
        a = tuple(a[0])
    if any(isinstance(x, (Poly, S.FPBase)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = x if x > r else r
        return r
    return builtins.max(*a, **k) if len(a) != 1 or k else a[0]


def _b_min(*a, **k):
    if len(a) == 1 and not k:
        a = tuple(a[0])
    if any(isinstance(x, (Poly, S.FPBase)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = x if x < r else r
        return r
    return builtins.min(*a, **k) if len(a) != 1 or k else a[0]


def _fmt(l, r):
    try:
        return l % r
    except (EngineError, TypeError):
        if _anysym(r if isinstance(r, tuple) else (r,)):
            return l
        raise


class Transform(ast.NodeTransformer):
    """'...' % x  ->  __fmt__('...', x)   (formatting of symbolic values)"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__fmt__", ast.Load()), [n.left, n.right], []), n)
        return n


class Package:
    """one freshly executed copy of the package under the stand-ins"""

    def __init__(self, stubs=None):
        self.mods = {}
        self.np = make_numpy()
        self.logging = make_logging()
        import scipy, scipy.linalg, scipy.special

        lin = {"expm": _dispatch_expm}
        for n, f in (("inv", S._inv), ("eig", S._eig), ("eigh", S._eigh), ("eigvals", S._eigvals), ("solve", S._solve), ("det", S._det), ("norm", S._norm)):
            lin[n] = _dispatch(getattr(scipy.linalg, n), (lambda *a, f=f, **k: f(*a, **{x: y for x, y in k.items() if x not in ("check_finite", "overwrite_a", "overwrite_b", "assume_a")})))
        self.scipy_linalg = NSProxy("scipy.linalg", scipy.linalg, lin)
        import scipy.fft as _sf

        fft = {n: _dispatch(getattr(_sf, n), f) for n, f in (("fft", S._fft), ("ifft", S._ifft), ("rfft", S._rfft), ("irfft", S._irfft))}
        self.scipy_fft = NSProxy("scipy.fft", _sf, {**fft, "fftfreq": _fftfreq, "rfftfreq": _rfftfreq})
        self.scipy_special = NSProxy(
            "scipy.special", scipy.special, {n: _special(n) for n in ("j0", "j1", "jn_zeros", "jv", "jn", "j1", "jnjnp_zeros", "y0")}
        )
        self.scipy = NSProxy("scipy", scipy, {"linalg": self.scipy_linalg, "special": self.scipy_special, "fft": self.scipy_fft})
        self.ext = {
            "numpy": self.np, "scipy": self.scipy, "scipy.linalg": self.scipy_linalg, "scipy.special": self.scipy_special, "scipy.fft": self.scipy_fft, "logging": self.logging,
            "numpy.linalg": self.np.linalg, "numpy.fft": self.np.fft, "math": _mathproxy(),
            "numbers": _numbers(),
        }
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = ShimFloat
        b["int"] = ShimInt
        b["max"] = _b_max
        b["min"] = _b_min
        b["__fmt__"] = _fmt
        b["print"] = lambda *a, **k: None
        self.builtins = b

    def _path(self, name):
        rel = name.split(".")
        p = os.path.join(REPO, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = self._path(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if os.path.exists(path):
            src = open(path, encoding="utf-8").read()
            SOURCES[name] = hashlib.sha256(src.encode()).hexdigest()[:16]
            tree = ast.fix_missing_locations(Transform().visit(ast.parse(src, path)))
            exec(compile(tree, path, "exec"), m.__dict__)
        elif name.endswith("__version__"):
            m.__version__ = version = "0"
            m.__dict__["version"] = "0"
        else:
            del self.mods[name]
            raise ModuleNotFoundError(name)
        if "." in name:
            par, _, ch = name.rpartition(".")
            setattr(self.mods[par], ch, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[PKG]
        if full in self.ext:
            if fromlist:
                return self.ext[full]
            return self.ext[full.split(".")[0]]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, n):
        return self.load(PKG + "." + n)


def _fault(name):
    hook = getattr(P.ctx(), "uf_hook", None)
    if hook is not None:
        hook(name)


def _dispatch_expm(M):
    _fault("expm")
    if _anysym((M,)):
        d = _denum(M) if isinstance(M, S.SymArray) else None
        if d is not None:
            import scipy.linalg

            return S.force_sym(scipy.linalg.expm(d))
        return S._expm(M)
    import scipy.linalg

    return scipy.linalg.expm(M)


def _numbers():
    import numbers

    def meta(base, pred):
        class M(type):
            def __instancecheck__(cls, o):
                if isinstance(o, (Poly, S.FPBase)):
                    return pred(o)
                return builtins.isinstance(o, base)

        return M(base.__name__, (), {})

    isint = lambda o: isinstance(o, Poly) and o.is_int()
    isreal = lambda o: isinstance(o, S.FPBase) or o.is_real()
    return NSProxy("numbers", numbers, {"Integral": meta(numbers.Integral, isint), "Rational": meta(numbers.Rational, isint), "Real": meta(numbers.Real, isreal), "Complex": meta(numbers.Complex, lambda o: True), "Number": meta(numbers.Number, lambda o: True)})


def _mathproxy():
    import math

    over = {}
    for n in ("exp", "sqrt", "cosh", "sinh", "tanh", "cos", "sin", "isnan", "isinf", "isfinite", "fabs"):
        def f(x, n=n):
            if isinstance(x, (Poly, S.FPBase)):
                return S.UN["absolute" if n == "fabs" else n](x)
            return getattr(math, n)(x)
        over[n] = f

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, (Poly, S.FPBase)) or isinstance(b, (Poly, S.FPBase)):
            return abs(a - b) <= _b_max(rel_tol * _b_max(abs(a), abs(b)), abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    over["isclose"] = isclose

    def ceil(x):
        if isinstance(x, (Poly, S.FPBase)):
            return x.__ceil__()
        return math.ceil(x)

    over["ceil"] = ceil

    def floor(x):
        if isinstance(x, (Poly, S.FPBase)):
            return x.__floor__()
        return math.floor(x)

    over["floor"] = floor
    return NSProxy("math", math, over)


def fresh():
    return Package()
