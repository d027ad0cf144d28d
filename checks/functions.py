"""Functions of the spatial toolbox: P08 psi functions, P18/P19 derivatives, P20 grids, P21 Hankel transform,
P22 mirroring, P23 model problems."""
from fractions import Fraction
import math
import numpy as np
import z3
from lib import poly as P, symarr as S, shim, explore, fpdom as F
from lib.poly import Poly
from lib.common import *
from checks.control import choose

NAN, INF = float("nan"), float("inf")
TWOPI = 2 * math.pi


def keys(a):
    return [Poly.lift(x).key() for x in elems(a)]


def same(chk, lab, c, before, a, replay):
    """the array still holds what it held"""
    for i, (x, y) in enumerate(zip(before, elems(a))):
        chk.equal(f"{lab}: argument unchanged, entry {i}", c, y, x, replay)


def outcome(fn):
    """('ok', value) or ('exc', exception)"""
    try:
        return "ok", fn()
    except (P.EngineError, explore.Inconclusive):
        raise
    except Exception as e:
        return "exc", e


def each(chk, lab, fn, replay, max_paths=64, T=None, expect=None):
    """run fn on every feasible path; an exception is a failed path"""
    n = 0
    for c, r, e in chk.paths(fn, T, max_paths):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        n += 1
        yield c, r
        chk.reachable(lab, c)
    if not n and not chk.violations:
        chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P08
def P08(chk):
    K = 24 if chk.thorough else 14
    chk.bound("every nonzero complex (and real) z as exact algebra over z and exp(z); scalars, 0-d, 1-D (3 entries) and 2-D (2x2) arrays")
    chk.bound(f"Taylor coefficients of psi_r around 0 through z^{K} against r! / (k+r)!")
    chk.assumption("exact arithmetic: the cancellation error of the closed formulas near zero is outside the claim")
    for r in (1, 2, 3):
        chk.encoded(f"rkstiff.etd.psi{r}")
        for kind in ("c", "f"):
            for shape in ("scalar", (), (3,), (2, 2), (1, 1, 2)):
                psi_exact(chk, r, kind, shape)
        psi_series(chk, r, K)


def psi_exact(chk, r, kind, shape):
    pk = shim.fresh()
    lab = f"psi{r} {kind} {shape}"
    replay = ("psi", dict(r=r, kind=kind, shape=list(shape) if shape != "scalar" else None))

    def fn(c):
        n = 1 if shape == "scalar" else int(np.prod(shape, dtype=int))
        z = [c.sym(f"z{i}", real=kind == "f") for i in range(n)]
        c.pc += [("!=", x) for x in z]
        if shape == "scalar":
            a = z[0]
        else:
            a = np.empty(shape, dtype=object)
            a.reshape(-1)[:] = z
            a = S.wrap(a, kind)
        y = getattr(pk.etd, f"psi{r}")(a)
        want = []
        for x in z:
            p = (P.expp(x) - 1) / x
            for k in range(1, r):
                p = (p - 1) * (k + 1) / x
            want.append(p)
        return y, want, z, a, (tuple(np.shape(S.plain(y))) if isinstance(y, np.ndarray) else ())

    for c, (y, want, z, a, sh) in each(chk, lab, fn, replay, 16):
        chk.holds(f"{lab}: shape", sh == (() if shape == "scalar" else shape), replay, {"shape": str(sh)})
        for i, (p, q) in enumerate(zip([y] if shape == "scalar" else elems(y), want)):
            chk.equal(f"{lab}: value {i}", c, p, q, replay)
        if shape != "scalar":
            same(chk, lab, c, z, a, replay)


def psi_series(chk, r, K):
    pk = shim.fresh()
    lab = f"psi{r} series"
    replay = ("psi", dict(r=r, kind="c", shape=[3]))

    def fn(c):
        w = [c.sym(f"w{i}", real=False) for i in range(2)]
        c.pc += [("!=", x) for x in w]
        return w, elems(getattr(pk.etd, f"psi{r}")(arr([hsym() * x for x in w], "c")))

    for c, (w, y) in each(chk, lab, fn, replay, 16, T=K + 4):
        for i in range(2):
            for k in range(-3, K + 1):
                want = Poly.const(Fraction(math.factorial(r), math.factorial(k + r))) * w[i] ** k if k >= 0 else Poly({})
                chk.equal(f"{lab}: entry {i} z^{k}", c, Poly.lift(y[i]).hcoef(k), want, replay)


# ------------------------------------------------------------------ P18
def trig(c, n, real, half):
    """coefficients of a trigonometric polynomial below Nyquist, as {wavenumber: complex Poly}"""
    co = {}
    if real:
        co[0] = c.sym("c0")
        for k in range(1, half):
            a, b = c.sym(f"a{k}"), c.sym(f"b{k}")
            co[k] = (a - Poly.const(1j) * b) / 2
            co[-k] = (a + Poly.const(1j) * b) / 2
    else:
        for k in range(-(half - 1), half):
            co[k] = c.sym(f"c{k}", real=False)
    return co


def values(co, n, length, m=0):
    """m-th derivative at a + length*j/n (the phase is measured from a: any other origin only renames the coefficients)"""
    out = []
    for j in range(n):
        s = Poly({})
        for k, v in co.items():
            ang = Fraction(k * j % n, n)
            w = S._rootu(k * j % n, n)
            s = s + Poly.lift(v) * (w if not isinstance(w, (int, float, complex)) else Poly.const(w)) * (Poly.const(1j) * Poly.const(TWOPI * k) / length) ** m
        out.append(s)
    return out


def P18(chk):
    sizes = (4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 30, 32, 36, 40, 48, 50, 64, 96, 100, 128, 256) if chk.thorough else (4, 6, 8, 10, 12, 16, 18, 24, 32, 50, 64, 128)
    odd = tuple(range(3, 26, 2)) + (33,) if chk.thorough else (3, 5, 7, 9, 15)
    chk.bound(f"grids of {sizes} points from construct_x_kx_rfft/fft (and odd sizes {odd} with np.fft.rfftfreq/fftfreq wavenumbers); derivative orders 0..{10 if chk.thorough else 6} (from 18 points on: 0..4); every coefficient vector below Nyquist, every interval [a, a+Len], Len > 0; integer-valued arrays; two intervals used in turn")
    chk.assumption("the fast transforms are replaced by the exact discrete Fourier matrix; coefficients compared with tolerance 1e-9 after scaling by (2 pi k)^order")
    chk.encoded("rkstiff.derivatives.dx_rfft", "rkstiff.derivatives.dx_fft", "rkstiff.grids.construct_x_kx_rfft", "rkstiff.grids.construct_x_kx_fft")
    T = []
    for n in sorted(sizes + odd, reverse=True):
        for real in (True, False):
            T.append((fourier, (n, real, tuple(range(0, 5 if n >= 18 else 11 if chk.thorough else 7))), {}))
    T += [(fourier_errors, (real,), {}) for real in (True, False)]
    chk.parallel(T)


def fourier(chk, n, real, orders):
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"dx_{nm} n={n}"
    replay = ("fourier", dict(n=n, real=real, orders=list(orders)))
    half = (n + 1) // 2
    small = n <= 8

    def grid(c, a, L):
        if n % 2:
            return 2 * np.pi * (shim._rfftfreq if real else shim._fftfreq)(n, d=L / n)
        return getattr(pk.grids, f"construct_x_kx_{nm}")(n, a, a + L)[1]

    def fn(c):
        a, L = c.sym("a"), c.sym("Len", pos=True)
        f = getattr(pk.derivatives, f"dx_{nm}")
        kx = grid(c, a, L)
        co = trig(c, n, real, half)
        u0 = values(co, n, L)
        if real:
            u0 = [x.real for x in u0]
        u = arr(u0, "f" if real else "c")
        k0 = elems(kx)
        res = [f(kx, u, m) for m in orders]
        dflt = f(kx, u)
        ints = again = whole = None
        if not real and n <= 6:  # a real vector through the complex transform
            ints = f(kx, arr([v.real for v in u0], "f"), 2), [v.real for v in values(co, n, L, 2)]
        if small:
            # another interval of the same size in between, then the first again
            L2 = c.sym("Len2", pos=True)
            kx2 = grid(c, a, L2)
            mid = [f(kx2, u, m) for m in (1, 2, 3)]
            keep = [elems(r) for r in mid]
            first = []
            for m, r in zip(orders, res):
                if m in (1, 2, 3):
                    before = elems(r)
                    r[...] = 0  # a caller may overwrite a result
                    first.append((m, before, f(kx, u, m)))
            again = L2, mid, keep, first
            iv = [c.sym(f"i{j}", integer=True) for j in range(n)]
            whole = [(m, f(kx, arr(iv, "i"), m), f(kx, arr(iv, "f"), m)) for m in (0, 1, 2)]
        return L, co, u0, u, k0, kx, res, dflt, ints, again, whole

    for c, (L, co, u0, u, k0, kx, res, dflt, ints, again, whole) in each(chk, lab, fn, replay, 16):
        got = list(zip(list(orders) + [1], res + [dflt]))
        if again:
            L2, mid, keep, first = again
            got = [(m, r) for m, r in got if m not in (1, 2, 3)] + [(m, arr(b, "f" if real else "c")) for m, b, _ in first] + [(m, r) for m, _, r in first] + [(1, dflt)]
            for m, r, k in zip((1, 2, 3), mid, keep):
                want = values(co, n, L2, m)
                sc = Fraction(1, int(max(1, (TWOPI * half) ** m)))
                for j in range(n):
                    chk.equal(f"{lab}: other interval, order {m}, point {j}", c, Poly.lift(k[j]) * sc, (want[j].real if real else want[j]) * sc, replay)
                same(chk, f"{lab} earlier result, order {m}", c, k, r, replay)
            for m, r, w in whole:
                if not chk.holds(f"{lab}: integer input, order {m}, shape", S.plain(r).shape == (n,), replay):
                    continue
                for j in range(n):
                    chk.equal(f"{lab}: integer input, order {m}, point {j}", c, elems(r)[j], elems(w)[j], replay)
        for m, r in got:
            want = values(co, n, L, m)
            if real:
                want = [x.real for x in want]
                chk.holds(f"{lab}: real result, order {m}", not np.iscomplexobj(r), replay)
            if not chk.holds(f"{lab}: shape, order {m}", S.plain(r).shape == (n,), replay):
                continue
            sc = Fraction(1, int(max(1, (TWOPI * half) ** m)))
            for j in range(n):
                chk.equal(f"{lab}: order {m}, point {j}", c, Poly.lift(elems(r)[j]) * sc, want[j] * sc, replay)
        if ints is not None:
            # real part by real part: differentiate Re(u) (also band-limited)
            w = _real_part_derivative(co, n, L, 2)
            for j in range(n):
                chk.equal(f"{lab}: real input, order 2, point {j}", c, Poly.lift(elems(ints[0])[j]) / 4000, w[j] / 4000, replay)
        same(chk, lab + " u", c, u0, u, replay)
        same(chk, lab + " kx", c, k0, kx, replay)


def _real_part_derivative(co, n, L, m):
    cc = {}
    for k, v in co.items():
        cc[k] = cc.get(k, Poly({})) + v / 2
        cc[-k] = cc.get(-k, Poly({})) + v.conjugate() / 2
    return values(cc, n, L, m)


def fourier_errors(chk, real):
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"dx_{nm} errors"
    replay = ("fourier_errors", dict(real=real))

    def fn(c):
        x, kx = getattr(pk.grids, f"construct_x_kx_{nm}")(6, c.sym("a"), c.sym("a") + c.sym("Len", pos=True))
        u = arr([c.sym(f"u{i}") for i in range(6)], "f")
        f = getattr(pk.derivatives, f"dx_{nm}")
        out = {}
        n = c.sym("order", integer=True)
        c.pc.append(("<", n))
        out["negative order"] = (outcome(lambda: f(kx, u, n)), ValueError)
        for bad in (1.0, "1", None, 1.5, np.array([1])):
            out[f"order {bad!r}"] = (outcome(lambda: f(kx, u, bad)), TypeError)
        out["too few wavenumbers"] = (outcome(lambda: f(kx[:-1], u, 1)), ValueError)
        out["too many wavenumbers"] = (outcome(lambda: f(arr(elems(kx) + [Poly.const(1)], "f"), u, 2)), ValueError)
        if real:
            out["complex input"] = (outcome(lambda: f(kx, arr([c.sym(f"v{i}", real=False) for i in range(6)], "c"), 1)), TypeError)
            out["complex input, order 0"] = (outcome(lambda: f(kx, arr([c.sym(f"v{i}", real=False) for i in range(6)], "c"), 0)), TypeError)
        return out

    for c, out in each(chk, lab, fn, replay, 16):
        for k, ((st, v), exc) in out.items():
            if st != "exc" or not isinstance(v, exc):
                chk.path_fails(f"{lab}: {k} gave {st} {type(v).__name__}", c, replay, k)
            else:
                chk.holds(f"{lab}: {k} refused", True, replay)


# ------------------------------------------------------------------ P19
def P19(chk):
    sizes = tuple(range(2, 21)) + (24, 32, 40, 48, 50, 64, 80, 100) if chk.thorough else tuple(range(2, 14)) + (16, 20, 32, 50, 64)
    chk.bound(f"Chebyshev grids with n in {sizes}, derivative orders 0..{8 if chk.thorough else 6} (from n = 14 on: 0..3); every polynomial of degree <= n (free coefficients), every interval [a, a+Len]; vectors, one-, two- and (n+1)-column matrices, complex and integer-valued vectors, two intervals used in turn")
    chk.assumption("the nodes on [-1,1] are the double-precision ones from numpy; coefficients are compared with tolerance 1e-9 relative to the size of the derivative operator")
    chk.encoded("rkstiff.grids.construct_x_dx_cheb", "rkstiff.grids.construct_x_cheb", "rkstiff.derivatives.dx_cheb")
    T = [(cheb, (n, tuple(range(0, 4 if n >= 14 else 9 if chk.thorough else 7))), {}) for n in sorted(sizes, reverse=True)]
    T += [(cheb_forms, (n,), {}) for n in ((2, 3, 4, 6, 9) if chk.thorough else (2, 3, 4, 6))]
    T.append((cheb_errors, (), {}))
    chk.parallel(T)


def cheb(chk, n, orders):
    pk = shim.fresh()
    lab = f"dx_cheb n={n}"
    replay = ("cheb", dict(n=n, orders=list(orders)))

    def fn(c):
        a, L = c.sym("a"), c.sym("Len", pos=True)
        for v in pk.grids.construct_x_dx_cheb(n, a, a + L):
            v[...] = 0  # an earlier caller of the same grid may have changed its copy
        x, D = pk.grids.construct_x_dx_cheb(n, a, a + L)
        xs = [Poly.lift(e) for e in elems(x)]
        co = [c.sym(f"c{k}") for k in range(n + 1)]
        co2 = [c.sym(f"d{k}") for k in range(n + 1)]

        def val(cs, m):
            out = []
            for e in xs:
                s, t = Poly({}), (e - a) / L
                for k in range(m, n + 1):
                    s = s + cs[k] * t ** (k - m) * math.perm(k, m)
                out.append(s / L**m)
            return out

        u = arr(val(co, 0), "f")
        U = mat([list(p) for p in zip(val(co, 0), val(co2, 0))], "f")
        D0, u0, U0 = elems(D), elems(u), elems(U)
        r1 = [pk.derivatives.dx_cheb(D, u, m) for m in orders] + [pk.derivatives.dx_cheb(D, u)]
        r2 = [pk.derivatives.dx_cheb(D, U, m) for m in orders]
        return L, r1, r2, [val(co, m) for m in orders] + [val(co, 1)], [val(co2, m) for m in orders], (D, D0, u, u0, U, U0)

    for c, (L, r1, r2, w1, w2, keep) in each(chk, lab, fn, replay, 16):
        for i, m in enumerate(list(orders) + [1]):
            sc = Fraction(1, max(1, n ** (2 * m)))
            chk.holds(f"{lab}: shape order {m}", S.plain(r1[i]).shape == (n + 1,), replay)
            for j in range(n + 1):
                chk.equal(f"{lab}: order {m}, point {j}", c, Poly.lift(elems(r1[i])[j]) * sc, w1[i][j] * sc, replay)
            if i < len(orders):
                R = S.plain(r2[i])
                chk.holds(f"{lab}: matrix shape order {m}", R.shape == (n + 1, 2), replay)
                for j in range(n + 1):
                    chk.equal(f"{lab}: matrix order {m}, point {j}, column 0", c, Poly.lift(S._py(R[j, 0])) * sc, w1[i][j] * sc, replay)
                    chk.equal(f"{lab}: matrix order {m}, point {j}, column 1", c, Poly.lift(S._py(R[j, 1])) * sc, w2[i][j] * sc, replay)
        for nm, i in (("D", 0), ("u", 2), ("U", 4)):
            same(chk, f"{lab} {nm}", c, keep[i + 1], keep[i], replay)


def cheb_forms(chk, n):
    """shapes and kinds of input, and two grids of one size in turn: always the power of the matrix that was passed, applied to every column"""
    pk = shim.fresh()
    lab = f"dx_cheb forms n={n}"
    replay = ("cheb_forms", dict(n=n))
    top = 4 if n <= 4 else 3

    def fn(c):
        a = c.sym("a")
        L, L2 = c.sym("Len", pos=True), c.sym("Len2", pos=True)
        f = pk.derivatives.dx_cheb
        _, D = pk.grids.construct_x_dx_cheb(n, a, a + L)
        D0 = elems(D)
        out = []

        def ref(Dm, cols, m):
            M = S.plain(Dm)
            for _ in range(m):
                cols = [[sum((Poly.lift(S._py(M[i, k])) * col[k] for k in range(n + 1)), Poly({})) for i in range(n + 1)] for col in cols]
            return cols

        def run(tag, Dm, u, cols, m, L):
            r = f(Dm, u, m)
            out.append((f"{tag}, order {m}", r, np.shape(S.plain(u)), ref(Dm, cols, m), m, L))
            return r

        v = lambda s, k=1, **kw: [[c.sym(f"{s}{i}_{j}", **kw) for i in range(n + 1)] for j in range(k)]
        z, w, q = v("z", real=False), v("w", integer=True), v("q", n + 1)
        for m in range(top + 1):
            run("complex vector", D, arr(z[0], "c"), z, m, L)
            run("integer vector", D, arr(w[0], "i"), w, m, L)
            run("one column", D, mat([[e] for e in q[0]], "f"), q[:1], m, L)
            run("one complex column", D, mat([[e] for e in z[0]], "c"), z, m, L)
            if n <= 4 and m <= 3:
                run("square matrix", D, mat([list(p) for p in zip(*q)], "f"), q, m, L)
        _, D2 = pk.grids.construct_x_dx_cheb(n, a, a + L2)
        for m in (1, 2, 3):
            r = run("first grid", D, arr(q[0], "f"), q[:1], m, L)
            out[-1] = out[-1][:1] + (arr(elems(r), "f"),) + out[-1][2:]
            r[...] = 0  # a caller may overwrite a result
            run("second grid of this size", D2, arr(q[0], "f"), q[:1], m, L2)
            run("first grid again", D, arr(q[0], "f"), q[:1], m, L)
        return out, D, D0

    for c, (out, D, D0) in each(chk, lab, fn, replay, 16):
        for nm, r, sh, want, m, L in out:
            R = S.plain(r)
            if not chk.holds(f"{lab}: {nm}, shape", np.shape(R) == sh, replay, {"shape": str(np.shape(R))}):
                continue
            R = R.reshape(n + 1, -1)
            sc = Fraction(1, max(1, n ** (2 * m)))
            for j in range(n + 1):
                for k in range(len(want)):
                    chk.equal(f"{lab}: {nm}, entry {j},{k}", c, Poly.lift(S._py(R[j, k])) * sc, want[k][j] * sc, replay)
        same(chk, f"{lab} D", c, D0, D, replay)


def cheb_errors(chk):
    pk = shim.fresh()
    lab = "dx_cheb errors"
    replay = ("cheb_errors", {})

    def fn(c):
        f = pk.derivatives.dx_cheb
        D = mat([[c.sym(f"D{i}{j}") for j in range(4)] for i in range(4)], "f")
        D43 = mat([[c.sym(f"D{i}{j}") for j in range(3)] for i in range(4)], "f")
        u = arr([c.sym(f"u{i}") for i in range(4)], "f")
        n = c.sym("order", integer=True)
        c.pc.append(("<", n))
        out = {"negative order": (outcome(lambda: f(D, u, n)), ValueError)}
        for bad in (1.0, "1", None):
            out[f"order {bad!r}"] = (outcome(lambda: f(D, u, bad)), TypeError)
        out["size mismatch"] = (outcome(lambda: f(D, u[:3], 1)), ValueError)
        out["matrix size mismatch"] = (outcome(lambda: f(D, mat([[c.sym("v")] * 2] * 3, "f"), 1)), ValueError)
        out["not square"] = (outcome(lambda: f(D43, u, 1)), ValueError)
        out["three-dimensional"] = (outcome(lambda: f(D, S.wrap(np.zeros((4, 2, 2), dtype=object), "f"), 1)), ValueError)
        return out

    for c, out in each(chk, lab, fn, replay, 16):
        for k, ((st, v), exc) in out.items():
            if st != "exc" or not isinstance(v, exc):
                chk.path_fails(f"{lab}: {k} gave {st} {type(v).__name__}", c, replay, k)
            else:
                chk.holds(f"{lab}: {k} refused", True, replay)


# ------------------------------------------------------------------ P20
class Accepted(Exception):
    """the size check let the value pass"""


def P20(chk):
    sizes = tuple(range(4, 66, 2)) + (100, 128, 200, 256, 500, 512, 1000, 1024) if chk.thorough else tuple(range(4, 36, 2)) + (50, 64, 100, 128, 256, 512, 1024)
    csizes = tuple(range(2, 41)) + (50, 64, 100, 128) if chk.thorough else tuple(range(2, 21)) + (24, 32, 50, 64, 100, 128)
    chk.bound(f"uniform grids: n in {sizes}; Chebyshev grids: n in {csizes}; every interval [a, a+Len] with Len > 0 exactly (two intervals in turn for one size), and every double a, b with rounding (Len >= 1e-6 max(|a|,|b|)) for n in {sizes[:3]}")
    chk.bound("size validation: every integer n, and non-integers")
    chk.assumption("rounding model: each operation returns the exact result up to relative 2^-53 (no overflow or underflow)")
    chk.encoded("rkstiff.grids.construct_x_kx_rfft", "rkstiff.grids.construct_x_kx_fft", "rkstiff.grids.construct_x_cheb", "rkstiff.grids.construct_x_dx_cheb")
    T = []
    for real in (True, False):
        T += [(uniform_fp, (4, real), {}), (sizes_checked, (f"construct_x_kx_{'rfft' if real else 'fft'}", True), {})]
        T += [(uniform_rounded, (n, real), {}) for n in sizes[:3]]
        T += [(uniform, (n, real), {}) for n in sizes[::-1]]
    T += [(chebgrid, (n,), {}) for n in csizes[::-1]]
    T += [(sizes_checked, (nm, False), {}) for nm in ("construct_x_cheb", "construct_x_dx_cheb")]
    chk.parallel(T)


def uniform(chk, n, real):
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"construct_x_kx_{nm} n={n}"
    replay = ("uniform", dict(n=n, real=real))

    def fn(c):
        a, L = c.sym("a"), c.sym("Len", pos=True)
        f = getattr(pk.grids, f"construct_x_kx_{nm}")
        x, kx = f(n, a, a + L)
        first = elems(x), elems(kx)
        # a second interval in between, and results a caller may overwrite
        b, L2 = c.sym("b"), c.sym("Len2", pos=True)
        y, ky = f(n, b, b + L2)
        second = elems(y), elems(ky)
        x[...] = 0
        kx[...] = 0
        again = [elems(v) for v in f(n, a, a + L)]
        return a, L, *first, S.plain(x).ndim, S.plain(kx).ndim, (b, L2, second, (y, ky), again)

    modes = list(range(n // 2 + 1)) if real else list(range(n // 2)) + list(range(-n // 2, 0))
    for c, (a, L, x, kx, d1, d2, (b, L2, second, arrs, again)) in each(chk, lab, fn, replay, 16):
        for nm2, (p, q), (i0, l0) in (("other interval", second, (b, L2)), ("first interval again", again, (a, L))):
            if chk.holds(f"{lab}: {nm2}, sizes", (len(p), len(q)) == (n, len(modes)), replay):
                for j in sorted({0, 1, 2, n // 2, n - 1}):
                    chk.equal(f"{lab}: {nm2}, point {j}", c, p[j], i0 + l0 * Fraction(j, n), replay)
                for k, w in list(zip(modes, q))[:: max(1, len(q) // 5)]:
                    chk.equal(f"{lab}: {nm2}, wavenumber {k}", c, Poly.lift(w) * l0, Poly.const(TWOPI * k), replay)
        if n <= 8:
            for v, w in zip(second, arrs):
                same(chk, f"{lab} earlier result", c, v, w, replay)
        if chk.holds(f"{lab}: {n} points", (len(x), len(kx), d1, d2) == (n, len(modes), 1, 1), replay, {"sizes": str((len(x), len(kx)))}):
            for j in range(n):
                chk.equal(f"{lab}: point {j}", c, x[j], a + L * Fraction(j, n), replay)
            for k, w in zip(modes, kx):
                chk.equal(f"{lab}: wavenumber {k}", c, Poly.lift(w) * L, Poly.const(TWOPI * k), replay)
    # defaults
    x, kx = getattr(pk.grids, f"construct_x_kx_{nm}")(n)
    ok = len(x) == n and all(abs(float(x[j]) - TWOPI * j / n) < 1e-12 for j in range(n)) and all(abs(float(w) - k) < 1e-12 for k, w in zip(modes, kx)) and len(kx) == len(modes)
    chk.holds(f"{lab}: default interval", ok, replay)


def uniform_rounded(chk, n, real):
    """rounded reals: the grid of n points is within a few rounding errors of the exact one, starts at a and increases"""
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"construct_x_kx_{nm} rounded n={n}"
    replay = ("uniform", dict(n=n, real=real))

    def fn(c):
        a, b = F.rsym("a"), F.rsym("b")
        A, B = a.e, b.e
        m = z3.Real("mx")
        c.pc += [m >= A, m >= -A, m >= B, m >= -B, B - A >= m * z3.Q(1, 10**6), m > 0]
        x, kx = getattr(pk.grids, f"construct_x_kx_{nm}")(n, a, b)
        return A, B, m, [F.RF.lift(e) for e in elems(x)]

    for c, (A, B, m, x) in each(chk, lab, fn, replay, 256):
        if not chk.holds(f"{lab}: {n} points", len(x) == n, replay, {"points": len(x)}):
            continue
        pc = [p for p in c.pc if not isinstance(p, tuple)]
        chk.prove_z3(f"{lab}: starts at a", pc + [x[0] != A], replay)
        for j in range(n):
            d = x[j] - (A + (B - A) * z3.Q(j, n))
            tol = m * z3.Q(8, 2**52)
            chk.prove_z3(f"{lab}: point {j} accurate", pc + [z3.Or(d > tol, d < -tol)], replay)
            if j:
                chk.prove_z3(f"{lab}: increasing at {j}", pc + [x[j] <= x[j - 1]], replay)


def uniform_fp(chk, n, real):
    """doubles: the number of points never depends on rounding"""
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"construct_x_kx_{nm} doubles n={n}"
    replay = ("uniform", dict(n=n, real=real))

    def fn(c):
        a = F.sym("a", True)
        b = F.sym("b", True)
        c.pc += [z3.fpLT(a.e, b.e), z3.fpLT(z3.fpAbs(a.e), z3.FPVal(1e6, F.SORT)), z3.fpLT(z3.fpAbs(b.e), z3.FPVal(1e6, F.SORT)), z3.fpGT(z3.fpSub(F.RNE, b.e, a.e), z3.FPVal(1e-3, F.SORT))]
        x, kx = getattr(pk.grids, f"construct_x_kx_{nm}")(n, a, b)
        return len(elems(x)), len(elems(kx))

    want = (n, n // 2 + 1 if real else n)
    for c, r in each(chk, lab, fn, replay, 64):
        chk.holds(f"{lab}: point count", r == want, replay, {"counts": str(r)})


def sizes_checked(chk, name, even):
    """accepted sizes are exactly the documented ones, for every integer"""
    pk = shim.fresh()
    bad = (lambda n: [("<=", n - 2)]) if even else (lambda n: [("<", n - 2)])
    lab = f"{name} size"
    replay = ("sizes", dict(name=name, even=even))

    def setup(c):
        def stop(*a, **k):
            raise Accepted()

        c.arange_hook = stop
        c.chebpts2_hook = stop
        c.special_hook = stop

    def fn(c):
        setup(c)
        n = c.sym("n", integer=True)
        k = c.sym("k", integer=True)
        r = c.sym("r", integer=True)
        c.pc += [("==", k * 2 + r - n), (">=", r), ("<=", r - 1)]
        try:
            getattr(pk.grids, name)(n, c.sym("a"), c.sym("a") + c.sym("Len", pos=True))
            return n, r, "accepted"
        except Accepted:
            return n, r, "accepted"
        except (ValueError, TypeError) as e:
            return n, r, type(e).__name__

    seen = set()
    for c, (n, r, what) in each(chk, lab, fn, replay, 32):
        seen.add(what)
        if what == "accepted":
            for rel, p in bad(n):
                chk.refute(f"{lab}: no undersized grid accepted", c, [(rel, p)], replay)
            if even:
                chk.refute(f"{lab}: no odd size accepted", c, [("==", r - 1)], replay)
        else:
            chk.holds(f"{lab}: refused with ValueError", what == "ValueError", replay, {"raised": what})
            good = [(">", p) if rel == "<=" else (">=", p) for rel, p in bad(n)] + ([("==", r)] if even else [])
            chk.refute(f"{lab}: no valid size refused", c, good, replay)
    chk.holds(f"{lab}: both outcomes occur", seen == {"accepted", "ValueError"}, replay, {"seen": str(seen)})
    for v in (8.0, "8", None, 7.5, [8]):
        st, e = outcome(lambda: getattr(pk.grids, name)(v, 0.0, 1.0))
        chk.holds(f"{lab}: non-integer {v!r} refused", st == "exc" and isinstance(e, TypeError), replay, {"n": repr(v)})


def chebgrid(chk, n):
    pk = shim.fresh()
    lab = f"construct_x_cheb n={n}"
    replay = ("chebgrid", dict(n=n))

    def fn(c):
        a, L = c.sym("a"), c.sym("Len", pos=True)
        x = pk.grids.construct_x_cheb(n, a, a + L)
        x2, D = pk.grids.construct_x_dx_cheb(n, a, a + L)
        first = elems(x), elems(x2), S.plain(D).shape
        D0 = elems(D) if n <= 6 else []
        b, L2 = c.sym("b"), c.sym("Len2", pos=True)
        y = pk.grids.construct_x_cheb(n, b, b + L2)
        y2, Dy = pk.grids.construct_x_dx_cheb(n, b, b + L2)
        x[...] = 0
        x2[...] = 0
        D[...] = 0
        xa = pk.grids.construct_x_cheb(n, a, a + L)
        xb, Da = pk.grids.construct_x_dx_cheb(n, a, a + L)
        return a, L, *first, (b, L2, elems(y), elems(y2), elems(xa), elems(xb), D0, elems(Da) if n <= 6 else [])

    for c, (a, L, x, x2, sh, (b, L2, y, y2, xa, xb, D0, Da)) in each(chk, lab, fn, replay, 16):
        for nm2, v, (i0, l0) in (("other interval", y, (b, L2)), ("other interval, matrix grid", y2, (b, L2)), ("first interval again", xa, (a, L)), ("first interval again, matrix grid", xb, (a, L))):
            if chk.holds(f"{lab}: {nm2}, size", len(v) == n + 1, replay):
                for j in sorted({0, 1, n // 2, n}):
                    chk.equal(f"{lab}: {nm2}, node {j}", c, v[j], i0 + l0 * Poly.const((1 - math.cos(j * math.pi / n)) / 2), replay, 1e-12)
        for i, (p, q) in enumerate(zip(D0, Da)):
            chk.equal(f"{lab}: matrix entry {i} again", c, Poly.lift(q) * L, Poly.lift(p) * L, replay)
        if not chk.holds(f"{lab}: sizes", (len(x), len(x2), sh) == (n + 1, n + 1, (n + 1, n + 1)), replay):
            continue
        for j in range(n + 1):
            want = a + L * Poly.const((1 - math.cos(j * math.pi / n)) / 2)
            chk.equal(f"{lab}: node {j}", c, x[j], want, replay, 1e-12)
            chk.equal(f"{lab}: node {j} of the matrix grid", c, x2[j], x[j], replay, 1e-12)
            if j:
                chk.refute(f"{lab}: increasing at {j}", c, [("<=", _ex(x[j]) - _ex(x[j - 1]))], replay)
    x2, D2 = pk.grids.construct_x_dx_cheb(n)
    x3, D3 = pk.grids.construct_x_dx_cheb(n, -1.0, 1.0)
    ok = len(elems(x2)) == n + 1 and all(abs(float(p) - float(q)) < 1e-12 for p, q in zip(elems(x2) + elems(D2), elems(x3) + elems(D3)))
    chk.holds(f"{lab}: default interval of the matrix grid", ok, replay)
    x = pk.grids.construct_x_cheb(n)
    chk.holds(f"{lab}: default interval", len(x) == n + 1 and all(abs(float(x[j]) + math.cos(j * math.pi / n)) < 1e-12 for j in range(n + 1)), replay)


def _ex(p):
    """float coefficients as exact rationals"""
    return Poly({m: (Fraction(c) if isinstance(c, float) else c) for m, c in Poly.lift(p).t.items()})


# ------------------------------------------------------------------ P21
def P21(chk):
    sizes = (4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 50, 64, 100, 128, 200, 256) if chk.thorough else (4, 5, 6, 8, 12, 16, 24, 32, 50, 64, 100, 128)
    chk.bound(f"nr in {sizes}, every radius rmax > 0, every complex function vector; reconfiguration sequences of length {3 if chk.thorough else 2} over new nr (4, 5, 6), new rmax (every positive real), refused nr, refused rmax (every non-positive real, NaN)")
    chk.assumption("Bessel functions and their zeros come from scipy; matrix entries are compared with tolerance 1e-10; the pair inverts up to the quadrature error of the quasi-discrete transform (5e-3 at nr=4, 1e-4 from nr=8)")
    chk.encoded("rkstiff.transforms.HankelTransform.*", "rkstiff.grids.construct_r_kr_hankel")
    T = [(hankel_config, (3 if chk.thorough else 2,), {})] + [(hankel, (n,), {}) for n in sizes[::-1]] + [(hankel_two, (n,), {}) for n in (4, 6)] + [(hankel_sizes, (), {})]
    chk.parallel(T)


def hankel_ref(n):
    import scipy.special as sp

    z = sp.jn_zeros(0, n + 1)
    j, J = z[:-1], z[-1]
    return j, J, 2 * sp.j0(np.outer(j, j) / J) / (J * sp.j1(j)[None, :] ** 2)


def hankel(chk, n):
    pk = shim.fresh()
    lab = f"HankelTransform nr={n}"
    replay = ("hankel", dict(n=n))
    j, J, Y = hankel_ref(n)
    import scipy.special as sp

    qt = float(np.abs(Y.dot(Y) - np.eye(n)).max())

    def fn(c):
        R = c.sym("rmax", pos=True)
        H = pk.transforms.HankelTransform(n, R)
        f = arr([c.sym(f"f{i}", real=False) for i in range(n)], "c")
        f0 = elems(f)
        F2 = mat([[c.sym(f"f{i}", real=False), c.sym(f"g{i}", real=False)] for i in range(n)], "c")
        g = H.ht(f)
        G2 = H.ht(F2)
        inv = H.iht(g)
        dirinv = H.iht(f)
        Yc, zc = H.hankel_matrix(), H.bessel_zeros()
        cpy = (elems(Yc), elems(zc))
        return R, f0, f, elems(H.r), elems(H.kr), cpy, elems(g), elems(inv), elems(dirinv), S.plain(G2), (H.nr, H.rmax)

    for c, (R, f0, f, r, kr, (Yc, zc), g, inv, di, G2, cfg) in each(chk, lab, fn, replay, 16):
        chk.holds(f"{lab}: sizes", (len(r), len(kr), len(zc), len(Yc), len(g)) == (n, n, n, n * n, n), replay)
        chk.equal(f"{lab}: rmax", c, cfg[1], R, replay)
        for i in range(n):
            chk.equal(f"{lab}: r[{i}]", c, r[i], R * Poly.const(float(j[i] / J)), replay)
            chk.equal(f"{lab}: kr[{i}]", c, Poly.lift(kr[i]) * R, Poly.const(float(j[i])), replay)
            chk.equal(f"{lab}: zero {i}", c, zc[i], Poly.const(float(j[i])), replay)
            wf, wi = Poly({}), Poly({})
            for k in range(n):
                chk.equal(f"{lab}: matrix entry {i},{k}", c, Yc[i * n + k], Poly.const(float(Y[i, k])), replay, 1e-10)
                wf = wf + f0[k] * Poly.const(float(Y[i, k] / J))
                wi = wi + f0[k] * Poly.const(float(Y[i, k] * J))
            chk.equal(f"{lab}: forward value {i}", c, Poly.lift(g[i]), wf * R**2, replay, 1e-10)
            chk.equal(f"{lab}: inverse value {i}", c, Poly.lift(di[i]) * R**2, wi, replay, 1e-8)
            chk.equal(f"{lab}: inverse undoes forward, entry {i}", c, inv[i], f0[i], replay, 5e-3 if n < 8 else 1e-4)
            chk.equal(f"{lab}: column 0 of a matrix, entry {i}", c, S._py(G2[i, 0]), g[i], replay)
        same(chk, lab, c, f0, f, replay)
    # the forward transform of a finite Bessel series is the analytic one
    for m in range(min(n, 4) - 1 if n < 8 else 4):
        prof = sp.j0(j[m] * (j / J))
        G = np.zeros(n)
        G[m] = sp.j1(j[m]) ** 2 / 2

        def fn2(c, prof=prof):
            R = c.sym("rmax", pos=True)
            A = c.sym("A", real=False)
            H = pk.transforms.HankelTransform(n, R)
            return R, A, elems(H.ht(arr([A * Poly.const(float(x)) for x in prof], "c")))

        for c, (R, A, g) in each(chk, lab + f" mode {m}", fn2, replay, 16):
            for i in range(n):
                chk.equal(f"{lab}: analytic transform of J0(k_{m} r) at k_{i}", c, g[i], A * R**2 * Poly.const(float(G[i])), replay, 2e-2 if n < 8 else 2e-3)


def snap(H):
    """public observables and stored attributes of a transform object"""
    d = {"nr": H.nr, "rmax": H.rmax, "r": H.r, "kr": H.kr, "matrix": H.hankel_matrix(), "zeros": H.bessel_zeros()}
    d["forward of ones"] = H.ht(np.ones(len(elems(H.r)))) if not any(isinstance(x, float) for x in [H.rmax]) else None
    out = {}
    for k, v in d.items():
        out[k] = [Poly.lift(x) for x in elems(np.asarray(v))] if isinstance(v, np.ndarray) else [Poly.lift(v)] if v is not None else []
    return out


def cmp_snap(chk, lab, c, a, b, replay):
    for k in b:
        if not chk.holds(f"{lab}: size of {k}", len(a[k]) == len(b[k]), replay, {"what": k}):
            continue
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if x.key() == y.key() and i:
                continue  # identical terms; the first entry keeps an explicit query
            chk.equal(f"{lab}: {k}[{i}]", c, x, y, replay, 1e-10)


def hankel_two(chk, n):
    """two objects of one size and different radius in turn: neither sees the other, results can be overwritten, integer and real input"""
    pk = shim.fresh()
    lab = f"HankelTransform two objects nr={n}"
    replay = ("hankel_two", dict(n=n))
    j, J, Y = hankel_ref(n)

    def fn(c):
        R = [c.sym("R0", pos=True), c.sym("R1", pos=True)]
        H = [pk.transforms.HankelTransform(n, r) for r in R]
        f = arr([c.sym(f"f{i}", real=False) for i in range(n)], "c")
        g = arr([c.sym(f"g{i}", integer=True) for i in range(n)], "i")
        f0, g0 = elems(f), elems(g)
        log = []
        for k in (0, 1, 0):
            for nm, v, v0 in (("complex", f, f0), ("integer", g, g0)):
                a, b = H[k].ht(v), H[k].iht(v)
                log.append((f"object {k}, {nm}", R[k], v0, elems(a), elems(b), a.dtype.kind + b.dtype.kind))
                a[...] = 0
                b[...] = 0
        return R, f0, f, g0, g, log, [(elems(h.r), elems(h.kr)) for h in H]

    for c, (R, f0, f, g0, g, log, grids) in each(chk, lab, fn, replay, 16):
        for nm, r, v0, a, b, kd in log:
            for i in range(n):
                w = sum((Poly.lift(v0[k]) * Poly.const(float(Y[i, k])) for k in range(n)), Poly({}))
                chk.equal(f"{lab}: {nm}, forward {i}", c, Poly.lift(a[i]), w * r**2 * Poly.const(1 / J), replay, 1e-10)
                chk.equal(f"{lab}: {nm}, inverse {i}", c, Poly.lift(b[i]) * r**2 * Poly.const(1 / J), w, replay, 1e-8)
            if nm.endswith("integer"):
                chk.holds(f"{lab}: {nm}: real result", kd == "ff", replay, {"kinds": kd})
        for k in (0, 1):
            for i in range(n):
                chk.equal(f"{lab}: object {k}, r[{i}]", c, grids[k][0][i], R[k] * Poly.const(float(j[i] / J)), replay)
                chk.equal(f"{lab}: object {k}, kr[{i}]", c, Poly.lift(grids[k][1][i]) * R[k], Poly.const(float(j[i])), replay)
        same(chk, lab, c, f0, f, replay)
        same(chk, lab, c, g0, g, replay)


def hankel_config(chk, depth):
    pk = shim.fresh()
    lab = "HankelTransform reconfiguration"
    replay = ("hankel_config", dict(depth=depth))

    def fn(c):
        R0 = c.sym("rmax0", pos=True)
        H = pk.transforms.HankelTransform(5, R0)
        nr, R = 5, R0
        log = []
        for s in range(depth):
            k = choose(c, 6, f"op{s}")
            before = snap(H)
            if k == 0:
                nr = (4, 6, 5)[s % 3]
                H.nr = nr
                log.append(("set nr", snap(H), snap(pk.transforms.HankelTransform(nr, R))))
            elif k == 1:
                R = c.sym(f"rmax{s + 1}", pos=True)
                H.rmax = R
                log.append(("set rmax", snap(H), snap(pk.transforms.HankelTransform(nr, R))))
            elif k == 2:
                b = c.sym(f"bad{s}", integer=True)
                c.pc.append(("<", b - 4))
                st, e = outcome(lambda: setattr(H, "nr", b))
                log.append(("refuse nr < 4" if st == "exc" and isinstance(e, ValueError) else "!accepted nr < 4", snap(H), before))
            elif k == 3:
                for v in (4.5, 6.0, "7", None):
                    st, e = outcome(lambda: setattr(H, "nr", v))
                    log.append((f"refuse nr {v!r}" if st == "exc" else f"!accepted nr {v!r}", snap(H), before))
            elif k == 4:
                b = c.sym(f"badr{s}")
                c.pc.append(("<=", b))
                st, e = outcome(lambda: setattr(H, "rmax", b))
                log.append(("refuse rmax <= 0" if st == "exc" and isinstance(e, ValueError) else "!accepted rmax <= 0", snap(H), before))
            else:
                for v in (NAN, -INF, 0.0, -0.0, 0):
                    st, e = outcome(lambda: setattr(H, "rmax", v))
                    if st != "exc":
                        log.append((f"!accepted rmax {v!r}", before, before))
                        return log
                    log.append((f"refuse rmax {v!r}", snap(H), before))
            # writing into returned copies changes nothing
            keep = snap(H)
            M, z = H.hankel_matrix(), H.bessel_zeros()
            M[...] = 7
            z[...] = 7
            log.append(("write into returned arrays", snap(H), keep))
        return log

    for c, log in each(chk, lab, fn, replay, 400):
        for i, (nm, a, b) in enumerate(log):
            chk.holds(f"{lab}: {nm}", not nm.startswith("!"), replay, {"op": nm})
            cmp_snap(chk, f"{lab}: {i} {nm}", c, a, b, replay)


def hankel_sizes(chk):
    pk = shim.fresh()
    lab = "HankelTransform construction"
    replay = ("hankel_config", dict(depth=1))

    def fn(c):
        def stop(name, *a, **k):
            raise Accepted()

        n, R = c.sym("nr", integer=True), c.sym("rmax")
        c.special_hook = stop
        try:
            pk.transforms.HankelTransform(n, R)
            return n, R, "accepted"
        except Accepted:
            return n, R, "accepted"
        except Exception as e:
            return n, R, type(e).__name__
        finally:
            c.special_hook = None

    for c, (n, R, what) in each(chk, lab, fn, replay, 32):
        if what == "accepted":
            chk.refute(f"{lab}: nr < 4 never accepted", c, [("<", n - 4)], replay)
            chk.refute(f"{lab}: rmax <= 0 never accepted", c, [("<=", R)], replay)
        else:
            chk.holds(f"{lab}: refused with ValueError", what == "ValueError", replay, {"raised": what})
            chk.refute(f"{lab}: no valid pair refused", c, [(">=", n - 4), (">", R)], replay)
    for n in (4, 5, 9):
        a, b = ([float(H.rmax)] + [float(v) for v in elems(H.r) + elems(H.kr)] for H in (pk.transforms.HankelTransform(n), pk.transforms.HankelTransform(n, 1.0)))
        chk.holds(f"{lab}: default radius, nr={n}", len(a) == len(b) and all(abs(p - q) < 1e-12 for p, q in zip(a, b)), replay)
    for v in (NAN, -INF, 0.0, -1):
        st, e = outcome(lambda: pk.transforms.HankelTransform(4, v))
        chk.holds(f"{lab}: rmax={v} refused", st == "exc" and isinstance(e, ValueError), replay, {"rmax": str(v)})


# ------------------------------------------------------------------ P22
def P22(chk):
    sizes = tuple(range(1, 17)) + (24, 32, 64, 100, 128, 256) if chk.thorough else tuple(range(1, 11)) + (16, 32, 64, 128)
    chk.bound(f"radial grids of {sizes} points, data vectors and matrices with 1, 2, 3, 5 and n other entries, every integer, real or complex value; every integer axis")
    chk.encoded("rkstiff.grids.mirror_grid")
    T = []
    for n in sizes[::-1]:
        for kind in "fci":
            ms = (1, 2, 3, 5, n) if n <= 6 else (1, 3)
            T.append((mirrors, (n, kind, ((None, 0), (-1, 0), ("default", 0)) + tuple((ax, m) for ax in (0, 1) for m in sorted(set(ms)))), {}))
    T.append((mirror_axis, (), {}))
    chk.parallel(T)


def mirrors(chk, n, kind, forms):
    for axis, m in forms:
        mirror(chk, n, kind, axis, m)


def mirror(chk, n, kind, axis, m):
    pk = shim.fresh()
    lab = f"mirror_grid {n} {kind} axis={axis} {m}"
    replay = ("mirror", dict(n=n, kind=kind, axis=axis, m=m))

    def fn(c):
        r = arr([c.sym(f"r{i}") for i in range(n)], "f")
        r0 = elems(r)
        sym = lambda i, k: c.sym(f"u{i}_{k}", integer=True) if kind == "i" else c.sym(f"u{i}_{k}", real=kind == "f")
        if axis is None:
            R, U = pk.grids.mirror_grid(r)
            return r0, r, None, None, R, U, None
        if axis in (-1, "default"):
            u = arr([sym(i, 0) for i in range(n)], kind)
            want = [[x] for x in elems(u)[::-1] + elems(u)]
        elif axis == 0:
            u = mat([[sym(i, k) for k in range(m)] for i in range(n)], kind)
            rows = [[sym(i, k) for k in range(m)] for i in range(n)]
            want = rows[::-1] + rows
        else:
            u = mat([[sym(k, i) for i in range(n)] for k in range(m)], kind)
            rows = [[sym(k, i) for i in range(n)] for k in range(m)]
            want = [x[::-1] + x for x in rows]
        u0 = elems(u)
        R, U = pk.grids.mirror_grid(r, u) if axis == "default" else pk.grids.mirror_grid(r, u, axis=axis)
        return r0, r, u0, u, R, U, want

    for c, (r0, r, u0, u, R, U, want) in each(chk, lab, fn, replay, 16):
        wr = [-x for x in r0[::-1]] + r0
        if chk.holds(f"{lab}: grid size", S.plain(R).shape == (2 * n,), replay):
            for i, (x, y) in enumerate(zip(elems(R), wr)):
                chk.equal(f"{lab}: grid {i}", c, x, y, replay)
        chk.holds(f"{lab}: grid is new memory", not np.shares_memory(S.plain(R), S.plain(r)), replay)
        same(chk, lab, c, r0, r, replay)
        if axis is None:
            chk.holds(f"{lab}: no function", U is None, replay)
            continue
        flat = [x for w in want for x in w]
        sh = (2 * n,) if axis in (-1, "default") else (len(want), len(want[0]))
        if chk.holds(f"{lab}: data shape", S.plain(U).shape == sh, replay, {"shape": str(S.plain(U).shape)}):
            for i, (x, y) in enumerate(zip(elems(U), flat)):
                chk.equal(f"{lab}: data {i}", c, x, y, replay)
        chk.holds(f"{lab}: data is new memory", not np.shares_memory(S.plain(U), S.plain(u)), replay)
        same(chk, lab + " u", c, u0, u, replay)


def mirror_axis(chk):
    pk = shim.fresh()
    lab = "mirror_grid invalid axis"
    replay = ("mirror_axis", {})

    def fn(c):
        ax = c.sym("axis", integer=True)
        r = arr([c.sym("r0"), c.sym("r1")], "f")
        u = mat([[c.sym(f"u{i}{j}") for j in range(2)] for i in range(2)], "f")
        return ax, outcome(lambda: pk.grids.mirror_grid(r, u, ax))

    acc = 0
    for c, (ax, (st, v)) in each(chk, lab, fn, replay, 32):
        if st == "ok":
            acc += 1
            chk.refute(f"{lab}: only -1, 0, 1 accepted", c, [("!=", ax), ("!=", ax - 1), ("!=", ax + 1)], replay)
        else:
            chk.holds(f"{lab}: ValueError", isinstance(v, ValueError), replay, {"raised": repr(v)})
            chk.refute(f"{lab}: valid axes never refused", c, [z3.Or(*[z3.ToReal(z3.Int("axis")) == k for k in (-1, 0, 1)])], replay)
    chk.holds(f"{lab}: the three axes are accepted", acc >= 1, replay)


# ------------------------------------------------------------------ P23
def P23(chk):
    sizes = (4, 6, 8, 10, 12, 14, 16, 20, 24, 28, 32, 64, 100) if chk.thorough else (4, 6, 8, 10, 12, 16, 20, 32, 64)
    csz = (2, 3, 4, 5, 6, 7, 8) if chk.thorough else (2, 3, 4, 5, 6)
    chk.bound(f"Fourier models: {sizes} points, every real state below Nyquist, every interval length and every real viscosity (either sign), two models built in turn; Allen-Cahn: {tuple(k + 1 for k in csz)} points, every grid, every differentiation matrix (free entries), every complex interior state and epsilon; solitons: every amplitude, position and time (exact differentiation), sums of up to {6 if chk.thorough else 5} solitons on 1 to 6 points")
    chk.encoded("rkstiff.models.kdv_ops", "rkstiff.models.burgers_ops", "rkstiff.models.allen_cahn_ops", "rkstiff.models.kdv_soliton", "rkstiff.models.kdv_multi_soliton")
    chk.assumption("fast transforms are the exact discrete Fourier matrix; tolerance 1e-9 per scaled coefficient")
    T = [(fourier_model, (nm, n), {}) for n in sizes[::-1] for nm in ("kdv", "burgers")]
    T += [(allen, (n,), {}) for n in csz[::-1]] + [(soliton, (), {}), (models_in_turn, (), {})]
    T += [(multi, (m,), {}) for m in range(1, 7 if chk.thorough else 6)]
    chk.parallel(T)


def models_in_turn(chk):
    """several operator pairs of one size alive at once: each keeps its own parameters"""
    pk = shim.fresh()
    lab = "models in turn"
    replay = ("models_in_turn", {})
    n, half = 6, 3

    def fn(c):
        L = [c.sym("L0", pos=True), c.sym("L1", pos=True)]
        mu = [c.sym("mu0"), c.sym("mu1")]
        kx = [pk.grids.construct_x_kx_rfft(n, 0, l)[1] for l in L]
        B = [pk.models.burgers_ops(k, m) for k, m in zip(kx, mu)]
        K = [pk.models.kdv_ops(k) for k in kx]
        co = trig(c, n, True, half)
        uf = lambda: arr([co[k] * n for k in range(half)] + [Poly({})], "c")
        r = []
        for which, M in (("burgers", B), ("kdv", K)):
            for i in (0, 1, 0):
                v = M[i][1](uf())
                r.append((which, i, elems(v)))
                v[...] = 0
        lins = [(w, i, elems(M[i][0])) for w, M in (("burgers", B), ("kdv", K)) for i in (0, 1)]
        N = 2
        eps = [c.sym("e0", pos=True), c.sym("e1", pos=True)]
        D = [mat([[c.sym(f"D{q}_{i}_{j}") for j in range(N + 2)] for i in range(N + 2)], "f") for q in (0, 1)]
        x = [arr([c.sym(f"x{q}_{i}") for i in range(N + 2)], "f") for q in (0, 1)]
        A = [pk.models.allen_cahn_ops(x[q], D[q], eps[q]) for q in (0, 1)]
        u = [c.sym(f"u{i}", real=False) for i in range(N)]
        ac = []
        for q in (0, 1, 0):
            v = A[q][1](arr(u, "c"))
            ac.append((q, elems(v), elems(A[q][0])))
            v[...] = 0
        # real and integer states: the same numbers
        w = [c.sym(f"w{i}", integer=True) for i in range(N)]
        forms = [elems(A[0][1](arr(w, k))) for k in "ifc"]
        return L, mu, co, r, lins, (N, eps, [elems(d) for d in D], [elems(v) for v in x], u, ac), (w, forms)

    for c, (L, mu, co, r, lins, (N, eps, D, x, u, ac), (iw, forms)) in each(chk, lab, fn, replay, 16):
        for which, i, v in r:
            uu, ux = values(co, n, L[i]), values(co, n, L[i], 1)
            for k in range(half + 1):
                want = sum((uu[j] * ux[j] * S_root(-k * j, n) for j in range(n)), Poly({})) * (-6 if which == "kdv" else -1)
                chk.equal(f"{lab}: {which} {i}, mode {k}", c, Poly.lift(v[k]) / 1000, want / 1000, replay)
        for which, i, v in lins:
            for k in range(half + 1):
                w = Poly.const(1j) * Poly.const(TWOPI * k) / L[i]
                chk.equal(f"{lab}: {which} {i}, linear symbol {k}", c, Poly.lift(v[k]) / 10000, (-(w**3) if which == "kdv" else mu[i] * w**2) / 10000, replay)
        for q, v, lin in ac:
            full = [Poly({})] + u + [Poly({})]
            for i in range(N):
                lhs = sum((Poly.lift(lin[i * N + k]) * u[k] for k in range(N)), Poly({})) + v[i]
                d2 = Poly({})
                for k in range(N + 2):
                    s = sum((D[q][(i + 1) * (N + 2) + m] * D[q][m * (N + 2) + k] for m in range(N + 2)), Poly({}))
                    d2 = d2 + s * full[k]
                vv = u[i] + x[q][i + 1]
                chk.equal(f"{lab}: Allen-Cahn {q}, right-hand side {i}", c, lhs, eps[q] * d2 + vv - vv**3, replay)
        for i in range(N):
            vv = iw[i] + x[0][i + 1]
            for k, v in zip("ifc", forms):
                chk.equal(f"{lab}: Allen-Cahn, state as {k}, entry {i}", c, v[i], x[0][i + 1] - vv**3, replay)


def fourier_model(chk, name, n):
    pk = shim.fresh()
    lab = f"{name}_ops n={n}"
    replay = ("fourier_model", dict(name=name, n=n))
    half = n // 2

    def fn(c):
        L = c.sym("Len", pos=True)
        mu = c.sym("mu")
        _, kx = pk.grids.construct_x_kx_rfft(n, c.sym("a"), c.sym("a") + L)
        k0 = elems(kx)
        co = trig(c, n, True, half)
        lin, nl = pk.models.kdv_ops(kx) if name == "kdv" else pk.models.burgers_ops(kx, mu)
        uf = arr([co[k] * n for k in range(half)] + [Poly({})], "c")
        uf0 = elems(uf)
        r = nl(uf)
        r2 = nl(uf)
        return L, mu, co, lin, elems(r), elems(r2), uf0, uf, k0, kx

    for c, (L, mu, co, lin, r, r2, uf0, uf, k0, kx) in each(chk, lab, fn, replay, 16):
        w = lambda k: Poly.const(TWOPI * k) / L
        ok = chk.holds(f"{lab}: sizes", (S.plain(lin).shape, len(r)) == ((half + 1,), half + 1), replay)
        if not ok:
            continue
        for k in range(half + 1):
            # u_t = -u_xxx  or  mu u_xx on exp(i w x)
            want = -((Poly.const(1j) * w(k)) ** 3) if name == "kdv" else mu * (Poly.const(1j) * w(k)) ** 2
            sc = Fraction(1, 10000)
            chk.equal(f"{lab}: linear symbol of mode {k}", c, Poly.lift(elems(lin)[k]) * sc, want * sc, replay)
        u, ux = values(co, n, L), values(co, n, L, 1)
        fac = -6 if name == "kdv" else -1
        for k in range(half + 1):
            want = Poly({})
            for j in range(n):
                want = want + u[j] * ux[j] * S_root(-k * j, n)
            want = want * fac
            chk.equal(f"{lab}: nonlinear mode {k}", c, Poly.lift(r[k]) / 1000, want / 1000, replay)
            chk.equal(f"{lab}: nonlinear mode {k}, second call", c, Poly.lift(r2[k]) / 1000, want / 1000, replay)
        same(chk, lab + " state", c, uf0, uf, replay)
        same(chk, lab + " kx", c, k0, kx, replay)


def S_root(k, n):
    w = S._rootu(k % n, n)
    return w if isinstance(w, Poly) else Poly.const(w)


def allen(chk, n):
    pk = shim.fresh()
    lab = f"allen_cahn_ops n={n}"
    replay = ("allen", dict(n=n))

    def fn(c):
        eps = c.sym("eps", pos=True)
        D = mat([[c.sym(f"D{i}_{j}") for j in range(n + 1)] for i in range(n + 1)], "f")
        x = arr([c.sym(f"x{i}") for i in range(n + 1)], "f")
        D0, x0 = elems(D), elems(x)
        lin, nl = pk.models.allen_cahn_ops(x, D, eps)
        u = arr([c.sym(f"u{i}", real=False) for i in range(n - 1)], "c")
        u0 = elems(u)
        r = nl(u)
        return eps, D0, x0, lin, u0, u, elems(r), D, x, S.plain(r).shape

    for c, (eps, D0, x0, lin, u0, u, r, D, x, sh) in each(chk, lab, fn, replay, 16):
        m = n - 1
        if not chk.holds(f"{lab}: sizes", S.plain(lin).shape == (m, m) and sh == (m,), replay):
            continue
        Lm = S.plain(lin)
        full = [Poly({})] + u0 + [Poly({})]  # u vanishes at the boundary: v = u + x keeps its boundary values
        for i in range(m):
            lhs = sum((Poly.lift(S._py(Lm[i, k])) * u0[k] for k in range(m)), Poly({})) + r[i]
            d2 = Poly({})
            for k in range(n + 1):
                s = Poly({})
                for q in range(n + 1):
                    s = s + D0[(i + 1) * (n + 1) + q] * D0[q * (n + 1) + k]
                d2 = d2 + s * full[k]
            v = u0[i] + x0[i + 1]
            chk.equal(f"{lab}: right-hand side {i}", c, lhs, eps * d2 + v - v**3, replay)
        for nm, b, a in (("D", D0, D), ("x", x0, x), ("u", u0, u)):
            same(chk, f"{lab} {nm}", c, b, a, replay)
    # default epsilon
    D = np.array([[1.0, 2, 0], [0.5, -1, 1], [2, 0, 3]])
    lin, nl = pk.models.allen_cahn_ops(np.array([-1.0, 0.2, 1.0]), D)
    want = 0.01 * (D @ D)[1:-1, 1:-1] + np.eye(1)
    chk.holds(f"{lab}: default epsilon 0.01", abs(complex(elems(lin)[0]) - want[0, 0]) < 1e-14, replay)


def soliton(chk):
    pk = shim.fresh()
    lab = "kdv_soliton"
    replay = ("soliton", {})

    def fn(c):
        x, a, x0, t = (c.sym(v) for v in ("x", "ampl", "x0", "t"))
        X = arr([x, c.sym("y")], "f")
        u = pk.models.kdv_soliton(X, a, x0, t)
        return x, a, x0, t, elems(u), X

    for c, (x, a, x0, t, u, X) in each(chk, lab, fn, replay, 16):
        aid = {v: c.byname[v].id for v in ("x", "t", "y")}
        chk.holds(f"{lab}: one value per point", len(u) == 2, replay)
        for i, v in ((0, "x"), (1, "y")):
            w = Poly.lift(u[i])
            dx = w.deriv(aid[v])
            res = w.deriv(aid["t"]) + w * dx * 6 + dx.deriv(aid[v]).deriv(aid[v])
            chk.equal(f"{lab}: satisfies KdV at {v}", c, P.clear_inv(_ex(res)), Poly({}), replay)
            th = a * (c.sym(v) - x0 - a**2 * t) / 2
            ref = a**2 / 2 * (Poly.const(1) / th.cosh()) ** 2
            chk.equal(f"{lab}: documented profile at {v}", c, P.clear_inv(_ex(w - ref)), Poly({}), replay)
        same(chk, lab, c, [x, c.sym("y")], X, replay)
    d = pk.models.kdv_soliton(np.array([0.3, -1.0]))
    ok = all(abs(float(d[i]) - 0.125 / math.cosh(0.25 * v) ** 2) < 1e-14 for i, v in enumerate((0.3, -1.0)))
    chk.holds(f"{lab}: default amplitude, position and time", ok, replay)


def multi(chk, m):
    pk = shim.fresh()
    replay = ("multi_soliton", {})
    for npt in (1, 2, 3, 6) if m <= 3 else (2,):
        lab = f"kdv_multi_soliton {m}, {npt} points"

        def fn(c):
            X = arr([c.sym(f"x{i}") for i in range(npt)], "f")
            X0 = elems(X)
            am = [c.sym(f"a{i}") for i in range(m)]
            xs = [c.sym(f"p{i}") for i in range(m)]
            t = c.sym("t")
            u = pk.models.kdv_multi_soliton(X, am, xs, t)
            one = [elems(pk.models.kdv_soliton(X, am[i], xs[i], t)) for i in range(m)]
            forms = [elems(pk.models.kdv_multi_soliton(X, f(am), g(xs), t)) for f, g in ((tuple, list), (lambda v: arr(v, "f"), lambda v: arr(v, "f")))]
            zero = elems(pk.models.kdv_multi_soliton(X, am, xs)), [elems(pk.models.kdv_soliton(X, am[i], xs[i])) for i in range(m)]
            bad = [outcome(lambda: pk.models.kdv_multi_soliton(X, am, xs + [t], t)), outcome(lambda: pk.models.kdv_multi_soliton(X, am + [t], xs, t)), outcome(lambda: pk.models.kdv_multi_soliton(X, am, xs + am[:1] * m, t))]
            return elems(u), one, forms, zero, bad, X0, X

        def add(lab, c, u, one):
            if chk.holds(f"{lab}: one value per point", len(u) == npt, replay):
                for i in range(npt):
                    w = sum((Poly.lift(o[i]) for o in one), Poly({}))
                    d = Poly.lift(u[i]) - w
                    chk.equal(f"{lab}: sum of the single solitons, point {i}", c, P.clear_inv(_ex(d)) if d.t else Poly.lift(u[i]), Poly({}) if d.t else w, replay)

        for c, (u, one, forms, zero, bad, X0, X) in each(chk, lab, fn, replay, 16):
            add(lab, c, u, one)
            for f in forms:
                add(lab + ", sequence form", c, f, one)
            add(lab + ", default time", c, *zero)
            chk.holds(f"{lab}: mismatched lengths refused", all(st == "exc" and isinstance(e, ValueError) for st, e in bad), replay)
            same(chk, lab, c, X0, X, replay)
