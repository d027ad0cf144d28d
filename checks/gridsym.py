"""P30: discrete operators commute with the shifts and reflections of their grid, on every array."""
from fractions import Fraction
import math
import numpy as np
from lib import symarr as S, shim
from lib.poly import Poly
from lib.common import *
from checks.functions import each, TWOPI

BIG = dict(quick=(3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32), thorough=(3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 32, 48))


def P30(chk):
    sizes = BIG["thorough" if chk.thorough else "quick"]
    msizes = [n for n in sizes if n % 2 == 0 and n > 2][: 11 if chk.thorough else 6]
    chk.bound(f"Fourier derivatives on {sizes} points: every real or complex array (content at the Nyquist wavenumber included), every interval length, orders 0..4; cyclic shifts, reflection, linear combinations with any factors, sum over the grid, summation by parts; the real and the complex transform on the same data")
    chk.bound(f"KdV and Burgers nonlinearities on {tuple(msizes)} points: every real field (Nyquist content included), every interval length; shift, reflection, mean value, quadratic scaling")
    chk.encoded("rkstiff.derivatives.dx_rfft", "rkstiff.derivatives.dx_fft", "rkstiff.grids.construct_x_kx_rfft", "rkstiff.grids.construct_x_kx_fft", "rkstiff.models.kdv_ops", "rkstiff.models.burgers_ops")
    chk.assumption("fast transforms are the exact discrete Fourier matrix; tolerance 1e-9 per scaled coefficient")
    T = [(model_symmetry, (nm, n), {}) for n in msizes[::-1] for nm in ("kdv", "burgers")]
    T += [(derivative_symmetry, (n, real), {}) for n in sizes[::-1] for real in (True, False)]
    chk.parallel(T)


def wave(pk, c, n, real, L):
    if n % 2 or n < 4:
        return 2 * np.pi * (shim._rfftfreq if real else shim._fftfreq)(n, d=L / n)
    a = c.sym("a")
    return getattr(pk.grids, "construct_x_kx_" + ("rfft" if real else "fft"))(n, a, a + L)[1]


def roll(x, s):
    return x[-s:] + x[:-s]


def flipped(x):
    return [x[0]] + x[:0:-1]


def derivative_symmetry(chk, n, real):
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"dx_{nm} of {n} points"
    replay = ("derivative_symmetry", dict(n=n, real=real))
    kind = "f" if real else "c"
    orders = range(5)

    def fn(c):
        L = c.sym("Len", pos=True)
        f = getattr(pk.derivatives, f"dx_{nm}")
        kx = wave(pk, c, n, real, L)
        u = [c.sym(f"u{j}", real=real) for j in range(n)]
        v = [c.sym(f"v{j}", real=real) for j in range(n)]
        al, be = c.sym("al", real=real), c.sym("be", real=real)
        g = lambda x, m: elems(f(kx, arr(x, kind), m))
        out = []
        for m in orders:
            du, dv = g(u, m), g(v, m)
            r = dict(du=du, dv=dv, roll=[(s, g(roll(u, s), m)) for s in sorted({1, 2, n // 2})], flip=g(flipped(u), m), lin=g([al * p + be * q for p, q in zip(u, v)], m))
            if not real:
                w = [c.sym(f"w{j}") for j in range(n)]
                kr = wave(pk, c, n, True, L)
                r["real"] = g(w, m), elems(pk.derivatives.dx_rfft(kr, arr(w, "f"), m))
            out.append((m, r))
        return u, v, al, be, out

    for c, (u, v, al, be, out) in each(chk, lab, fn, replay, 8):
        for m, r in out:
            sc = Fraction(1, int(max(1, (TWOPI * (n // 2 + 1)) ** m)) * 8)
            E = lambda what, x, y: [chk.equal(f"{lab}: order {m}, {what}, point {j}", c, Poly.lift(p) * sc, Poly.lift(q) * sc, replay) for j, (p, q) in enumerate(zip(x, y))]
            du, dv = r["du"], r["dv"]
            if not chk.holds(f"{lab}: order {m}, length", len(du) == n, replay):
                continue
            for s, w in r["roll"]:
                E(f"data shifted by {s}", w, roll(du, s))
            if real or m % 2 == 0 or n % 2:
                E("data reflected", r["flip"], [x * (-1) ** m for x in flipped(du)])
            E("linear combination", r["lin"], [al * p + be * q for p, q in zip(du, dv)])
            if m:
                E("sum over the grid", [sum((Poly.lift(x) for x in du), Poly({})) / n], [Poly({})])
            if real:
                a = sum((Poly.lift(p) * q for p, q in zip(v, du)), Poly({}))
                b = sum((Poly.lift(p) * q for p, q in zip(u, dv)), Poly({}))
                E("summation by parts", [a / n], [b / n * (-1) ** m])
            else:
                E("real part against the real transform", [Poly.lift(x).real for x in r["real"][0]], r["real"][1])


def model_symmetry(chk, name, n):
    pk = shim.fresh()
    lab = f"{name}_ops of {n} points"
    replay = ("model_symmetry", dict(name=name, n=n))
    h = n // 2 + 1

    def fn(c):
        L = c.sym("Len", pos=True)
        mu = c.sym("mu")
        a = c.sym("a")
        kx = pk.grids.construct_x_kx_rfft(n, a, a + L)[1]
        lin, nl = pk.models.kdv_ops(kx) if name == "kdv" else pk.models.burgers_ops(kx, mu)
        uf = [c.sym(f"f{k}", real=k in (0, h - 1)) for k in range(h)]  # transform of a real field
        al = c.sym("al")
        ph = lambda k: S._rootu(-k % n, n)
        N = lambda x: elems(nl(arr(x, "c")))
        return L, uf, al, [Poly.lift(ph(k)) for k in range(h)], N(uf), N([x * ph(k) for k, x in enumerate(uf)]), N([Poly.lift(x).conjugate() for x in uf]), N([al * x for x in uf]), N([-x for x in uf]), elems(lin)

    for c, (L, uf, al, ph, N0, Ns, Nc, Na, Nn, lin) in each(chk, lab, fn, replay, 8):
        sc = Fraction(1, 2000)
        if not chk.holds(f"{lab}: lengths", {len(x) for x in (N0, Ns, Nc, Na, lin)} == {h}, replay):
            continue
        E = lambda what, x, y: [chk.equal(f"{lab}: {what}, mode {k}", c, Poly.lift(p) * sc, Poly.lift(q) * sc, replay) for k, (p, q) in enumerate(zip(x, y))]
        E("mean value kept", [N0[0]], [Poly({})])
        E("state shifted by one point", Ns, [w * x for w, x in zip(ph, N0)])
        E("state reflected", Nc, [-Poly.lift(x).conjugate() for x in N0])
        E("state scaled", Na, [al * al * x for x in N0])
        E("state negated", Nn, N0)
        for k, x in enumerate(N0):
            if k in (0, h - 1):
                E(f"real coefficient {k}", [Poly.lift(x).imag], [Poly({})])
        E("linear part of a real field", [Poly.lift(lin[0])], [Poly({})])
