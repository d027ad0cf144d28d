"""Step-level properties decided on exact symbolic algebra (no series truncation):
P04 linear problems, P05 constant forcing and equilibria, P06 representation independence."""
from fractions import Fraction
import numpy as np
from lib import poly as P, symarr as S, shim, explore
from lib.poly import Poly
from lib.common import *
from lib.methods import *

# fixed non-orthogonal eigenbases (integer, determinant 1) used to build dense operators
BASES = {
    2: (((1, 1), (1, 2)), ((2, -1), (-1, 1))),
    3: (((1, 1, 0), (1, 2, 1), (0, 1, 2)), ((3, -2, 1), (-2, 2, -1), (1, -1, 1))),
}


J = lambda x: Poly.const(1j) * x
# further 2x2 eigenbases: complex symmetric / Hermitian-like / triangular operators
BASES2 = {
    "sym": (((1, 1), (1, -1)), ((Fraction(1, 2), Fraction(1, 2)), (Fraction(1, 2), Fraction(-1, 2)))),
    "herm": (((1, 1), (1j, -1j)), ((0.5, -0.5j), (0.5, 0.5j))),
    "tri": (((1, 1), (0, 1)), ((1, -1), (0, 1))),
}
# operator families: (basis, dtype, restriction on the eigenvalues)
FAMILIES = {"gen": ("gen", "c", None), "sym": ("sym", "c", None), "herm": ("herm", "c", None), "hermreal": ("herm", "c", "real"), "tri": ("tri", "c", None), "real": ("gen", "f", "real"), "rot": ("herm", "f", "pair")}


def families(variant, full=True):
    return ["gen", "real"] if variant == "diag" else list(FAMILIES) if full else ["gen", "rot", "sym"]


def basis(n, base="gen"):
    Sm, Si = BASES[n] if base == "gen" else BASES2[base]
    conv = lambda x: Poly.const(x) if isinstance(x, complex) else Fraction(x)
    A = np.array([[conv(x) for x in r] + [None] for r in Sm], dtype=object)[:, :-1]
    B = np.array([[conv(x) for x in r] + [None] for r in Si], dtype=object)[:, :-1]
    assert all(Poly.lift(sum((A[i, k] * B[k, j] for k in range(n)), Fraction(0))).const_value() == int(i == j) for i in range(n) for j in range(n))
    return A, B


def eigenvalues(c, n, fam="gen"):
    r = FAMILIES[fam][2]
    lam = [c.sym(f"lam{i}", real=r == "real") for i in range(n)]
    if r == "pair":
        lam = [lam[0], lam[0].conjugate()]
    return lam


def dense(lam, Sm, Si):
    n = len(lam)
    return [[sum((Poly.lift(lam[k]) * (Sm[i, k] * Si[k, j]) for k in range(n)), Poly({})) for j in range(n)] for i in range(n)]


def apply(M, v):
    return [sum((Poly.lift(v[j]) * M[i, j] for j in range(len(v))), Poly({})) for i in range(len(v))]


def operator(c, variant, lam, fam="gen"):
    """(lin_op as passed to the solver, S, S^-1)"""
    n = len(lam)
    base, kind, _ = FAMILIES[fam]
    if variant == "diag":
        I = np.array([[Fraction(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)
        return arr(lam, kind), I, I
    Sm, Si = basis(n, base)
    c.eigdecomp = [(Sm, Si)]
    return mat(dense(lam, Sm, Si), kind), Sm, Si


def regimes(name, variant):
    return ["large", "small"] if name in ETD and variant in ("diag", "eig") else ["any"]


def constrain(c, lam, h, cut, reg):
    if reg in ("large", "small"):
        for l in lam:
            c.pc.append((">=" if reg == "large" else "<", abs(h * l) - Poly.const(cut)))


def zeros(n):
    return lambda x: S.wrap(np.array([0] * n, dtype=object), "c")


# ------------------------------------------------------------------ P04
def P04(chk):
    chk.bound("two modes, arbitrary complex eigenvalues, arbitrary initial state, arbitrary step size h > 0; diagonal, dense and diagonalized forms of all seven solvers; direct and contour coefficient regimes")
    chk.bound("dense operators: S diag(lambda) S^-1 with free lambda and four fixed S (non-orthogonal integer, complex symmetric, Hermitian, triangular), complex and real dtype (real spectrum, and rotations with a conjugate pair)")
    chk.assumption("exact arithmetic: rounding of exp and of the products is outside the claim")
    n = 2
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant))
        for reg, fam in [(r, f) for r in regimes(name, variant) for f in families(variant)]:
            pk = shim.fresh()
            etd = {"modecutoff": 0.01, "contour_points": 4}
            lab = f"{name}/{variant}/{reg}/{fam}"
            replay = ("linear", dict(solver=name, variant=variant, regime=reg, fam=fam))

            def fn(c):
                h = hsym()
                lam = eigenvalues(c, n, fam)
                u = [c.sym(f"u{i}", real=False) for i in range(n)]
                constrain(c, lam, h, 0.01, reg)
                L, Sm, Si = operator(c, variant, lam, fam)
                if variant == "eig":
                    c.pc.append((">=", c.sym("cond", real=True, pos=True) - 1))
                    c.pc.append(("<=", c.sym("cond", real=True, pos=True) - 1000))
                s = make(pk, name, variant, L, zeros(n), etd)
                u1, _, _, err = public_step(s, name, arr(u, "c"), h)
                e1 = elems(u1)
                v = apply(Si, u)
                want = apply(Sm, [P.expp(h * lam[i]) * v[i] for i in range(n)])
                # a second step re-uses cached coefficients
                u2, _, _, err2 = public_step(s, name, u1, h)
                want2 = apply(Sm, [P.expp(h * lam[i] * 2) * v[i] for i in range(n)])
                return e1, want, elems(u2), want2, [x for e in err + err2 for x in e]

            cnt = 0
            for c, r, e in chk.paths(fn, None, 16):
                if e is not None:
                    chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
                    continue
                cnt += 1
                u1, w1, u2, w2, err = r
                for i in range(n):
                    chk.equal(f"{lab}: first step, component {i}", c, u1[i], w1[i], replay)
                    chk.equal(f"{lab}: second step, component {i}", c, u2[i], w2[i], replay)
                for i, x in enumerate(err):
                    chk.equal(f"{lab}: zero error estimate, component {i}", c, x, Poly({}), replay)
                chk.reachable(lab, c)
            if not cnt:
                chk.reach_failed.append(lab)
    # zero error estimate => the step is accepted as it is
    for name in AS:
        chk.encoded("rkstiff.solveras.BaseSolverAS.step", "rkstiff.solveras.BaseSolverAS._compute_s", "rkstiff.solveras.BaseSolverAS._accept_step_size")
        pk = shim.fresh()
        lab = f"{name}: accepted"
        replay = ("linear_accept", dict(solver=name))

        def fn(c):
            h = hsym()
            lam = [Poly.const(Fraction(-1)), Poly.const(Fraction(-20))]
            c.zero_div = True
            u = [c.sym(f"u{i}", real=False) for i in range(n)]
            s = make(pk, name, "diag", np.array([-1.0, -20.0]), zeros(n), {"modecutoff": 0.01, "contour_points": 4}) if name != "_" else None
            hs = Fraction(1, 2)
            un, h1, h2 = s.step(arr(u, "c"), 0.5)
            return elems(un), h1, h2, [P.expp(Poly.const(l) * hs) * u[i] for i, l in enumerate((-1, -20))]

        cnt = 0
        for c, r, e in chk.paths(fn, None, 64):
            if e is not None:
                chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
                continue
            cnt += 1
            un, h1, h2, want = r
            chk.holds(f"{lab}: full step taken", _num(h1) == 0.5, replay, {"h": str(h1)})
            chk.holds(f"{lab}: next step not smaller", _num(h2) >= 0.5, replay, {"h_suggest": str(h2)})
            for i in range(n):
                chk.equal(f"{lab}: exact, component {i}", c, un[i], want[i], replay)
            chk.reachable(lab, c)
        if not cnt:
            chk.reach_failed.append(lab)


def _num(x):
    if isinstance(x, Poly):
        return float(x.const_value()) if x.is_const() else float("nan")
    return float(x)


# ------------------------------------------------------------------ shared: nonlinear functions with free values
class TolOracle:
    """arbitrary nonlinear function of the physical state, seen from the solver's coordinates:
    equal arguments (up to rounding of the encoding) give equal free values"""

    def __init__(self, c, n, to=None, back=None, kind="c", preset=None, name="N", memo=None, upto=None):
        self.upto = upto
        self.c, self.n, self.to, self.back, self.kind, self.name = c, n, to, back, kind, name
        self.memo = memo if memo is not None else []
        self.preset = preset or (lambda x: None)
        self.count = 0

    def __call__(self, x):
        self.count += 1
        xs = [Poly.lift(e) for e in elems(x)]
        if self.to is not None:
            xs = apply(self.to, xs)
        r = None
        for a, v in self.memo:
            if all(near(p, q, upto=self.upto) for p, q in zip(a, xs)):
                r = v
                break
        if r is None:
            r = self.preset(xs)
            if r is None:
                r = [self.c.sym(f"{self.name}{len(self.memo)}_{i}", real=self.kind != "c") for i in range(self.n)]
            self.memo.append((xs, r))
        if self.back is not None:
            r = apply(self.back, r)
        return arr(list(r), self.kind)


def near(a, b, tol=1e-9, upto=None):
    d = a - b
    return all(abs(P.c_num(x)) < tol for m, x in d.t.items() if upto is None or P.h_exp(m) <= upto)


def cmp_series(chk, lab, c, a, b, K, replay, tol=1e-9):
    """Taylor coefficients in h of a and b agree through h^K (and negative powers cancel)"""
    a, b = Poly.lift(a), Poly.lift(b)
    lo = int(min([P.h_exp(m) for p in (a, b) for m in p.t] + [0]))
    for k in range(lo, K + 1):
        x, y = a.hcoef(k), b.hcoef(k)
        if x.t or y.t:
            chk.equal(f"{lab} h^{k}", c, x, y, replay, tol)


def big(t):
    return {"modecutoff": 0.01, "contour_points": t, "contour_radius": 1.0}


# ------------------------------------------------------------------ P05
def P05(chk):
    K = 7 if chk.thorough else 5
    M = 32 if chk.thorough else 24
    chk.bound("two modes, arbitrary complex eigenvalues, forcing, state; closed-formula regime: every step size (exact algebra), two consecutive steps")
    chk.bound(f"contour regime and full matrices: Taylor coefficients in h through h^{K}, contour of {M} points, every 2x2 matrix (four free entries) and the operator families of P04; tolerance 1e-9 per coefficient")
    chk.assumption("exact arithmetic; series truncation beyond the stated order is outside the claim")
    n = 2
    for name in ETD:
        for variant in [v for m, v in VARIANTS if m == name]:
            chk.encoded(*funcs(name, variant), "rkstiff.etd.psi1", "rkstiff.etd.psi2", "rkstiff.etd.psi3")
            if variant != "full":
                for fam in families(variant):
                    forcing_exact(chk, name, variant, n, fam)
                equilibrium(chk, name, variant, n)
            for fam in families(variant):
                forcing_series(chk, name, variant, n, K, M, fam)


def forcing_exact(chk, name, variant, n, fam):
    pk = shim.fresh()
    lab = f"{name}/{variant}/closed/{fam}"
    replay = ("forcing", dict(solver=name, variant=variant, regime="large", fam=fam))

    def fn(c):
        h = hsym()
        lam = eigenvalues(c, n, fam)
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        f = [c.sym(f"f{i}", real=False) for i in range(n)]
        constrain(c, lam, h, 0.01, "large")
        L, Sm, Si = operator(c, variant, lam, fam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        s = make(pk, name, variant, L, lambda x: arr(list(f), "c"), big(4))
        v, g = apply(Si, u), apply(Si, f)
        u1, _, _, e1 = public_step(s, name, arr(u, "c"), h)
        x1 = elems(u1)
        w = [P.expp(h * lam[i]) * v[i] + (P.expp(h * lam[i]) - 1) * g[i] / lam[i] for i in range(n)]
        u2, _, _, e2 = public_step(s, name, u1, h)
        w2 = [P.expp(h * lam[i]) * w[i] + (P.expp(h * lam[i]) - 1) * g[i] / lam[i] for i in range(n)]
        return x1, apply(Sm, w), elems(u2), apply(Sm, w2), [x for e in e1 + e2 for x in e]

    cnt = 0
    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        x1, w1, x2, w2, err = r
        for i in range(n):
            chk.equal(f"{lab}: first step, component {i}", c, x1[i], w1[i], replay)
            chk.equal(f"{lab}: second step, component {i}", c, x2[i], w2[i], replay)
        for i, x in enumerate(err):
            chk.equal(f"{lab}: zero error estimate {i}", c, x, Poly({}), replay)
        chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


def equilibrium(chk, name, variant, n):
    """any nonlinear function with N(u*) = -L u*: u* is a fixed point of the step"""
    pk = shim.fresh()
    lab = f"{name}/{variant}/equilibrium"
    replay = ("equilibrium", dict(solver=name, variant=variant))

    def fn(c):
        h = hsym()
        lam = [c.sym(f"lam{i}", real=False) for i in range(n)]
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        constrain(c, lam, h, 0.01, "large")
        L, Sm, Si = operator(c, variant, lam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        v = apply(Si, u)
        f = apply(Sm, [-(lam[i] * v[i]) for i in range(n)])
        us = [Poly.lift(x) for x in u]
        N = TolOracle(c, n, preset=lambda xs: f if all(near(a, b) for a, b in zip(xs, us)) else None)
        s = make(pk, name, variant, L, N, big(4))
        u1, _, _, e1 = public_step(s, name, arr(u, "c"), h)
        u2, _, _, e2 = public_step(s, name, u1, h)
        return u, elems(u1), elems(u2), [x for e in e1 + e2 for x in e]

    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        u, x1, x2, err = r
        for i in range(n):
            chk.equal(f"{lab}: fixed point, component {i}", c, x1[i], u[i], replay)
            chk.equal(f"{lab}: fixed point after two steps, component {i}", c, x2[i], u[i], replay)
        for i, x in enumerate(err):
            chk.equal(f"{lab}: zero error estimate {i}", c, x, Poly({}), replay)


def forcing_series(chk, name, variant, n, K, M, fam="gen"):
    pk = shim.fresh()
    lab = f"{name}/{variant}/contour/{fam}"
    replay = ("forcing", dict(solver=name, variant=variant, regime="small", fam=fam))

    def fn(c):
        h = hsym()
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        f = [c.sym(f"f{i}", real=False) for i in range(n)]
        if variant == "full" and fam == "gen":
            rows = [[c.sym(f"L{i}{j}", real=False) for j in range(n)] for i in range(n)]
            L, Lrows = mat(rows, "c"), rows
            Sm = Si = None
        else:
            lam = eigenvalues(c, n, fam)
            constrain(c, lam, h, 0.01, "small")
            L, Sm, Si = operator(c, variant, lam, fam)
            Lrows = lam if variant == "diag" else dense(lam, Sm, Si)
            if variant == "eig":
                c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        s = make(pk, name, variant, L, lambda x: arr(list(f), "c"), big(M))
        u1, _, _, e1 = public_step(s, name, arr(u, "c"), h)
        w = taylor(c, Lrows, lambda x: f, [Poly.lift(x) for x in u], K)
        return elems(u1), w, [x for e in e1 for x in e]

    cnt = 0
    for c, r, e in chk.paths(fn, K, 16):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        x1, w, err = r
        for i in range(n):
            cmp_series(chk, f"{lab}: step, component {i}", c, x1[i], w[i], K, replay)
        for i, x in enumerate(err):
            cmp_series(chk, f"{lab}: zero error estimate {i}", c, x, Poly({}), K, replay)
        chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P06
def P06(chk):
    K = 8 if chk.thorough else 6
    M = 32
    chk.bound("operators S diag(lambda) S^-1 with arbitrary complex lambda, for the operator families of P04; 2 modes, 3 in thorough; arbitrary state, step size and nonlinear function (one free value per distinct argument); first step, a rejected attempt and a second step re-using the last stage")
    chk.bound(f"integrating-factor methods and the closed-formula regime: exact algebra; full-matrix ETD against the diagonal form: Taylor coefficients through h^{K}, contour of {M} points, tolerance 1e-9")
    chk.assumption("the eigendecomposition returned by numpy is S diag(lambda) S^-1")
    chk.assumption("full-matrix ETD forms are claimed only while all eigenvalues of h*L lie inside the contour (see the known finding)")
    T = []
    for name in CS + AS:
        vs = [v for m, v in VARIANTS if m == name]
        for variant in [v for v in vs if v != "diag"]:
            chk.encoded(*funcs(name, variant))
            sizes = (2, 3) if chk.thorough else (2,)
            for n, fam in [(m, f) for m in sizes for f in (families(variant) if m == 2 else ["gen"])]:
                if name in ETD:
                    if variant == "eig":
                        T.append((form_exact, (name, variant, n, "large", fam), {}))
                    if n == 2:
                        T.append((form_series, (name, variant, n, K, M, fam), {}))
                else:
                    T.append((form_exact, (name, variant, n, "any", fam), {}))
    chk.parallel(T)
    radius_finding(chk)


def build_pair(c, pk, name, variant, n, reg, M, oracle, fam="gen"):
    h = hsym()
    lam = eigenvalues(c, n, fam)
    u = [c.sym(f"u{i}", real=False) for i in range(n)]
    constrain(c, lam, h, 0.01, reg)
    L, Sm, Si = operator(c, variant, lam, fam)
    if variant == "eig":
        c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
    c.pc.append((">=", h - Fraction(1, 10**9)))  # above the minimum step
    N = TolOracle(c, n, memo=oracle)
    Nd = TolOracle(c, n, to=Sm, back=Si, memo=oracle)
    s = make(pk, name, variant, L, N, big(M))
    d = make(pk, name, "diag", arr(lam, "c"), Nd, big(M))
    return h, u, Sm, Si, s, d


def two_forms(name, h, u, Sm, Si, s, d):
    """the same sequence of attempts on both forms -> list of (label, caller-basis value of form, of diagonal form)"""
    out = []
    script = (0.5, 1.0) if name in AS else (1.0,)
    a, ha, _, ea = public_step(s, name, arr(u, "c"), h, script)
    b, hb, _, eb = public_step(d, name, arr(apply(Si, u), "c"), h, script)
    av, bv = elems(a), elems(b)
    out.append(("state", av, apply(Sm, bv)))
    for k, (x, y) in enumerate(zip(ea, eb)):
        out.append((f"estimate of attempt {k}", x, apply(Sm, y)))
    a2, _, _, ea = public_step(s, name, a, ha)
    b2, _, _, eb = public_step(d, name, b, hb)
    out.append(("second state", elems(a2), apply(Sm, elems(b2))))
    for k, (x, y) in enumerate(zip(ea, eb)):
        out.append((f"second estimate", x, apply(Sm, y)))
    return out


def form_exact(chk, name, variant, n, reg, fam="gen"):
    pk = shim.fresh()
    lab = f"{name}/{variant} vs diagonal, {n} modes, {reg}/{fam}"
    replay = ("forms", dict(solver=name, variant=variant, regime=reg, fam=fam))

    def fn(c):
        return two_forms(name, *build_pair(c, pk, name, variant, n, reg, 4, [], fam))

    run_forms(chk, lab, fn, None, replay)


def form_series(chk, name, variant, n, K, M, fam="gen"):
    pk = shim.fresh()
    lab = f"{name}/{variant} vs diagonal, series/{fam}"
    replay = ("forms", dict(solver=name, variant=variant, regime="small", fam=fam))

    def fn(c):
        h, u, Sm, Si, s, d = build_pair(c, pk, name, variant, n, "small", M, [], fam)
        return two_forms(name, h, u, Sm, Si, s, d)

    run_forms(chk, lab, fn, K, replay)


def run_forms(chk, lab, fn, T, replay):
    cnt = 0
    for c, r, e in chk.paths(fn, T, 32):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        for what, x, y in r:
            for i, (p, q) in enumerate(zip(x, y)):
                if T is None:
                    chk.equal(f"{lab}: {what}, component {i}", c, p, q, replay)
                else:
                    cmp_series(chk, f"{lab}: {what}, component {i}", c, p, q, T, replay)
        chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


def radius_finding(chk):
    """known finding: an eigenvalue of h*L outside the fixed contour; decided on one concrete operator"""
    f = chk.finding("F2")
    if f is None:
        return
    for name in f["solvers"]:
        pk = shim.fresh()

        def fn(c):
            c.sym("f", real=False)
            L = np.array([[-4.0, 0.0], [0.0, -4.0]])
            cf = [c.sym(f"f{i}", real=False) for i in range(2)]
            s = make(pk, name, "full", L, lambda x: arr(list(cf), "c"), big(32))
            u1, _, _, _ = public_step(s, name, arr([c.sym(f"u{i}", real=False) for i in range(2)], "c"), 1.0)
            d = make(pk, name, "diag", np.array([-4.0, -4.0]), lambda x: arr(list(cf), "c"), big(32))
            u2, _, _, _ = public_step(d, name, arr([c.sym(f"u{i}", real=False) for i in range(2)], "c"), 1.0)
            return elems(u1), elems(u2)

        for c, r, e in chk.paths(fn, None, 4):
            if e is not None or not all(near(Poly.lift(p), Poly.lift(q), 1e-6) for p, q in zip(*r)):
                chk.known_hit.append(f["what"] + f" ({name})")


# ------------------------------------------------------------------ P07
def P07(chk):
    K = 8 if chk.thorough else 6
    chk.bound(f"contour against closed formulas: every complex eigenvalue, Taylor coefficients of the whole step (state and estimate) through h^{K}, contours (points, radius) in (32,1), (16,1/2), (17,1), (32,2); tolerance 1e-9")
    chk.bound("independence of modes: three modes, arbitrary complex eigenvalues, arbitrary cutoff in (0,1/2], all 8 mixtures; step-size change with two modes, all 14 feasible mixtures; contours of 3 points")
    chk.assumption("exact arithmetic: cancellation of the closed formulas just above the cutoff is outside the claim")
    for name in ETD:
        for variant in [v for m, v in VARIANTS if m == name and v != "full"]:
            chk.encoded(*funcs(name, variant), "rkstiff.etd.psi1", "rkstiff.etd.psi2", "rkstiff.etd.psi3")
            rings = [(32, 1.0), (17, 1.0)] + ([(16, 0.5), (32, 2.0), (64, 1.0)] if chk.thorough or variant == "diag" else [])
            for M, rad in rings:
                branches(chk, name, variant, K, M, rad)
            selection(chk, name, variant)
            mixtures(chk, name, variant, 3)
            rescale(chk, name, variant, 2)


def branches(chk, name, variant, K, M, rad):
    pk = shim.fresh()
    lab = f"{name}/{variant} contour {M} points radius {rad}"
    replay = ("branches", dict(solver=name, variant=variant, points=M, radius=rad))

    def fn(c):
        h = hsym()
        lam = [c.sym(f"lam{i}", real=False) for i in range(2)]
        u = [c.sym(f"u{i}", real=False) for i in range(2)]
        lo, hi = Fraction(1, 1000), Fraction(2, 5)
        for l in lam:
            c.pc += [(">=", abs(h * l) - lo), ("<", abs(h * l) - hi)]
        c.pc.append((">=", h - Fraction(1, 10**9)))
        L, Sm, Si = operator(c, variant, lam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        memo = []
        out = []
        for cut in (float(lo), float(hi)):
            s = make(pk, name, variant, L, TolOracle(c, 2, memo=memo, upto=K), {"modecutoff": cut, "contour_points": M, "contour_radius": rad})
            a, _, _, e = public_step(s, name, arr(u, "c"), h)
            out.append(elems(a) + [x for y in e for x in y])
        return out

    cnt = 0
    for c, r, e in chk.paths(fn, K + 3, 8):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        a, b = r
        if not any(p.key() != q.key() for p, q in zip(map(Poly.lift, a), map(Poly.lift, b))):
            chk.reach_failed.append(f"{lab}: the two cutoffs select the same formulas")
        for i, (p, q) in enumerate(zip(a, b)):
            cmp_series(chk, f"{lab}: component {i}", c, p, q, K, replay)
        chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


def decoupled(c, n, memos, to=None, back=None):
    """nonlinear function acting on each (eigen-)mode separately, arbitrary on each"""

    def N(x):
        xs = [Poly.lift(e) for e in elems(x)]
        if to is not None:
            xs = apply(to, xs)
        r = []
        for i in range(len(xs)):
            mm = memos[i]
            for a, v in mm:
                if near(a, xs[i]):
                    r.append(v)
                    break
            else:
                v = c.sym(f"N{i}_{len(mm)}", real=False)
                mm.append((xs[i], v))
                r.append(v)
        if back is not None:
            r = apply(back, r)
        return arr(r, "c")

    return N


def closed_only_above(chk, lab, c, vals, lam, h, cut, replay):
    """1/lambda_i appears only where |h lambda_i| >= cutoff"""
    ids = {next(iter(next(iter(l.t))))[0]: i for i, l in enumerate(lam)}
    neg = set()
    for v in vals:
        for m in Poly.lift(v).t:
            for j, e in m:
                if e < 0 and j in ids:
                    neg.add(ids[j])
    for i in neg:
        chk.refute(f"{lab}: closed formula of mode {i} only above the cutoff", c, [("<", abs(h * lam[i]) - cut)], replay)


def selection(chk, name, variant):
    """the number of contour points matters exactly for modes below the cutoff"""
    pk = shim.fresh()
    lab = f"{name}/{variant} formula selection"
    replay = ("selection", dict(solver=name, variant=variant))

    def fn(c):
        h = hsym()
        cut = c.sym("cutoff", pos=True)
        c.pc += [("<=", cut - Fraction(1, 2)), (">=", h - Fraction(1, 10**9))]
        lam = [c.sym(f"lam{i}", real=False) for i in range(2)]
        v = [c.sym(f"v{i}", real=False) for i in range(2)]
        L, Sm, Si = operator(c, variant, lam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        out = []
        memos = [[], []]
        N = decoupled(c, 2, memos, Si, Sm)
        for M in (3, 4):
            s = make(pk, name, variant, L, N, {"modecutoff": cut, "contour_points": M, "contour_radius": 1.0})
            a, _, _, e = public_step(s, name, arr(apply(Sm, v), "c"), h)
            out.append([apply(Si, elems(a))] + [apply(Si, x) for x in e])
        return h, cut, lam, out

    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        h, cut, lam, (x, y) = r
        for i in range(2):
            same = all(Poly.lift(p[i]).key() == Poly.lift(q[i]).key() for p, q in zip(x, y))
            z = abs(h * lam[i]) - cut
            if same:
                chk.refute(f"{lab}: contour for mode {i} below the cutoff", c, [("<", z)], replay)
            else:
                chk.refute(f"{lab}: no contour for mode {i} above the cutoff", c, [(">", z)], replay)
        chk.reachable(lab, c)


def mixtures(chk, name, variant, n):
    pk = shim.fresh()
    lab = f"{name}/{variant} mixture of {n} modes"
    replay = ("modes", dict(solver=name, variant=variant))

    def fn(c):
        h = hsym()
        cut = c.sym("cutoff", pos=True)
        c.pc += [("<=", cut - Fraction(1, 2)), (">=", h - Fraction(1, 10**9))]
        lam = [c.sym(f"lam{i}", real=False) for i in range(n)]
        v = [c.sym(f"v{i}", real=False) for i in range(n)]
        L, Sm, Si = operator(c, variant, lam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        memos = [[] for _ in range(n)]
        etd = {"modecutoff": cut, "contour_points": 3, "contour_radius": 1.0}
        s = make(pk, name, variant, L, decoupled(c, n, memos, Si, Sm), etd)
        a, _, _, e = public_step(s, name, arr(apply(Sm, v), "c"), h)
        got = apply(Si, elems(a)), [apply(Si, x) for x in e]
        want = []
        for i in range(n):
            d = make(pk, name, "diag", arr([lam[i]], "c"), decoupled(c, 1, [memos[i]]), etd)
            b, _, _, eb = public_step(d, name, arr([v[i]], "c"), h)
            want.append((elems(b)[0], [x[0] for x in eb]))
        return h, cut, lam, got, want

    cnt = 0
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        h, cut, lam, got, want = r
        for i in range(n):
            chk.equal(f"{lab}: mode {i} as if alone", c, got[0][i], want[i][0], replay)
            for x, y in zip(got[1], want[i][1]):
                chk.equal(f"{lab}: estimate of mode {i} as if alone", c, x[i], y, replay)
        closed_only_above(chk, lab, c, got[0] + [x for y in got[1] for x in y], lam, h, cut, replay)
        chk.reachable(lab, c)
    if cnt < 2**n and not chk.violations:
        chk.reach_failed.append(f"{lab}: only {cnt} mixtures")


def rescale(chk, name, variant, n):
    """after a change of step size every mode is treated by its new magnitude"""
    pk = shim.fresh()
    lab = f"{name}/{variant} step-size change"
    replay = ("modes", dict(solver=name, variant=variant))

    def fn(c):
        h, h2 = hsym(), c.sym("h2", pos=True)
        cut = Fraction(1, 100)
        c.pc += [(">=", h - Fraction(1, 10**9)), (">=", h2 - Fraction(1, 10**9)), ("!=", h2 - h)]
        lam = [c.sym(f"lam{i}", real=False) for i in range(n)]
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        w = [c.sym(f"w{i}", real=False) for i in range(n)]
        L, Sm, Si = operator(c, variant, lam)
        if variant == "eig":
            c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
        etd = {"modecutoff": 0.01, "contour_points": 3, "contour_radius": 1.0}
        memo = []
        s = make(pk, name, variant, L, TolOracle(c, n, memo=memo), etd)
        a, _, _, _ = public_step(s, name, arr(u, "c"), h)
        a2, _, _, e2 = public_step(s, name, a, h2)
        d = make(pk, name, variant, L, TolOracle(c, n, memo=memo), etd)
        b2, _, _, f2 = public_step(d, name, a, h2)
        return h2, lam, elems(a2), elems(b2), [x for y in e2 for x in y], [x for y in f2 for x in y]

    cnt = 0
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: step raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        h2, lam, a, b, x, y = r
        for i in range(n):
            chk.equal(f"{lab}: component {i} as freshly built", c, a[i], b[i], replay)
        for p, q in zip(x, y):
            chk.equal(f"{lab}: estimate as freshly built", c, p, q, replay)
        chk.reachable(lab, c)
    if cnt < 4**n - 2 and not chk.violations:
        chk.reach_failed.append(f"{lab}: only {cnt} mixtures")
