"""P26 many modes are independent problems, P27 changes of units, labels and conjugation, P28 linear invariants."""
from fractions import Fraction
import numpy as np
from lib import poly as P, symarr as S, shim
from lib.poly import Poly
from lib.common import *
from lib.methods import *
from lib.problems import spectrum, blocks_of, block_matrix
from checks.steps import TolOracle, decoupled, near, cmp_series, apply, operator, eigenvalues, constrain, big, regimes, basis


def cond(c, variant):
    if variant == "eig":
        k = c.sym("cond", pos=True)
        c.pc += [(">=", k - 1), ("<=", k - 1000)]


def each(chk, lab, fn, replay, T=None, max_paths=16):
    n = 0
    for c, r, e in chk.paths(fn, T, max_paths):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        n += 1
        yield c, r
        chk.reachable(lab, c)
    if not n and not chk.violations:
        chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P26
def P26(chk):
    sizes = (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257) if chk.thorough else (1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 129)
    fsizes = (1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 24) if chk.thorough else (1, 2, 3, 4, 6, 9, 16)
    chk.bound(f"diagonal problems of {sizes} modes and full or diagonalized block problems of {fsizes} unknowns (blocks of 1 and 2); fixed rates on both sides of the cutoff (complex, and real in real arrays), and all of them below the cutoff, every state and every nonlinear function acting within the blocks; a rejected attempt, two accepted steps, a changed step size")
    chk.assumption("rates and step sizes are fixed numbers; coefficients compared with tolerance 1e-9")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant))
        for n in (sizes if variant == "diag" else fsizes)[::-1]:
            for kind in "cf" if variant != "diag" or name not in ETD or n not in (2, 33, 65, 100, 129, 257) else "cfs":
                if kind in "cs" or n in (2, 9, 16, 33):
                    T.append((modes, (name, variant, n, kind), {}))
    chk.parallel(T)


def modes(chk, name, variant, n, kind):
    pk = shim.fresh()
    lab = f"{name}/{variant}/{kind} {n} unknowns"
    replay = ("many_modes", dict(solver=name, variant=variant, n=n, kind=kind))
    B = blocks_of(n, variant)
    pts = 32 if variant == "full" and name in ETD else 8

    def fn(c):
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        if variant == "diag":
            L = np.array(spectrum(n, kind))
            L = L.real.copy() if kind == "f" else L
            parts = [L[b] for b in B]
        else:
            L = block_matrix(n, B, kind)
            parts = [L[np.ix_(b, b)] for b in B]
        memos = [[] for _ in B]
        etd = big(pts)

        def N(x):
            xs = [Poly.lift(e) for e in elems(x)]
            out = [None] * n
            for q, b in enumerate(B):
                for i, v in zip(b, piece(q, [xs[i] for i in b])):
                    out[i] = v
            return arr(out, "c")

        def piece(q, xs):
            for a, v in memos[q]:
                if all(near(p, r) for p, r in zip(a, xs)):
                    return v
            v = [c.sym(f"N{q}_{len(memos[q])}_{i}", real=False) for i in range(len(xs))]
            memos[q].append((xs, v))
            return v

        def run(Lop, Nf, idx):
            s = make(pk, name, variant, Lop, Nf, etd)
            out = []
            x, h1, _, e = public_step(s, name, arr([u[i] for i in idx], "c"), 0.1, (0.5, 1.0) if name in AS else (1.0,))
            out += [elems(x)] + e
            for h2 in ((h1, 0.04) if name in AS else (0.1, 0.04)):
                x, _, _, e = public_step(s, name, x, h2)
                out += [elems(x)] + e
            return out

        whole = run(L, N, range(n))
        parts = [run(Lp, (lambda x, q=q: arr(piece(q, [Poly.lift(e) for e in elems(x)]), "c")), b) for q, (Lp, b) in enumerate(zip(parts, B))]
        return whole, parts

    names = None
    for c, (whole, parts) in each(chk, lab, fn, replay):
        for k, w in enumerate(whole):
            if not chk.holds(f"{lab}: result {k} has {n} entries", len(w) == n, replay):
                return
            for q, b in enumerate(B):
                for i, x in zip(b, parts[q][k]):
                    chk.equal(f"{lab}: result {k}, unknown {i} as if alone", c, w[i], x, replay)


# ------------------------------------------------------------------ P27
CHANGES = ("time", "scale", "order", "conj")


def P27(chk):
    K = 6 if chk.thorough else 4
    chk.bound("two unknowns (three when reordering diagonal problems), every operator, state, step size and nonlinear function; every positive time unit, every nonzero complex unit per unknown, reordering, complex conjugation; a rejected attempt and a second step")
    chk.bound(f"closed formulas and integrating factors: exact algebra; contour and full-matrix coefficients: Taylor coefficients in h through h^{K}, contour of 8 points")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant))
        for ch in CHANGES:
            for reg in regs(name, variant):
                if (variant, ch, reg) == ("eig", "scale", "series"):
                    continue  # the inverse of a basis with free entries is not a numeric series; the exact case covers it
                T.append((change, (name, variant, ch, reg, K), {}))
    chk.parallel(T)


def regs(name, variant):
    if name not in ETD:
        return ["series"] if variant == "full" else ["exact"]
    return ["series"] if variant == "full" else ["exact", "series"]


def inv2(M):
    return np.array([[1 / Poly.lift(M[i, i]) if i == j else Poly({}) for j in range(len(M))] for i in range(len(M))], dtype=object)


def change(chk, name, variant, ch, reg, K):
    pk = shim.fresh()
    n = 3 if ch == "order" and variant == "diag" and reg == "exact" else 2
    lab = f"{name}/{variant} {ch} {reg}"
    replay = ("change", dict(solver=name, variant=variant, change=ch))

    def fn(c):
        h = hsym()
        tau = c.sym("tau", pos=True)
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        I = np.array([[Poly.const(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)
        D, Di, f = I, I, Poly.const(1)
        if ch == "time":
            f = tau
        if ch == "scale":
            d = [c.sym(f"d{i}", real=False) for i in range(n)]
            c.pc += [("!=", x) for x in d]
            D = np.array([[d[i] if i == j else Poly({}) for j in range(n)] for i in range(n)], dtype=object)
            Di = inv2(D)
        if ch == "order":
            D = I[::-1].copy()
            Di = D
        cj = (lambda x: Poly.lift(x).conjugate()) if ch == "conj" else (lambda x: Poly.lift(x))
        mm = lambda A, B: np.array([[sum((Poly.lift(A[i, k]) * B[k, j] for k in range(n)), Poly({})) for j in range(n)] for i in range(n)], dtype=object)
        if variant == "full":
            rows = np.array([[c.sym(f"L{i}{j}", real=False) for j in range(n)] for i in range(n)], dtype=object)
            LA = mat(rows.tolist(), "c")
            R = mm(mm(D, rows), Di)
            LB = mat([[cj(R[i, j]) * f for j in range(n)] for i in range(n)], "c")
        else:
            lam = eigenvalues(c, n)
            # also the attempts after a rejection stay above the cutoff
            constrain(c, lam, h / 4 if reg == "exact" else h, 0.01, ("large" if reg == "exact" else "small") if name in ETD else "any")
            LA, Sm, Si = operator(c, variant, lam)
            if variant == "diag":
                LB = arr([cj(x) * f for x in (lam[::-1] if ch == "order" else lam)], "c")
                SB = None
            else:
                DS, SD = mm(D, Sm), mm(Si, Di)
                lB = [cj(x) * f for x in lam]
                c.eigdecomp = [(Sm, Si), (DS, SD)]
                LB = mat([[sum((lB[k] * DS[i, k] * SD[k, j] for k in range(n)), Poly({})) for j in range(n)] for i in range(n)], "c")
            for l in lam:
                c.pc.append(("!=", l))
        cond(c, variant)
        c.pc.append((">=", h - Fraction(1, 10**9)))
        c.pc.append((">=", h / tau - Fraction(1, 10**9)))
        N = TolOracle(c, n)
        fm = np.array([[D[i, j] * f for j in range(n)] for i in range(n)], dtype=object)

        def NB(x):
            y = apply(Di, [cj(e) for e in elems(x)])
            return arr([cj(e) for e in apply(fm, elems(N(arr(y, "c"))))], "c")

        a = make(pk, name, variant, LA, N, big(8))
        b = make(pk, name, variant, LB, NB, big(8))
        hB = h / f if ch == "time" else h
        script = (0.5, 1.0) if name in AS else (1.0,)
        to = lambda v: [cj(e) for e in apply(D, v)]
        out = []
        x, hx, _, ea = public_step(a, name, arr(u, "c"), h, script)
        y, hy, _, eb = public_step(b, name, arr(to(u), "c"), hB, script)
        out.append(("state", to(elems(x)), elems(y)))
        out += [(f"estimate of attempt {k}", to(p), q) for k, (p, q) in enumerate(zip(ea, eb))]
        x, _, _, ea = public_step(a, name, x, hx)
        y, _, _, eb = public_step(b, name, y, hy)
        out.append(("second state", to(elems(x)), elems(y)))
        out += [("second estimate", to(p), q) for p, q in zip(ea, eb)]
        return out

    for c, r in each(chk, lab, fn, replay, None if reg == "exact" else K, 32):
        for what, x, y in r:
            chk.holds(f"{lab}: {what}, entries", len(x) == len(y) == n, replay)
            for i, (p, q) in enumerate(zip(x, y)):
                if reg == "exact":
                    chk.equal(f"{lab}: {what}, component {i}", c, p, q, replay)
                else:
                    cmp_series(chk, f"{lab}: {what}, component {i}", c, p, q, K, replay)


# ------------------------------------------------------------------ P28
def P28(chk):
    K = 7 if chk.thorough else 5
    chk.bound("two unknowns, every operator with the given left eigenvector, every nonlinear function it annihilates, every state and step size; rejected attempt and second step")
    chk.bound(f"diagonal and diagonalized forms: exact algebra; full-matrix form: Taylor coefficients in h through h^{K}, contour of 12 points, every weight vector")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant))
        if variant == "full":
            T += [(functional, (name, variant, mu, K), {}) for mu in ("zero", "any")]
        else:
            T += [(functional, (name, variant, mu, None), {}) for mu in (("zero", "any") if variant == "diag" else ("any",)) + (("small",) if name in ETD else ())]
    chk.parallel(T)


def functional(chk, name, variant, mu, K):
    pk = shim.fresh()
    n = 2
    lab = f"{name}/{variant} functional of rate {mu}"
    replay = ("functional", dict(solver=name, variant=variant, zero=mu == "zero"))

    def fn(c):
        h = hsym()
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        m = Poly({}) if mu == "zero" else c.sym("mu", real=False)
        c.pc.append((">=", h - Fraction(1, 10**9)))
        if variant == "full":
            w1 = c.sym("w1", real=False)
            w = [Poly.const(1), w1]
            r = [c.sym("a", real=False), c.sym("b", real=False)]  # second row
            rows = [[m - w1 * r[0], m * w1 - w1 * r[1]], r]
            L = mat(rows, "c")
            D = np.array([[Poly({}), -w1], [Poly({}), Poly.const(1)]], dtype=object)  # N = (-w1 f, f)
        else:
            l1 = c.sym("lam", real=False)
            lam = [m, l1]
            if name in ETD:
                constrain(c, [l1], h / 4, 0.01, "large")
                if mu != "zero":
                    constrain(c, [m], h / 4 if mu == "any" else h, 0.01, "small" if mu == "small" else "large")
            c.pc += [("!=", x) for x in lam if x.t]
            L, Sm, Si = operator(c, variant, lam)
            w = [Poly.lift(Si[0, j]) for j in range(n)]
            D = np.array([[Poly({}), Poly.lift(Sm[i, 1])] for i in range(n)], dtype=object)
        cond(c, variant)
        N = TolOracle(c, n, back=D)
        s = make(pk, name, variant, L, N, big(12 if variant == "full" else 4))
        fun = lambda v: sum((w[i] * Poly.lift(v[i]) for i in range(n)), Poly({}))
        ex = (lambda k: P.expp(h * m * k) if m.t else Poly.const(1))
        out = []
        x, hx, _, e = public_step(s, name, arr(u, "c"), h, (0.5, 1.0) if name in AS else (1.0,))
        hx = Poly.lift(hx)
        q = hx / h if name in AS else Poly.const(1)  # the accepted step as a multiple of h
        q = Fraction(q.const_value()) if q.is_const() else None
        out.append(("state", fun(elems(x)), fun(u) * ex(q)))
        out += [(f"estimate of attempt {k}", fun(v), Poly({})) for k, v in enumerate(e)]
        x, _, _, e = public_step(s, name, x, h)
        out.append(("second state", fun(elems(x)), fun(u) * ex(q + 1)))
        out += [("second estimate", fun(v), Poly({})) for v in e]
        return out

    for c, r in each(chk, lab, fn, replay, K, 32):
        for what, p, q in r:
            if K is None:
                chk.equal(f"{lab}: {what}", c, p, q, replay)
            else:
                cmp_series(chk, f"{lab}: {what}", c, p, q, K, replay)
