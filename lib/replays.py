"""Concrete replays: each re-runs the real rkstiff code on a counterexample.
Return 1 (and print REPRODUCED ...) when the violation shows on the real code, 0 otherwise."""
import itertools
import json
import math
import os
import sys
import warnings

import numpy as np

warnings.filterwarnings("ignore")

HANDLERS = {}
HERE = os.path.dirname(os.path.abspath(__file__))


def handler(f):
    HANDLERS[f.__name__] = f
    return f


def hit(msg):
    print("REPRODUCED " + msg)
    return 1


def main(name, params):
    import rkstiff

    model = params.pop("model", {})
    try:
        r = HANDLERS[name](model=model, **params)
    except Exception as e:  # a handler that cannot run is not a reproduction
        import traceback

        traceback.print_exc()
        where = traceback.extract_tb(e.__traceback__)[-1].filename
        pkg = os.path.dirname(os.path.abspath(rkstiff.__file__))
        inside = any(f.filename.startswith(pkg) for f in traceback.extract_tb(e.__traceback__))
        if inside and isinstance(e, (ValueError, ArithmeticError, IndexError, RuntimeError, np.linalg.LinAlgError)) and not where.startswith(HERE):
            # every input of a replay is accepted by correct code
            return hit(f"{name} {params}: {e!r} raised in {where}")
        print("replay handler failed", e)
        return 3
    if not r:
        print("not reproduced")
    return r or 0


# ---------------------------------------------------------------- building solvers
CLSMOD = {n: n.lower() for n in ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP")}
CS = ("ETD4", "ETD5", "IF4")
ETD = ("ETD4", "ETD5", "ETD34", "ETD35")


def build(solver, variant, L, nl, etd=None, cfg=None, **kw):
    import importlib

    cls = getattr(importlib.import_module("rkstiff." + CLSMOD[solver]), solver)
    if solver in ETD and etd:
        from rkstiff.etd import ETDConfig

        kw["etd_config"] = ETDConfig(**etd)
    if solver not in CS and cfg:
        from rkstiff.solveras import SolverConfig

        kw["config"] = SolverConfig(**cfg)
    if variant == "eig":
        kw["diagonalize"] = True
    return cls(np.asarray(L), nl, loglevel="CRITICAL", **kw)


def attempt(s, solver, u, h):
    r = s._update_stages(np.array(u, dtype=complex), h)
    if solver in CS:
        return np.array(r), None
    return np.array(r[0]), np.array(r[1])


# ---------------------------------------------------------------- order
def parse_tree(s):
    nodes = []

    def rec(i):
        me = len(nodes)
        nodes.append([])
        i += 1
        while s[i] != ")":
            ch, i = rec(i)
            nodes[me].append(ch)
        return me, i + 1

    rec(0)
    return nodes


def tree_nl(nodes, c):
    def N(u):
        out = np.empty(len(nodes), dtype=complex)
        for v, ch in enumerate(nodes):
            p = 1.0 + 0j
            for k in ch:
                p = p * u[k]
            out[v] = p + c[v]
        return out

    return N


def series_exact(L, nodes, c, u0, K):
    """Taylor coefficients of the exact solution, index k = coefficient of t^k"""
    n = len(nodes)
    L2 = np.diag(L) if L.ndim == 1 else L
    co = np.zeros((K + 1, n), dtype=complex)
    co[0] = u0
    for k in range(K):
        f = L2 @ co[k]
        for v, ch in enumerate(nodes):
            p = np.zeros(k + 1, dtype=complex)
            p[0] = 1
            for w in ch:
                p = np.convolve(p, co[: k + 1, w])[: k + 1]
            f[v] += p[k] + (c[v] if k == 0 else 0)
        co[k + 1] = f / (k + 1)
    return co


def full_L(lam):
    n = len(lam)
    return np.array([[lam[i] if i == j else (3 * i + 5 * j + 1) % 4 - 1 for j in range(n)] for i in range(n)], dtype=complex)


def _generic(n, seed=3):
    r = np.random.default_rng(seed)
    lam = -(0.4 + 0.9 * r.random(n))
    return lam, 0.5 + r.random(n), -0.6 + 0.4 * r.random(n)


def eval_poly(terms, lam, u, c):
    """terms: {monomial string 'lam0^1*u1^2': [num, den]}"""
    tot = 0.0
    for m, (p, q) in terms.items():
        v = p / q
        for f in m.split("*"):
            if not f:
                continue
            nm, _, e = f.partition("^")
            base = {"lam": lam, "u": u, "c": c}["lam" if nm.startswith("lam") else nm[0]][int("".join(x for x in nm if x.isdigit()))]
            v *= base ** int(e or 1)
        tot += v
    return tot


def cauchy(f, K, R=0.5, n=64):
    """Taylor coefficients 0..K of an analytic vector function of h (samples on a complex circle)"""
    hs = R * np.exp(2j * np.pi * (np.arange(n) + 0.5) / n)
    Y = np.array([f(h) for h in hs])
    return np.array([np.mean(Y * (hs**-k)[:, None], axis=0) for k in range(K + 1)])


@handler
def order(solver, variant, tree, regime, p, errpow=None, etd=None, known=None, model=None):
    """Taylor coefficients in h of one real step (complex step sizes, Cauchy's formula) against the exact flow."""
    nodes = parse_tree(tree or "(()())")
    n = len(nodes)
    etd = dict(etd or {})
    for seed, pts, R in ((3, None, 0.5), (11, None, 0.5)) if variant == "diag" else ((3, 64, 0.08), (3, None, 0.02), (11, 64, 0.08)):
        lam, u0, c = _generic(n, seed)
        L = lam.astype(complex) if variant == "diag" else full_L(lam)
        etd = dict(etd)
        if solver in ETD and pts:
            etd["contour_points"] = pts
        if solver in ETD and variant == "diag":
            etd["modecutoff"] = 0.999 if regime == "small" else 1e-9
        ex = series_exact(L, nodes, c, u0, 40)
        N = tree_nl(nodes, c)
        if not tree:  # degenerate error estimate
            hs = np.array([0.30, 0.24, 0.19, 0.15, 0.12])
            g = [np.linalg.norm(attempt(build(solver, variant, L, N, etd), solver, u0, h)[1]) for h in hs]
            if max(g) < 1e-13:
                return hit(f"{solver} error estimate is identically zero ({max(g):.1e}) on a nonlinear system")
            slopes = np.diff(np.log(g)) / np.diff(np.log(hs))
            if slopes[-1] > errpow + 0.7:
                return hit(f"{solver} error estimate shrinks like h^{slopes[-1]:.2f}, the controller assumes h^{errpow}")
            continue
        try:
            K = max(p, errpow or 0)
            both = cauchy(lambda h: np.concatenate([x for x in attempt(build(solver, variant, L, N, etd), solver, u0, h) if x is not None]), K, R)
            sol, err = both[:, :n], both[:, n:]
            cplx = True
        except Exception as e:
            print("complex step not supported:", e)
            cplx = False
        if cplx:
            if not np.all(np.isfinite(both)):
                return hit(f"{solver}/{variant} one step on {tree} is not finite")
            for k in range(p + 1):
                for i in range(n):
                    d = sol[k, i] - ex[k, i]
                    if known and k == 5 and str(i) in known:
                        d -= eval_poly(known[str(i)], lam, u0, c)
                    tol = 1e-12 * max(1.0, abs(ex[k, i])) * R**-k
                    if abs(d) > tol:
                        return hit(f"{solver}/{variant} ({regime}) tree system {tree}: h^{k} coefficient of component {i} is {sol[k, i]:.12g}, exact flow {ex[k, i]:.12g} (diff {abs(d):.2e})")
            for k in range(errpow or 0):
                if err.size and np.max(np.abs(err[k])) > 1e-12 * R**-k:
                    return hit(f"{solver}/{variant} ({regime}) tree system {tree}: error estimate has a h^{k} term {np.max(np.abs(err[k])):.3e}, expected O(h^{errpow})")
        else:
            hs = np.array([0.30, 0.24, 0.19, 0.15, 0.12])
            d = [attempt(build(solver, variant, L, N, etd), solver, u0, h) for h in hs]
            g = np.array([np.linalg.norm(x[0] - sum(ex[k] * h**k for k in range(41))) for x, h in zip(d, hs)])
            sl = np.diff(np.log(g + 1e-300)) / np.diff(np.log(hs))
            if g[-1] > 1e-12 and sl[-1] < p + 0.4:
                return hit(f"{solver}/{variant} one-step error on {tree} behaves like h^{sl[-1]:.2f}")
    return 0


# ---------------------------------------------------------------- linear problems
BASE = {2: np.array([[1.0, 1.0], [1.0, 2.0]]), 3: np.array([[1.0, 1, 0], [1, 2, 1], [0, 1, 2]])}


BASE2 = {
    "sym": np.array([[1.0, 1.0], [1.0, -1.0]]),
    "herm": np.array([[1.0, 1.0], [1j, -1j]]),
    "tri": np.array([[1.0, 1.0], [0.0, 1.0]]),
}


def op(variant, lam, fam="gen"):
    """the operator with eigenvalues lam (as restrict(lam, fam) returned them) and its eigenbasis"""
    lam = np.asarray(lam, dtype=complex)
    if variant == "diag":
        return (lam.real.copy() if fam == "real" else lam), np.eye(len(lam))
    Sm = BASE[len(lam)] if fam in ("gen", "real") else BASE2["herm" if fam in ("hermreal", "rot") else fam]
    L = Sm @ np.diag(lam) @ np.linalg.inv(Sm)
    return (L.real.copy() if fam in ("real", "rot") else L), Sm


def restrict(lam, fam):
    if fam in ("real", "hermreal"):
        return [x.real if x.real else abs(x) for x in map(complex, lam)]
    if fam == "rot":
        x = complex(lam[1])
        return [x, x.conjugate()]
    return lam


def drive(s, solver, u, h, svals=(1.0,)):
    """public step with scripted controller verdicts (adaptive solvers)"""
    if solver in CS:
        return np.array(s.step(u, h)), h, []
    errs = []
    it = iter(svals)

    def scripted(u_, e_):
        errs.append(np.array(e_))
        return next(it)

    s._compute_s = scripted
    un, h1, _ = s.step(u, h)
    return np.array(un), h1, errs


def far(a, b, tol=1e-9, elementwise=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return True
    if elementwise:
        with np.errstate(all="ignore"):
            return not np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b)))
    with np.errstate(all="ignore"):
        d = np.max(np.abs(a - b)) if a.size else 0.0
        sc = max(1.0, np.max(np.abs(b)) if b.size else 1.0)
    return not d <= tol * sc


def grid(regime, variant=""):
    """(h, lam) samples used by the step replays"""
    if variant == "eig":
        return [(h, [x if x else -0.01 for x in lam]) for h, lam in grid(regime)]
    if regime == "small":
        return [(0.01, [-0.3, 0.2 + 0.4j]), (0.004, [1j, -1.0]), (0.005, [0.0, -0.5])]
    if regime == "large":
        return [(0.3, [-2.0, 1.5 + 3j]), (0.7, [-40.0, 2j]), (0.11, [5.0, -3 + 1j]), (0.5, [-1 + 20j, 0.3 - 9j])]
    return [(0.3, [-1.0, 0.5 + 1j]), (0.05, [-3.0, 2j]), (0.2, [1.0, -2 + 1j]), (0.5, [-1 + 20j, 0.3 - 9j])]


def mpoint(model, variant):
    """the (h, lam) of a counterexample, when it has one a plain step can be run at"""
    m = model or {}
    num = lambda v: complex(*v) if isinstance(v, (list, tuple)) and len(v) == 2 and all(isinstance(x, (int, float)) for x in v) else complex(v) if isinstance(v, (int, float)) else None
    h = num(m.get("h"))
    lam = [num(m[k]) for k in ("lam0", "lam1", "mu", "lam") if k in m]
    lam = [x for x in lam if x is not None]
    if h is None or not lam or h.imag or not 1e-12 < h.real < 1e12:
        return []
    lam = (lam + [lam[0] * 0.5 - 1 / h.real])[:2]
    if variant == "eig" and (min(map(abs, lam)) < 1e-6 * max(map(abs, lam)) or not max(map(abs, lam))):
        return []
    h = h.real
    if not 1e-4 <= h <= 2:  # in another time unit
        h, lam = 1.0, [h * x for x in lam]
    return [(h, lam)] if max(abs(h * x) for x in lam) < (0.45 if variant == "full" else 5) else []


def etdcfg(variant, regime):
    return {"modecutoff": 0.02, "contour_points": 32} if regime != "any" else {"contour_points": 64, "contour_radius": 2.0}


@handler
def linear(solver, variant, regime, fam="gen", model=None):
    pts = [(h, [x * tw for x in lam] if regime != "small" else lam) for h, lam in grid(regime, variant) for tw in (1.0, 1.7)]
    pts += [(h, lam) for h, lam in mpoint(model, variant) if variant != "full" or max(abs(h * np.array(lam))) < 0.5]
    if regime != "small":
        pts += [(0.5, [90.0, -1.0]), (0.5, [-90.0, 2.0 + 60j]), (2.0, [-300.0, -1.0]), (1e-3, [-4e4, 3e4j]), (4.0, [2j, -0.3 - 1j])]
    for h, lm in pts:
        if variant == "eig" and solver in ETD and max(np.abs(lm)) > 1e4:
            continue
        lm = restrict(lm, fam)
        L, Sm = op(variant, lm, fam)
        u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
        try:
            s = build(solver, variant, L, lambda x: np.zeros(len(x), dtype=complex), etdcfg(variant, regime))
            u1, _, e1 = drive(s, solver, u.copy(), h)
            u2, _, e2 = drive(s, solver, u1.copy(), h)
        except Exception as e:
            return hit(f"{solver}/{variant} raises {e!r} on a linear problem")
        E = Sm @ np.diag(np.exp(h * np.array(lm))) @ np.linalg.inv(Sm)
        if far(u1, E @ u, elementwise=variant == "diag"):
            return hit(f"{solver}/{variant}: step of a linear problem, h={h} lam={lm} ({fam}): {u1} expected {E @ u}")
        if far(u2, E @ E @ u, elementwise=variant == "diag"):
            return hit(f"{solver}/{variant}: second step of a linear problem, h={h} lam={lm} ({fam}): {u2} expected {E @ E @ u}")
        if any(np.max(np.abs(e)) > 1e-12 for e in e1 + e2):
            return hit(f"{solver}/{variant}: nonzero error estimate on a linear problem")
    return 0


@handler
def forcing(solver, variant, regime, fam="gen", model=None):
    f = np.array([0.8 + 0.1j, -0.3 + 0.6j])
    pts = grid(regime, variant)
    if regime == "large":
        pts = pts + [(0.5, [60.0, -1.0]), (0.5, [-90.0, 2.0 + 60j]), (2.0, [-300.0, -1.0]), (1e-3, [-4e4, 3e4j])]
    if variant == "full":
        pts = pts + [(0.1, [-1.0, 2 + 1j]), (0.2, [1.5, -2.0j])]
    pts = pts + mpoint(model, variant)
    for h, lam in pts:
        if variant == "full" and max(abs(h * np.array(lam))) > 0.5:
            continue
        lam = restrict(lam, fam)
        L, Sm = op(variant, lam, fam)
        u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
        try:
            s = build(solver, variant, L, lambda x: f.copy(), etdcfg(variant, regime))
            u1, _, e1 = drive(s, solver, u.copy(), h)
            u2, _, e2 = drive(s, solver, u1.copy(), h)
        except Exception as e:
            return hit(f"{solver}/{variant} raises {e!r} with a constant nonlinear part")
        Z = np.array([sum((h * x) ** k / math.factorial(k + 1) for k in range(30)) if abs(h * x) < 1 else np.expm1(h * x) / (h * x) for x in lam])
        E = Sm @ np.diag(np.exp(h * np.array(lam))) @ np.linalg.inv(Sm)
        F = h * (Sm @ np.diag(Z) @ np.linalg.inv(Sm) @ f)
        w1 = E @ u + F
        w2 = E @ w1 + F
        if far(u1, w1, elementwise=variant == "diag") or far(u2, w2, elementwise=variant == "diag"):
            return hit(f"{solver}/{variant}: constant forcing, h={h} lam={lam} ({fam}): {u1}, {u2} expected {w1}, {w2}")
        if any(np.max(np.abs(e)) > 1e-10 * max(1.0, np.max(np.abs(w2))) for e in e1 + e2):
            return hit(f"{solver}/{variant}: nonzero error estimate for a constant nonlinear part")
    return 0


@handler
def equilibrium(solver, variant, model=None):
    for h, lam in grid("large"):
        L, Sm = op(variant, lam)
        L2 = np.diag(L) if L.ndim == 1 else L
        us = np.array([0.7 - 0.2j, -0.4 + 1.1j])
        c = -(L2 @ us)
        u2 = us
        N = lambda x: c + 0.3 * (x - us) + (x - us) ** 2
        s = build(solver, variant, L, N, etdcfg(variant, "large"))
        for k in range(3):
            u2, _, e = drive(s, solver, np.array(u2), h)
            if far(u2, us, 1e-9) or any(np.max(np.abs(x)) > 1e-9 for x in e):
                return hit(f"{solver}/{variant}: equilibrium {us} moves to {u2} (h={h}, lam={lam}), estimate {e}")
    return 0


def generic_nl(Sm, bounded=False):
    """a nonlinear function of the physical state, as seen from the eigen-coordinates"""
    Si = np.linalg.inv(Sm)
    if bounded:
        B = lambda x: np.array([x[0] * x[1] - 0.3, 0.7 * x[0] - 0.5 * x[1] ** 2 + 0.1j]) / (1 + np.sum(np.abs(x) ** 2))
        return B, lambda y: Si @ B(Sm @ y)
    N = lambda x: np.array([0.4 * x[0] * x[1] + 0.2 * x[0] ** 2 - 0.3, np.sin(x[0]) - 0.5 * x[1] ** 2 + 0.1j])
    return N, lambda y: Si @ N(Sm @ y)


@handler
def forms(solver, variant, regime, fam="gen", model=None):
    for h, lam in grid(regime, variant) + mpoint(model, variant):
        if variant == "full" and solver in ETD and max(abs(h * np.array(lam))) > 0.5:
            continue
        lam = restrict(lam, fam)
        L, Sm = op(variant, lam, fam)
        N, Nd = generic_nl(Sm, bounded=max(abs(h * np.array(lam))) > 2)
        u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
        try:
            s = build(solver, variant, L, N, etdcfg(variant, regime))
            d = build(solver, "diag", np.array(lam, dtype=complex), Nd, etdcfg(variant, regime))
            script = (0.5, 1.0) if solver not in CS else (1.0,)
            a, ha, ea = drive(s, solver, u.copy(), h, script)
            b, hb, eb = drive(d, solver, np.linalg.inv(Sm) @ u, h, script)
            a2, _, ea2 = drive(s, solver, a.copy(), ha)
            b2, _, eb2 = drive(d, solver, b.copy(), hb)
        except Exception as e:
            return hit(f"{solver}/{variant} raises {e!r}")
        for what, x, y in [("state", a, b), ("second state", a2, b2)] + [("estimate", x, y) for x, y in zip(ea + ea2, eb + eb2)]:
            if not np.all(np.isfinite(Sm @ y)) or np.max(np.abs(y)) > 1e8:
                continue
            if far(x, Sm @ y, 1e-8) or (what == "estimate" and np.max(np.abs(x - Sm @ y)) > 1e-8 * (np.max(np.abs(x)) + 1e-6)):
                return hit(f"{solver}/{variant}: {what} {x} differs from the diagonal form {Sm @ y} (h={h}, lam={lam})")
    return 0


@handler
def branches(solver, variant, points, radius, model=None):
    """one step with every mode on the contour against one with every mode on the closed formulas"""
    for h, lam in [(1.0, [0.35, -0.3j]), (0.5, [-0.6, 0.4 + 0.5j]), (0.1, [3.5, -2.0 - 2j]), (1.0, [0.11, -0.15 + 0.1j])]:
        L, Sm = op(variant, lam)
        N, Nd = generic_nl(Sm)
        u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
        out = []
        for cut in (1e-3, 0.9999):
            s = build(solver, variant, L, N, {"modecutoff": cut, "contour_points": points, "contour_radius": radius})
            a, _, e = drive(s, solver, u.copy(), h)
            out.append(np.concatenate([a] + e))
        if far(out[0], out[1], 1e-8):
            return hit(f"{solver}/{variant}: step h={h} lam={lam} by contour ({points} points, radius {radius}) {out[1]}, by closed formulas {out[0]}")
    return 0


@handler
def selection(solver, variant, model=None):
    """the number of contour points matters exactly for the modes below the cutoff"""
    import itertools

    cs = [0.02, 0.3j, -0.45, 0.3 - 0.35j, 0.6, -0.7j, 0.5 + 0.5j, 2j, -2 + 0.01j, 0.001 - 3j, -2e-4, 1e-3j]
    f = lambda y: (0.5 * y + 0.3) / (1 + np.abs(y) ** 2)
    for cut in (0.4, 0.05, 1e-3):
        for lam in itertools.permutations(cs, 2):
            L, Sm = op(variant, list(lam))
            Si = np.linalg.inv(Sm)
            v = np.array([0.7 - 0.2j, -0.4 + 0.3j])
            out = []
            for M in (3, 4):
                s = build(solver, variant, L, lambda x: Sm @ f(Si @ x), {"modecutoff": cut, "contour_points": M, "contour_radius": 1.0})
                a, _, e = drive(s, solver, Sm @ v, 1.0)
                out.append(np.array([Si @ a] + [Si @ x for x in e]))
            for i in range(2):
                if abs(abs(lam[i]) - cut) < 1e-6:
                    continue
                d = np.max(np.abs(out[0][:, i] - out[1][:, i]))
                if abs(lam[i]) > cut and d > 1e-9:
                    return hit(f"{solver}/{variant}: cutoff {cut}, modes {lam}: mode {lam[i]} above the cutoff depends on the number of contour points ({d:.2g})")
                if abs(lam[i]) < cut and d < 1e-12:
                    return hit(f"{solver}/{variant}: cutoff {cut}, modes {lam}: mode {lam[i]} below the cutoff does not use the contour")
    return 0


@handler
def modes(solver, variant, model=None):
    """each mode of a mixture as if alone; after a change of step size as if freshly built"""
    import itertools

    vals = [0.0, -0.002, 0.0095j, -0.7, 3.0 - 2j, -30.0]
    if variant == "eig":
        vals[0] = 1e-4
    for cut, pts in ((0.01, 32), (0.3, 32), (0.01, 3)):
        cfg = {"modecutoff": cut, "contour_points": pts, "contour_radius": 1.0}
        for lam in itertools.product(vals if pts > 3 else [-0.002, 0.0099j, 0.02, -0.7, -5e4], repeat=3):
            L, Sm = op(variant, lam) if variant == "eig" else (np.array(lam, dtype=complex), np.eye(3))
            if variant == "eig" and len(set(lam)) < 3:
                continue
            Si = np.linalg.inv(Sm)
            v = np.array([0.7 - 0.2j, -0.4 + 0.3j, 0.2])
            f = lambda y: (0.5 * y + 0.3) / (1 + np.abs(y) ** 2)
            s = build(solver, variant, L, lambda x: Sm @ f(Si @ x), cfg)
            a, _, e = drive(s, solver, Sm @ v, 1.0)
            a, e = Si @ a, [Si @ x for x in e]
            for i in range(3):
                d = build(solver, "diag", np.array([lam[i]], dtype=complex), f, cfg)
                b, _, eb = drive(d, solver, v[i : i + 1].copy(), 1.0)
                if not np.all(np.isfinite(b)) or abs(b[0]) > 1e6:
                    continue
                if abs(a[i] - b[0]) > 1e-7 * max(1.0, np.max(np.abs(v))) * max(1, abs(b[0])) or any(abs(x[i] - y[0]) > 1e-7 for x, y in zip(e, eb)):
                    return hit(f"{solver}/{variant}: mode {lam[i]} of the mixture {lam}, cutoff {cut}: {a[i]}, alone {b[0]}, estimates {[x[i] for x in e]} {[y[0] for y in eb]}")
            if not np.all(np.isfinite(a)):
                return hit(f"{solver}/{variant}: step of the mixture {lam}, cutoff {cut} is not finite: {a}")
    for lam in itertools.product(vals[1:4], repeat=2):
        if variant == "eig" and lam[0] == lam[1]:
            continue
        for h1, h2 in itertools.product((1.0, 0.01, 10.0, 0.001), repeat=2):
            L, Sm = op(variant, lam)
            N, Nd = generic_nl(Sm)
            cfg = {"modecutoff": 0.01, "contour_points": 32}
            s = build(solver, variant, L, N, cfg)
            d = build(solver, variant, L, N, cfg)
            u = 0.1 * np.array([0.7 - 0.2j, -0.4 + 1.1j])
            a, _, _ = drive(s, solver, u.copy(), h1)
            if not np.all(np.isfinite(a)) or np.max(np.abs(a)) > 10:
                continue
            a2, _, e2 = drive(s, solver, a.copy(), h2)
            b2, _, f2 = drive(d, solver, a.copy(), h2)
            if np.all(np.isfinite(b2)) and np.max(np.abs(b2)) < 1e4 and (far(a2, b2, 1e-8) or any(far(x, y, 1e-8) for x, y in zip(e2, f2))):
                return hit(f"{solver}/{variant}: lam={lam}, step {h1} then {h2}: {a2}, fresh solver {b2}")
    return 0


@handler
def linear_accept(solver, model=None):
    L = np.array([-1.0, -20.0])
    for u in ([1.0, 1.0], [1.0, 1e-6], [0.3 + 1j, 0.0]):
        u = np.array(u, dtype=complex)
        try:
            s = build(solver, "diag", L, lambda x: np.zeros(len(x), dtype=complex))
            un, h, hs = s.step(u.copy(), 0.5)
        except Exception as e:
            return hit(f"{solver}: step of a purely linear problem raises {e!r}")
        if h != 0.5 or not hs >= 0.5:
            return hit(f"{solver}: purely linear problem: step 0.5 became h={h}, next {hs}")
        if far(un, np.exp(0.5 * L) * u):
            return hit(f"{solver}: purely linear problem solved inexactly")
    return 0


@handler
def controller_q(solver, q, model=None):
    """the step factor must scale like err^(-1/q)"""
    s = build(solver, "diag", np.array([-1.0, -2.0]), lambda x: x * 0)
    u = np.array([1.0, 0.5])
    e = np.array([1e-5, -2e-5])
    r = s._compute_s(u, e) / s._compute_s(u, 16 * e)
    if abs(np.log(16) / np.log(r) - q) > 1e-6:
        return hit(f"{solver}: step factor scales like err^(-1/{np.log(16) / np.log(r):.4g}), the estimate is O(h^{q})")
    return 0


# ---------------------------------------------------------------- controller and adaptive evolution
def lin2(solver="IF34", **kw):
    return build(solver, "diag", np.array([-1.0, -2.0]), lambda x: 0 * x, **kw)


def mval(model, key, default):
    v = (model or {}).get(key, default)
    return v if isinstance(v, (int, float)) else default


class Tok:
    """states passed through control code: real arrays that can be told apart by value"""

    names = ["u0", "s", "e", "un", "err"]

    def __new__(cls, w, k=0):
        return np.array([cls.names.index(w) + 1.0, k + 2.0 + 0.5j])

    @classmethod
    def of(cls, a):
        if not isinstance(a, np.ndarray) or a.shape != (2,):
            return repr(a)
        i, k = int(round(a[0].real)) - 1, int(round(a[1].real)) - 2
        if not 0 <= i < len(cls.names) or not np.array_equal(cls(cls.names[i], k), a):
            return repr(a)
        return (cls.names[i], k) if cls.names[i] in ("s", "e") else cls.names[i]


@handler
def retry(solver, limit, model=None):
    """scripted step factors against the documented controller"""
    import itertools

    nan, inf = float("nan"), float("inf")
    runs = []
    m = model or {}
    L = 50 if limit is None else limit
    if limit is None:
        seqs = [[nan] * 60, [0.5] * 60, [0.9] * 60, [-inf] * 60, [0.9] * 50 + [1.5], [0.9] * 49 + [1.1]]
    else:
        ms = [mval(m, f"s{k}", 0.5) for k in range(L + 2)]
        seqs = [ms] + [list(t) for t in itertools.product([0.1, 0.5, 0.9, 1.0, 1.2, 2.0, 9.0, nan, inf, -inf], repeat=min(L + 1, 3))]
    for minh, decr, incr in ((mval(m, "minh", 1e-16), mval(m, "decr_f", 0.85), mval(m, "incr_f", 1.25)), (1e-300, 0.85, 1.25), (0.03, 0.85, 1.25), (0.2, 0.6, 1.5), (1e-300, 0.2, 5.0)):
        for seq in seqs:
            for h0 in {1.0, mval(m, "h", 1.0)}:
                s = lin2(solver)
                if limit is not None:
                    s.MAX_LOOPS = limit
                s.config.minh, s.config.decr_f, s.config.incr_f = minh, decr, incr
                tries, k = [], [0]

                def stages(u, h, *_, **__):
                    tries.append((Tok.of(u), h))
                    if len(tries) > 200:
                        raise RuntimeError("retry loop does not end")
                    return Tok("s", len(tries) - 1), Tok("e", len(tries) - 1)

                def fac(u, e):
                    k[0] += 1
                    return (seq + [0.5] * 300)[k[0] - 1]

                s._update_stages, s._compute_s = stages, fac
                try:
                    res, exc = s.step(Tok("u0"), h0), ""
                    res = (Tok.of(res[0]), *res[1:])
                except Exception as e:
                    res, exc = None, type(e).__name__
                # reference controller
                h, ref, hs = h0, [], None
                out = None
                for j in range(400):
                    ref.append(h)
                    f = (seq + [0.5] * 300)[j]
                    if np.isfinite(f) and f >= 1:
                        g = min(f, 4.0)
                        out = ("", h, g * h if g > incr else h)
                        break
                    h = h * (0.25 if not np.isfinite(f) else min(max(f, 0.25), decr))
                    both = h < minh
                    if len(ref) > L:
                        out = ("MaxLoopsExceeded/MinimumStepReached" if both else "MaxLoopsExceeded", None, None)
                        break
                    if both:
                        out = ("MinimumStepReached", None, None)
                        break
                ctxt = f"{solver} limit={L} minh={minh} decr_f={decr} incr_f={incr} h={h0} factors={seq[:6]}"
                if (exc not in out[0].split("/")) if exc else bool(out[0]):
                    return hit(f"{ctxt}: ended with {exc or 'acceptance'}, documented {out[0] or 'acceptance'}")
                if len(tries) != len(ref) or any(abs(a[1] - b) > 1e-12 * abs(b) for a, b in zip(tries, ref)) or any(a[0] != "u0" for a in tries):
                    return hit(f"{ctxt}: attempted steps {[t[1] for t in tries][:6]}, documented {ref[:6]}")
                if res is not None and (res[0] != ("s", len(ref) - 1) or abs(res[1] - out[1]) > 1e-12 * out[1] or abs(res[2] - out[2]) > 1e-12 * out[2]):
                    return hit(f"{ctxt}: returned {res}, documented step {out[1]} next {out[2]}")
    return 0


def _one_verdict(solver, u, e, eps, saf, cut):
    s = lin2(solver)
    s.MAX_LOOPS = 0
    s.config.epsilon, s.config.safety_f, s.config.adapt_cutoff = eps, saf, cut
    s.config.minh = 1e-300
    s._update_stages = lambda uu, hh, *_, **__: (u.copy(), e.copy())
    try:
        with np.errstate(all="ignore"):
            return s.step(u.copy(), 1.0)
    except s.MaxLoopsExceeded:
        return None


@handler
def criterion(solver, model=None):
    q = 5 if solver == "IF45DP" else 4
    rng = np.random.default_rng(5)
    m = model or {}
    cases = []
    for n in (1, 2, 3, 4):
        for _ in range(60):
            mag = 10.0 ** rng.uniform(-4, 1, n)
            u = mag * np.exp(2j * np.pi * rng.random(n))
            emag = 10.0 ** rng.uniform(-9, -2, n)
            e = emag * np.exp(2j * np.pi * rng.random(n))
            cases.append((u, e, 10 ** rng.uniform(-6, -1), rng.uniform(0.3, 1.0), 10 ** rng.uniform(-3, -0.1)))
    cases.append((np.array([1.0, 1e-5 + 0j]), np.array([0.0, 1e-5 + 0j]), 1e-4, 0.8, 0.01))
    cases.append((np.array([1.0 + 0j]), np.array([0j]), 1e-4, 0.8, 0.01))
    cases.append((np.array([0j, 0]), np.array([0j, 0]), 1e-4, 0.8, 0.01))
    cases.append((np.array([0j, 0]), np.array([1e-9 + 0j, 0]), 1e-4, 0.8, 0.01))
    for cut in (0.5, 0.25, 0.125):  # modes exactly at the cutoff
        cases.append((np.array([1.0 + 0j, cut]), np.array([0j, 1e-3]), 1e-4, 0.8, cut))
        cases.append((np.array([2.0j, 2 * cut, 0.01]), np.array([1e-9, 1e-3j, 0]), 1e-4, 0.8, cut))
        cases.append((np.array([4.0 + 0j, -4 * cut]), np.array([1e-5j, 1e-3]), 1e-4, 0.8, cut))
    cases.append((np.array([1.0 + 0j, 0.0]), np.array([0j, 1e-3]), 1e-4, 0.8, 0.0))
    for sc in (1e-30, 1e-12, 1e-6, 1e6, 1e12, 1e30):  # tiny and huge states
        cases.append((sc * np.array([1.0 + 0j, 0.5j]), sc * np.array([1e-4, 2e-5j]), 1e-4, 0.8, 0.01))
        cases.append((sc * np.array([1.0 + 0j, 0.5j]), sc * np.array([1e-4, 2e-5j]), 1e-12, 0.5, 0.01))
    for u, e, eps, saf, cut in cases:
        a = np.abs(u)
        mk = a > cut * a.max()
        un, en = np.linalg.norm(u[mk]), np.linalg.norm(e[mk])
        trial = [e]
        if en > 0 and un > 0:  # just below and above the threshold
            thr = saf**q * eps * un
            trial = [e * (thr / en) * 0.999, e * (thr / en) * 1.001, e]
        for x in trial:
            r = _one_verdict(solver, u, x, eps, saf, cut)
            en = np.linalg.norm(x[mk])
            want = saf**q * eps * un >= en if a.max() > 0 else not np.any(x)
            if (r is not None) != want:
                return hit(f"{solver}: state {u} estimate {x} eps={eps:.3g} safety={saf:.3g} cutoff={cut:.3g}: {'accepted' if r is not None else 'rejected'}, masked norms {un:.6g} and {en:.6g}")
    return 0


@handler
def nonfinite(solver, model=None):
    nan, inf = float("nan"), float("inf")
    vals = [0.0, 1.0, -1e-3, 1e-9, 1e300, nan, inf, -inf]
    import itertools

    for a, b, c, d in itertools.product(vals, repeat=4):
        u, e = np.array([a, b]), np.array([c, d])
        try:
            r = _one_verdict(solver, u, e, 0.25, 0.75, 0.125)
        except Exception as ex:
            return hit(f"{solver}: state {u} estimate {e} raises {ex!r}")
        if r is None:
            continue
        if not np.all(np.isfinite(u)):
            return hit(f"{solver}: non-finite state {u} accepted (estimate {e})")
        top = np.abs(u) == np.max(np.abs(u))
        if np.max(np.abs(u)) > 0 and not np.all(np.isfinite(e[top])):
            return hit(f"{solver}: non-finite estimate {e} accepted for state {u}")
        if not (0 < r[1] < inf and 0 < r[2] < inf):
            return hit(f"{solver}: state {u} estimate {e}: accepted with step {r[1]}, next {r[2]}")
    return 0


@handler
def evolve_as(sf, store, default, back, solver="IF34", model=None):
    m = model or {}
    nan = float("nan")
    scen = []
    if "t0" in m:
        hk = [mval(m, f"h{k}", nan) for k in range(8)]
        hs = [mval(m, f"hs{k}", nan) for k in range(8)]
        scen.append((mval(m, "t0", 0.0), mval(m, "tf", 1.0), mval(m, "hi", 0.5), hk, hs))
    for t0, tf in ((0.0, 1.0), (-3.0, -1.0), (-1.0, 0.0), (2.0, 5.0), (0.1, 0.7), (1e3, 1e3 + 0.3)):
        for frac in (0.3, 1.0, 3.0, 1 / 3, 0.125):
            for pat in ([1.0], [0.5, 1.0], [1.0, 0.25]):
                for g in ([1.0], [2.0, 0.5], [4.0]):
                    scen.append((t0, tf, frac * (tf - t0), pat, g))
    for t0, tf, hi, hk, hs in scen:
        if back:
            tf = min(tf, t0) if tf <= t0 else t0 - (tf - t0) * 0.5
        s = lin2(solver)
        s.t, s.u = ["stale"], ["stale"]
        calls = []

        def step(u, h):
            k = len(calls)
            if k > 3000:
                raise RuntimeError("evolution does not end")
            if len(hk) == 8:
                a = hk[k] if k < 8 and 0 < hk[k] <= h else h
                b = hs[k] if k < 8 and hs[k] > 0 else a
            else:
                a = h * hk[k % len(hk)]
                b = max(a * hs[k % len(hs)], (tf - t0) / 64)
            calls.append((Tok.of(u), h, a, b))
            return Tok("s", k), a, b

        s.step = step
        lab = f"evolve t0={t0} tf={tf} h_init={'default' if default else hi} store_freq={sf}"
        try:
            r = Tok.of(s.evolve(Tok("u0"), t0, tf, store_data=store, store_freq=sf, **({} if default else {"h_init": hi})))
        except Exception as e:
            return hit(f"{lab}: raised {e!r} after {len(calls)} steps")
        tol = 1e-12 * max(abs(t0), abs(tf), 1e-300)
        tc, prev, wt, wu = t0, "u0", [t0] if store else [], ["u0"] if store else []
        if back and calls:
            return hit(f"{lab}: steps made on an empty span")
        for k, (u, h, a, b) in enumerate(calls):
            if not h > 0:
                return hit(f"{lab}: step {k} of size {h}")
            if u != prev:
                return hit(f"{lab}: step {k} starts from {u}, previous state is {prev}")
            if tc + h > tf + tol:
                return hit(f"{lab}: step {k} reaches {tc + h} beyond the end")
            sug = ((tf - t0) / 100 if default else hi) if k == 0 else calls[k - 1][3]
            want = sug if tc + sug <= tf else tf - tc
            if abs(h - want) > 2 * tol:
                return hit(f"{lab}: step {k} is {h}, suggested {sug} with {tf - tc} left")
            tc += a
            prev = ("s", k)
            if store and (k + 1) % sf == 0:
                wt.append(tc)
                wu.append(prev)
        if not back and abs(tc - tf) > 2 * tol:
            return hit(f"{lab}: ended at {tc}")
        if r != prev:
            return hit(f"{lab}: returned {r}, last state is {prev}")
        if list(map(Tok.of, s.u)) != wu or len(s.t) != len(wt) or any(not abs(x - y) <= 4 * tol for x, y in zip(s.t, wt)):
            return hit(f"{lab}: stored {list(zip(s.t, map(Tok.of, s.u)))[:5]}, expected {list(zip(wt, wu))[:5]}")
    return 0


@handler
def evolve_as_long(solver, n, model=None):
    m = model or {}
    scen = [(0.0, 0.1, r, f) for r in (0.5, 1.0) for f in (1.0, 2.0, 0.5)] + [(-3.0, 0.0625, 0.25, f) for f in (1.0, 1.5)] + [(7.0, 1 / 3, 0.7, 1.25)]
    if "hi" in m:
        h = mval(m, "hi", 1.0)
        scen.append((mval(m, "t0", 0.0), h, mval(m, "r", h) / h, mval(m, "g", h) / h))
    for t0, h, r, f in scen:
        tf = t0 + h * (n - 1 + r)
        s = lin2(solver)
        calls = []

        def step(u, hh):
            k = len(calls) + 1
            if k > n + 20:
                raise RuntimeError("more steps than expected")
            calls.append((Tok.of(u), hh))
            return Tok("s", k), hh, f * h if k == 100 else h

        s.step = step
        lab = f"{solver} evolve t0={t0} tf={tf} h_init={h} ({n} steps)"
        try:
            res = Tok.of(s.evolve(Tok("u0"), t0, tf, h, store_freq=20))
        except Exception as e:
            return hit(f"{lab}: raised {e!r} after {len(calls)} steps")
        N = len(calls)
        ids = ["u0"] + [("s", k) for k in range(1, N + 1)]
        tol = 1e-11 * max(abs(t0), abs(tf))
        if [x[0] for x in calls] != ids[:-1] or res != ids[-1]:
            return hit(f"{lab}: states are not passed from step to step")
        tc, wt = t0, [t0]
        for k, (u, hh) in enumerate(calls, 1):
            want = f * h if k == 101 else h
            if tc + want > tf:
                want = tf - tc
            if abs(hh - want) > tol:
                return hit(f"{lab}: step {k} is {hh}, expected {want}")
            tc += hh
            if k % 20 == 0:
                wt.append(tc)
        if abs(tc - tf) > tol or list(map(Tok.of, s.u)) != ids[::20] or len(s.t) != len(wt) or any(abs(x - y) > tol for x, y in zip(s.t, wt)):
            return hit(f"{lab}: ended at {tc}, stored times {s.t[:4]}..., states {len(s.u)}")
    return 0


@handler
def bad_hinit(model=None):
    for hi in (0.0, -0.5, float("nan"), -float("inf")):
        for t0, tf in ((0.0, 1.0), (-2.0, -1.0)):
            s = lin2()
            n = []

            def step(u, h):
                n.append(h)
                if len(n) > 50:
                    raise RuntimeError("evolution does not advance")
                return u, h, h

            s.step = step
            try:
                s.evolve(Tok("u0"), t0, tf, h_init=hi)
            except ValueError:
                continue
            except Exception as e:
                return hit(f"h_init={hi}: {e!r}")
            return hit(f"h_init={hi} on [{t0},{tf}] accepted ({len(n)} steps)")
    return 0


@handler
def evolve_cs(sf, store, solver="IF4", model=None):
    m = model or {}
    scen = []
    if "h" in m:
        scen.append((mval(m, "t0", 0.0), mval(m, "tf", 1.0), mval(m, "h", 0.1)))
    for t0 in (0.0, 0.1, -1.0, -0.7, 1.3, 100.0, -5e4):
        for h in (0.1, 0.25, 1 / 3, 0.7, 1e-3, 0.01, 7.0):
            for n in (1, 2, 3, 4, 5, 7, 10, 11, 30, 101, 150, 203):
                scen.append((t0, t0 + n * h, h))
                scen.append((t0, np.nextafter(t0 + n * h, np.inf), h))
                scen.append((t0, np.nextafter(t0 + n * h, -np.inf), h))
                if n > 1:
                    scen.append((t0, t0 + (n - 0.5) * h, h))
                    scen.append((t0, t0 + n * h, (t0 + n * h - t0) / n))
    for t0 in (0.0, 0.3, -2.0):
        for h in (1e-6, 1e-5, 1e-4, 1e-3, 0.1, 1.0, 50.0, 1e4, 1e7):
            for n in (1, 2, 3, 5, 8):
                scen += [(t0, t0 + (n + d) * h, h) for d in (1e-5, -1e-5, 1e-3, -1e-3, 0.03, -0.03, 0.3)]
    for t0, tf, h in scen:
        if not (h > 0 and tf - t0 > h * (1 + 1e-7) and abs(t0) <= 1e6 * h and abs(tf) <= 1e6 * h):
            continue
        from fractions import Fraction as Fr

        q = (Fr(float(tf)) - Fr(float(t0))) / Fr(float(h))
        n = math.ceil(q - Fr(1, 10**7))
        alt = math.ceil(q - Fr(1, 10**10))
        s = build(solver, "diag", np.array([-1.0, -2.0]), lambda x: x)
        s.t, s.u = ["stale"], ["stale"]
        calls = []

        def step(u, hh):
            calls.append((Tok.of(u), hh))
            if len(calls) > n + 50:
                raise RuntimeError("evolution does not end")
            return Tok("s", len(calls) - 1)

        s.step = step
        lab = f"evolve t0={t0!r} tf={tf!r} h={h!r} store_freq={sf}"
        try:
            r = Tok.of(s.evolve(Tok("u0"), t0, tf, h, store_data=store, store_freq=sf))
        except Exception as e:
            return hit(f"{lab}: raised {e!r}")
        if len(calls) not in (n, alt):
            return hit(f"{lab}: {len(calls)} steps, {n} reach the final time")
        n = len(calls)
        if any(c[1] != h for c in calls) or [c[0] for c in calls] != ["u0"] + [("s", k) for k in range(n - 1)] or r != ("s", n - 1):
            return hit(f"{lab}: states are not passed from step to step")
        ks = [0] + [k for k in range(1, n + 1) if k % sf == 0] if store else []
        if list(map(Tok.of, s.u)) != [("s", k - 1) if k else "u0" for k in ks] or len(s.t) != len(ks):
            return hit(f"{lab}: stored {len(s.t)} times / {len(s.u)} states, expected {len(ks)}")
        for t, k in zip(s.t, ks):
            x = Fr(float(t0)) + k * Fr(float(h))
            if abs(Fr(float(t)) - x) > Fr(12, 10) * Fr(1, 2**53) * (abs(x) + abs(k * Fr(float(h)))):
                return hit(f"{lab}: stored time {t!r} of step {k} is off by {float(Fr(float(t)) - x):.3g}")
    return 0


@handler
def bad_cs_h(solver="IF4", model=None):
    nan = float("nan")
    for t0, tf, h, ok in [(0.0, 1.0, x, False) for x in (0.0, -0.0, -0.25, nan, 1.5, 1.0 + 1e-6, float("inf"), -float("inf"))] + [(1.0, 1.0, 0.5, False), (2.0, 1.0, 0.5, False), (0.0, 1.0, 1.0, True), (0.0, 1.0, 0.75, True), (-1.0, -0.5, 0.5, True), (0.1, 0.4, 0.3, True), (0.7, 1.0, 0.3, True), (0.3, 0.9, 0.6, True), (1e5 + 0.1, 1e5 + 0.4, 0.3, True)]:
        s = build(solver, "diag", np.array([-1.0, -2.0]), lambda x: x)
        n = []

        def step(u, hh):
            n.append(1)
            if len(n) > 20:
                raise RuntimeError("evolution does not end")
            return u

        s.step = step
        try:
            s.evolve(Tok("u0"), t0, tf, h)
            res = "accepted"
        except ValueError:
            res = "ValueError"
        except Exception as e:
            res = repr(e)
        if res != ("accepted" if ok else "ValueError"):
            return hit(f"evolve t0={t0} tf={tf} h={h}: {res}")
    return 0


# ---------------------------------------------------------------- spatial toolbox
def _arrs(rng, shape, kind, lo=0.3, hi=6.0):
    z = rng.uniform(lo, hi, shape) * rng.choice([-1.0, 1.0], shape)
    if kind == "c":
        z = z * np.exp(1j * rng.uniform(0, 2 * math.pi, shape))
    return z


def _quad_psi(r, z):
    x, w = np.polynomial.legendre.leggauss(80)
    t, w = (x + 1) / 2, w / 2
    return r * np.sum(w * np.exp((1 - t) * complex(z)) * t ** (r - 1))


def raises(fn, exc):
    try:
        fn()
    except exc:
        return True
    except Exception as e:
        return False
    return False


@handler
def psi(r, kind, shape, model=None):
    from rkstiff import etd

    f = getattr(etd, f"psi{r}")
    rng = np.random.default_rng(5)
    for rep in range(24):
        # small arguments: the closed formulas lose eps/|z|^r to cancellation
        scale = (0.3, 6.0) if rep < 6 else (5.0, 40.0) if rep < 12 else (10.0 ** (12 - rep), 10.0 ** (13 - rep))
        for sh in [tuple(shape) if shape is not None else None, (3,), (2, 2), ()]:
            z = _arrs(rng, sh if sh is not None else (), kind, *scale)
            if sh is None:
                z = complex(z) if kind == "c" else float(z)
            else:
                z = np.array(z)
            keep = np.array(z)
            y = f(z)
            if np.shape(y) != np.shape(z):
                return hit(f"psi{r} of shape {np.shape(z)} has shape {np.shape(y)}")
            for a, b in zip(np.ravel(y), np.ravel(keep)):
                w = _quad_psi(r, b)
                if not abs(a - w) <= max(1e-10 if rep < 12 else 1e-13, 2e-14 / abs(b) ** r if rep >= 12 else 0) * max(1.0, abs(w)):
                    return hit(f"psi{r}({b}) = {a}, the integral is {w}")
            if not np.array_equal(np.array(z), keep):
                return hit(f"psi{r} modified its argument")
    return 0


def _trig(rng, n, real):
    half = (n + 1) // 2
    co = {}
    if real:
        co[0] = rng.normal()
        for k in range(1, half):
            co[k] = (rng.normal() - 1j * rng.normal()) / 2
            co[-k] = np.conj(co[k])
    else:
        for k in range(-(half - 1), half):
            co[k] = rng.normal() + 1j * rng.normal()
    return co


def _tv(co, n, L, m=0):
    j = np.arange(n)
    return sum(c * (2j * math.pi * k / L) ** m * np.exp(2j * math.pi * k * j / n) for k, c in co.items())


@handler
def fourier(n, real, orders, model=None):
    from rkstiff import derivatives, grids

    nm = "rfft" if real else "fft"
    f = getattr(derivatives, "dx_" + nm)
    rng = np.random.default_rng(2)
    for a, L in ((0.0, 2 * math.pi), (-3.0, 7.0), (10.0, 0.5), (-40.0, 80.0)):
        if n % 2:
            kx = 2 * math.pi * getattr(np.fft, nm + "freq")(n, d=L / n)
        else:
            kx = getattr(grids, "construct_x_kx_" + nm)(n, a, a + L)[1]
        for rep in range(3):
            co = _trig(rng, n, real)
            u = _tv(co, n, L)
            u = u.real.copy() if real else u
            for x in [u] + ([] if real else [u.real.copy()]):
                keep, kk = x.copy(), kx.copy()
                for m in list(orders) + ["default"]:
                    r = f(kx, x) if m == "default" else f(kx, x, m)
                    mm = 1 if m == "default" else m
                    w = _tv(co, n, L, mm)
                    if real:
                        w = w.real
                    elif x is not u:
                        cc = {}
                        for k, v in co.items():
                            cc[k] = cc.get(k, 0) + v / 2
                            cc[-k] = cc.get(-k, 0) + np.conj(v) / 2
                        w = _tv(cc, n, L, mm)
                    sc = (math.pi * n / L) ** mm
                    if np.shape(r) != (n,) or not np.all(np.abs(r - w) <= 1e-10 * (sc + 1) * 10):
                        return hit(f"dx_{nm} order {m} on {n} points, interval [{a}, {a + L}]: error {np.max(np.abs(np.asarray(r) - w)) if np.shape(r) == (n,) else np.shape(r)}")
                    if real and np.iscomplexobj(r):
                        return hit("dx_rfft returned complex values")
                    if not (np.array_equal(x, keep) and np.array_equal(kx, kk)):
                        return hit(f"dx_{nm} modified its input (order {m})")
    # integer-valued input, two intervals in turn, overwritten results
    iv = rng.integers(-9, 10, n)
    grid = lambda L: 2 * math.pi * getattr(np.fft, nm + "freq")(n, d=L / n)
    k1, k2 = grid(2.0), grid(3.0)
    for m in (0, 1, 2):
        r, w = f(k1, iv, m), f(k1, iv.astype(float), m)
        if np.shape(r) != np.shape(w) or not np.allclose(r, w, rtol=1e-12, atol=1e-12 * n ** (m + 1)):
            return hit(f"dx_{nm} order {m} of an integer array differs from that of the same real array")
    u = rng.normal(size=n) if real else rng.normal(size=n) + 1j * rng.normal(size=n)
    for m in (1, 2, 3):
        r = f(k1, u, m)
        w = r.copy()
        r[...] = 0
        r2 = f(k2, u, m)
        w2 = r2.copy()
        r1 = f(k1, u, m)
        sc = 1e-11 * (math.pi * n) ** m
        if np.max(np.abs(r1 - w)) > sc or np.max(np.abs(w2 * 1.5**m - w)) > 10 * sc or not np.array_equal(r2, w2):
            return hit(f"dx_{nm} order {m} on {n} points depends on earlier calls")
    return 0


@handler
def fourier_errors(real, model=None):
    from rkstiff import derivatives, grids

    nm = "rfft" if real else "fft"
    f = getattr(derivatives, "dx_" + nm)
    x, kx = getattr(grids, "construct_x_kx_" + nm)(6, 0.0, 2.0)
    u = np.sin(x)
    for m in range(-6, 0):
        if not raises(lambda: f(kx, u, m), ValueError):
            return hit(f"dx_{nm} accepts order {m}")
    for m in (1.0, "1", None, 1.5, np.array([1])):
        if not raises(lambda: f(kx, u, m), TypeError):
            return hit(f"dx_{nm} accepts order {m!r}")
    for k in (kx[:-1], np.append(kx, 1.0)):
        for m in (1, 2):
            if not raises(lambda: f(k, u, m), ValueError):
                return hit(f"dx_{nm} accepts {len(k)} wavenumbers for 6 points")
    if real:
        for m in (0, 1):
            for v in (u + 0j, u * (1 + 1j)):
                if not raises(lambda: f(kx, v, m), TypeError):
                    return hit(f"dx_rfft accepts complex input at order {m}")
    return 0


@handler
def cheb(n, orders, model=None):
    from rkstiff import derivatives, grids

    rng = np.random.default_rng(4)
    for a, L in ((-1.0, 2.0), (0.0, 1.0), (-5.0, 3.0), (2.0, 10.0)):
        for v in grids.construct_x_dx_cheb(n, a, a + L):
            v[...] = 0
        x, D = grids.construct_x_dx_cheb(n, a, a + L)
        t = (x - a) / L
        for rep in range(3):
            co = rng.normal(size=(n + 1, 2))

            def val(m):
                return sum(co[k][None, :] * (math.perm(k, m) * t ** (k - m))[:, None] for k in range(m, n + 1)) / L**m if m <= n else np.zeros((n + 1, 2))

            U = val(0)
            for u, col in ((U[:, 0].copy(), 0), (U.copy(), slice(None))):
                keep, DK = u.copy(), D.copy()
                for m in list(orders) + ["default"]:
                    mm = 1 if m == "default" else m
                    r = derivatives.dx_cheb(D, u) if m == "default" else derivatives.dx_cheb(D, u, m)
                    w = val(mm)[:, col]
                    if np.shape(r) != np.shape(w) or not np.all(np.abs(r - w) <= 1e-10 * (2 * n * n / L) ** mm * 10 + 1e-12):
                        return hit(f"dx_cheb order {m}, n={n}, interval [{a}, {a + L}], input shape {u.shape}: wrong derivative of a degree-{n} polynomial")
                    if not (np.array_equal(u, keep) and np.array_equal(D, DK)):
                        return hit("dx_cheb modified its input")
    return 0


@handler
def cheb_forms(n, model=None):
    from rkstiff import derivatives, grids

    rng = np.random.default_rng(5)
    f = derivatives.dx_cheb
    for L, L2 in ((2.0, 3.0), (1.0, 0.3)):
        D, D2 = grids.construct_x_dx_cheb(n, -1.0, L - 1)[1], grids.construct_x_dx_cheb(n, -1.0, L2 - 1)[1]
        DK = D.copy()

        def bad(M, u, m, nm):
            w = u.astype(complex) if np.iscomplexobj(u) else u.astype(float)
            for _ in range(m):
                w = M @ w
            r = f(M, u, m)
            sc = 1e-10 * (10 * n * n / min(L, L2)) ** m * (np.max(np.abs(u)) + 1)
            if np.shape(r) != np.shape(w) or np.max(np.abs(r - w)) > sc:
                return f"dx_cheb order {m}, n={n}, {nm}: {np.asarray(r).tolist()}, expected {w.tolist()}"
            if m:
                r[...] = 0

        q = rng.normal(size=(n + 1, n + 1))
        z = rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1)
        for m in range(5):
            for u, nm in ((z, "complex vector"), (rng.integers(-5, 6, n + 1), "integer vector"), (q[:, :1].copy(), "one column"), (z[:, None].copy(), "one complex column"), (q.copy(), "square matrix")):
                e = bad(D, u, m, nm)
                if e:
                    return hit(e)
            for M, nm in ((D, "first grid"), (D2, "second grid of this size"), (D, "first grid again")):
                e = bad(M, q[:, 0].copy(), m, nm)
                if e:
                    return hit(e)
        if not np.array_equal(D, DK):
            return hit("dx_cheb modified its matrix")
    return 0


@handler
def cheb_errors(model=None):
    from rkstiff import derivatives

    D = np.arange(16.0).reshape(4, 4)
    u = np.ones(4)
    f = derivatives.dx_cheb
    for m in range(-5, 0):
        if not raises(lambda: f(D, u, m), ValueError):
            return hit(f"dx_cheb accepts order {m}")
    for m in (1.0, "1", None):
        if not raises(lambda: f(D, u, m), TypeError):
            return hit(f"dx_cheb accepts order {m!r}")
    for args in ((D, u[:3], 1), (D, np.ones((3, 2)), 1), (D[:, :3], u, 1), (D, np.zeros((4, 2, 2)), 1)):
        if not raises(lambda: f(*args), ValueError):
            return hit(f"dx_cheb accepts shapes {args[0].shape}, {args[1].shape}")
    return 0


@handler
def uniform(n, real, model=None):
    from rkstiff import grids

    nm = "rfft" if real else "fft"
    f = getattr(grids, "construct_x_kx_" + nm)
    modes = list(range(n // 2 + 1)) if real else list(range(n // 2)) + list(range(-n // 2, 0))
    rng = np.random.default_rng(1)
    cases = [(0.0, 2 * math.pi), (0.0, 1.0), (-1.0, 1.0), (0.1, 0.8), (0.0, 0.3), (100.0, 100.7)]
    a0, L0 = mval(model, "a", None), mval(model, "Len", None)
    if a0 is not None and L0 is not None:
        cases.insert(0, (a0, a0 + L0))
    cases += [(x, x + y) for x, y in zip(rng.uniform(-50, 50, 3000), 10 ** rng.uniform(-3, 3, 3000))]
    for nn in (n,) if True else ():
        for a, b in cases:
            x, kx = f(nn, a, b)
            L = b - a
            if len(x) != nn or len(kx) != len(modes):
                return hit(f"construct_x_kx_{nm}({nn}, {a}, {b}) has {len(x)} points and {len(kx)} wavenumbers")
            w = a + L * np.arange(nn) / nn
            if x[0] != a or np.max(np.abs(x - w)) > 16 * 2.0**-52 * max(abs(a), abs(b)) or np.min(np.diff(x)) <= 0:
                return hit(f"construct_x_kx_{nm}({nn}, {a}, {b}): points {x[:4]}...")
            k = 2 * math.pi * np.array(modes) / L
            if np.max(np.abs(kx - k)) > 1e-12 * np.max(np.abs(k)):
                return hit(f"construct_x_kx_{nm}({nn}, {a}, {b}): wavenumbers {kx}, expected {k}")
        for a, b in ((0.0, 1.0), (-3.0, 5.0), (0.0, 1.0)):
            x, kx = f(nn, a, b)
            if len(x) != nn or len(kx) != len(modes) or np.max(np.abs(x - a - (b - a) * np.arange(nn) / nn)) > 1e-12 or np.max(np.abs(kx * (b - a) - 2 * math.pi * np.array(modes))) > 1e-11 * nn:
                return hit(f"construct_x_kx_{nm}({nn}, {a}, {b}) depends on earlier calls")
            k0 = kx.copy()
            y, ky = f(nn, a, b + 1)
            if not np.array_equal(kx, k0):
                return hit(f"a second construct_x_kx_{nm} call changes the first result")
            for v in (x, kx, y, ky):
                v[...] = 0
        x, kx = f(nn)
        if len(x) != nn or np.max(np.abs(x - 2 * math.pi * np.arange(nn) / nn)) > 1e-12 or np.max(np.abs(kx - np.array(modes))) > 1e-12:
            return hit(f"construct_x_kx_{nm}({nn}) on the default interval")
    return 0


@handler
def sizes(name, even, model=None):
    from rkstiff import grids

    f = getattr(grids, name)
    for n in range(-8, 80):
        ok = n > 2 and n % 2 == 0 if even else n >= 2
        try:
            f(n, 0.0, 1.0)
            if not ok:
                return hit(f"{name} accepts n={n}")
        except ValueError:
            if ok:
                return hit(f"{name} refuses n={n}")
        except Exception as e:
            return hit(f"{name}({n}) raises {e!r}")
    for v in (8.0, "8", None, 7.5, [8]):
        if not raises(lambda: f(v, 0.0, 1.0), TypeError):
            return hit(f"{name} does not refuse n={v!r} with a TypeError")
    return 0


@handler
def chebgrid(n, model=None):
    from rkstiff import grids

    t = -np.cos(np.arange(n + 1) * math.pi / n)
    D0 = grids.construct_x_dx_cheb(n, 0.0, 1.0)[1]
    Dk = D0.copy()
    for a, b in ((-1.0, 1.0), (0.0, 1.0), (-3.0, 7.5), (10.0, 11.0), (0.0, 1.0)):
        x = grids.construct_x_cheb(n, a, b)
        x2, D = grids.construct_x_dx_cheb(n, a, b)
        w = a + (b - a) * (t + 1) / 2
        for y in (x, x2):
            if np.shape(y) != (n + 1,) or np.max(np.abs(y - w)) > 1e-12 * max(abs(a), abs(b)) or np.min(np.diff(y)) <= 0:
                return hit(f"Chebyshev grid of order {n} on [{a}, {b}]: {y}")
        if D.shape != (n + 1, n + 1):
            return hit(f"differentiation matrix of shape {D.shape}")
        if np.max(np.abs(D * (b - a) - Dk)) > 1e-9 * np.max(np.abs(Dk)) * max(1, abs(a) / (b - a)):
            return hit(f"differentiation matrix on [{a}, {b}] is not the scaled one of [0, 1]")
        for v in (x, x2, D):
            v[...] = 0
    for x in (grids.construct_x_cheb(n), grids.construct_x_dx_cheb(n)[0]):
        if np.shape(x) != (n + 1,) or np.max(np.abs(x - t)) > 1e-12:
            return hit("default Chebyshev interval")
    return 0


def _hankel_ref(n):
    import scipy.special as sp

    z = sp.jn_zeros(0, n + 1)
    j, J = z[:-1], z[-1]
    return j, J, 2 * sp.j0(np.outer(j, j) / J) / (J * sp.j1(j)[None, :] ** 2)


@handler
def hankel(n, model=None):
    from rkstiff.transforms import HankelTransform
    import scipy.special as sp

    j, J, Y = _hankel_ref(n)
    rng = np.random.default_rng(7)
    for R in (mval(model, "rmax", 1.0) or 1.0, 1.0, 0.2, 3.7, 25.0):
        H = HankelTransform(n, R)
        if np.shape(H.r) != (n,) or np.max(np.abs(H.r - j * R / J)) > 1e-10 * R or np.max(np.abs(H.kr - j / R)) > 1e-10 * max(j) / R:
            return hit(f"radial grids for nr={n}, rmax={R}")
        if H.rmax != R or H.nr != n or np.max(np.abs(H.bessel_zeros() - j)) > 1e-10 or np.max(np.abs(H.hankel_matrix() - Y)) > 1e-10:
            return hit(f"transform matrix for nr={n}, rmax={R}")
        for rep in range(4):
            f = rng.normal(size=n) + 1j * rng.normal(size=n)
            keep = f.copy()
            g = H.ht(f)
            if np.max(np.abs(g - R**2 / J * Y.dot(f))) > 1e-9 * R**2:
                return hit(f"forward transform, nr={n}, rmax={R}")
            if np.max(np.abs(H.iht(f) - J / R**2 * Y.dot(f))) > 1e-8 * J / R**2:
                return hit(f"inverse transform, nr={n}, rmax={R}")
            if np.max(np.abs(H.iht(g) - f)) > (2e-2 if n < 8 else 1e-3) * np.max(np.abs(f)):
                return hit(f"inverse does not undo forward, nr={n}, rmax={R}")
            F2 = np.stack([f, 2 * f], axis=1)
            if np.max(np.abs(H.ht(F2)[:, 0] - g)) > 1e-9 * R**2:
                return hit("transform of a matrix")
            if not np.array_equal(f, keep):
                return hit("transform modified its argument")
        for m in range(min(n, 4) - 1 if n < 8 else 4):
            g = H.ht(sp.j0(j[m] * j / J))
            w = np.zeros(n)
            w[m] = sp.j1(j[m]) ** 2 / 2 * R**2
            if np.max(np.abs(g - w)) > (4e-2 if n < 8 else 4e-3) * R**2:
                return hit(f"transform of J0(k_{m} r) is {g}, expected {w}")
    return 0


@handler
def hankel_two(n, model=None):
    from rkstiff.transforms import HankelTransform

    j, J, Y = _hankel_ref(n)
    rng = np.random.default_rng(17)
    R = (1.7, 0.4)
    H = [HankelTransform(n, r) for r in R]
    f, g = rng.normal(size=n) + 1j * rng.normal(size=n), rng.integers(-9, 10, n)
    fk, gk = f.copy(), g.copy()
    for k in (0, 1, 0):
        for v in (f, g):
            a, b = H[k].ht(v), H[k].iht(v)
            if np.max(np.abs(a - R[k] ** 2 / J * Y.dot(v))) > 1e-9 or np.max(np.abs(b - J / R[k] ** 2 * Y.dot(v))) > 1e-7:
                return hit(f"transform of size {n}, rmax={R[k]}, next to another object of the same size")
            if v is g and (np.iscomplexobj(a) or np.iscomplexobj(b)):
                return hit("complex transform of real data")
            a[...] = 0
            b[...] = 0
    for k in (0, 1):
        if np.max(np.abs(H[k].r - j * R[k] / J)) > 1e-10 or np.max(np.abs(H[k].kr * R[k] - j)) > 1e-9:
            return hit(f"grids of object {k} changed")
    if not (np.array_equal(f, fk) and np.array_equal(g, gk)):
        return hit("transform modified its argument")
    return 0


def _hsnap(H):
    return [np.array(x, dtype=float) for x in (H.nr, H.rmax, H.r, H.kr, H.hankel_matrix(), H.bessel_zeros(), H.ht(np.ones(len(H.r))), H.iht(np.ones(len(H.r))))]


def _heq(a, b):
    return all(x.shape == y.shape and np.allclose(x, y, rtol=1e-11, atol=1e-13) for x, y in zip(a, b))


@handler
def hankel_config(depth, model=None):
    import itertools
    from rkstiff.transforms import HankelTransform

    def tryset(H, nm, v):
        try:
            setattr(H, nm, v)
        except Exception as e:
            return e

    ops = [("nr", 4), ("nr", 6), ("rmax", 2.5), ("rmax", 0.3), ("rmax", 1), ("rmax", 4e5), ("rmax", 1e-6), ("nr!", 3), ("nr!", -1), ("nr!", 0), ("nr!", 4.5), ("nr!", 6.0), ("nr!", "7"), ("nr!", None),
           ("rmax!", 0.0), ("rmax!", -1.0), ("rmax!", math.nan), ("rmax!", -math.inf), ("rmax!", 0)]
    for seq in itertools.product(ops, repeat=min(depth, 2)):
        H = HankelTransform(5, 1.5)
        n, R = 5, 1.5
        for nm, v in seq:
            before = _hsnap(H)
            if nm.endswith("!"):
                e = tryset(H, nm[:-1], v)
                if e is None:
                    return hit(f"HankelTransform.{nm[:-1]} accepts {v!r}")
                if isinstance(v, (int, float)) and not isinstance(e, ValueError):
                    return hit(f"HankelTransform.{nm[:-1]} = {v!r} raises {e!r}")
                if not _heq(_hsnap(H), before):
                    return hit(f"a refused {nm[:-1]} = {v!r} changed the transform")
                continue
            setattr(H, nm, v)
            n, R = (v, R) if nm == "nr" else (n, v)
            if not _heq(_hsnap(H), _hsnap(HankelTransform(n, R))):
                return hit(f"after {seq} the transform differs from HankelTransform({n}, {R})")
            keep = _hsnap(H)
            M, z = H.hankel_matrix(), H.bessel_zeros()
            M[...] = 7
            z[...] = 7
            if not _heq(_hsnap(H), keep):
                return hit("writing into returned arrays changes the transform")
    for n in (4, 5, 9):
        if not _heq(_hsnap(HankelTransform(n)), _hsnap(HankelTransform(n, 1.0))):
            return hit(f"HankelTransform({n}) is not HankelTransform({n}, 1.0)")
    for n, R, ok in ((3, 1.0, 0), (0, 1.0, 0), (-2, 1.0, 0), (4, 0.0, 0), (4, -1.0, 0), (4, math.nan, 0), (4, -math.inf, 0), (4, 1e-3, 1), (5, 1e6, 1)):
        try:
            HankelTransform(n, R)
            if not ok:
                return hit(f"HankelTransform({n}, {R}) accepted")
        except ValueError:
            if ok:
                return hit(f"HankelTransform({n}, {R}) refused")
    return 0


@handler
def mirror(n, kind, axis, m, model=None):
    from rkstiff.grids import mirror_grid

    rng = np.random.default_rng(9)
    r = rng.normal(size=n)
    rk = r.copy()
    sh = (n,) if m == 0 else (n, m) if axis == 0 else (m, n)
    u = rng.normal(size=sh) + (1j * rng.normal(size=sh) if kind == "c" else 0)
    if kind == "i":
        u = rng.integers(-9, 10, sh)
    uk = u.copy()
    wr = np.concatenate([-r[::-1], r])
    if axis is None:
        R, U = mirror_grid(r)
    elif axis == "default":
        R, U = mirror_grid(r, u)
    else:
        R, U = mirror_grid(r, u, axis=axis)
    if not np.array_equal(R, wr):
        return hit(f"mirrored grid {R}, expected {wr}")
    if axis is None:
        if U is not None:
            return hit("mirror_grid invents data")
    else:
        w = np.concatenate([u[::-1], u]) if axis in (-1, "default") else np.concatenate([u[::-1, :], u], axis=0) if axis == 0 else np.concatenate([u[:, ::-1], u], axis=1)
        if not np.array_equal(U, w):
            return hit(f"mirrored data (axis {axis}) {U.tolist()}, expected {w.tolist()}")
        if np.shares_memory(U, u):
            return hit("mirrored data shares memory with the input")
    if np.shares_memory(R, r) or not np.array_equal(r, rk) or not np.array_equal(u, uk):
        return hit("mirror_grid modified or aliased its input")
    return 0


@handler
def mirror_axis(model=None):
    from rkstiff.grids import mirror_grid

    r, u = np.array([1.0, 2.0]), np.arange(4.0).reshape(2, 2)
    for ax in range(-6, 7):
        bad = raises(lambda: mirror_grid(r, u, ax), ValueError)
        if bad == (ax in (-1, 0, 1)):
            return hit(f"mirror_grid axis {ax} {'refused' if bad else 'accepted'}")
    return 0


@handler
def fourier_model(name, n, model=None):
    from rkstiff import models, grids

    rng = np.random.default_rng(8)
    for a, L, mu in ((0.0, 2 * math.pi, 0.3), (-5.0, 10.0, 0.01), (1.0, 1.0, 2.0), (0.0, 2 * math.pi, -0.3), (-1.0, 3.0, 0.0)):
        x, kx = grids.construct_x_kx_rfft(n, a, a + L)
        kk = kx.copy()
        lin, nl = models.kdv_ops(kx) if name == "kdv" else models.burgers_ops(kx, mu)
        k = 2 * math.pi * np.arange(n // 2 + 1) / L
        wl = 1j * k**3 if name == "kdv" else -mu * k**2
        if np.shape(lin) != wl.shape or np.max(np.abs(lin - wl)) > 1e-11 * (np.max(np.abs(wl)) + 1):
            return hit(f"{name} linear operator {lin}, expected {wl}")
        for rep in range(3):
            co = _trig(rng, n, True)
            u, ux = _tv(co, n, L).real, _tv(co, n, L, 1).real
            uf = np.fft.rfft(u)
            uf[-1] = 0
            keep = uf.copy()
            w = np.fft.rfft((-6 if name == "kdv" else -1) * u * ux)
            for rp in range(2):
                r = nl(uf)
                if np.shape(r) != w.shape or np.max(np.abs(r - w)) > 1e-11 * (np.max(np.abs(w)) + 1):
                    return hit(f"{name} nonlinear part {r}, expected {w}")
            if not (np.array_equal(uf, keep) and np.array_equal(kx, kk)):
                return hit(f"{name} operators modified their arguments")
    return 0


@handler
def derivative_symmetry(n, real, model=None):
    """Fourier derivatives commute with shifts and reflections on arbitrary data"""
    from rkstiff import derivatives, grids

    rng = np.random.default_rng(12)
    f = derivatives.dx_rfft if real else derivatives.dx_fft

    def wave(real, a, L):
        if n % 2 or n < 4:
            return 2 * np.pi * (np.fft.rfftfreq if real else np.fft.fftfreq)(n, d=L / n)
        return (grids.construct_x_kx_rfft if real else grids.construct_x_kx_fft)(n, a, a + L)[1]

    def rnd(scale):
        return scale * (rng.normal(size=n) if real else rng.normal(size=n) + 1j * rng.normal(size=n))

    for a, L in ((0.0, 2 * math.pi), (-5.0, 10.0), (3.0, 1.0), (0.0, 1e-3), (-4e4, 9e4)):
        kx, kr = wave(real, a, L), wave(True, a, L)
        for scale in (1.0, 1e-9, 1e7):
            u, v = rnd(scale), rnd(scale)
            al, be = (1.5, -0.25) if real else (1.5 - 1j, 0.3j)
            for top in range(1, (n + 1) // 2):
                # a small mode next to a large constant
                for eps in (5e-14, 4e-13, 4e-11, 3e-9, 2e-7):
                    big, small = scale * np.ones(n), scale * eps * np.cos(2 * np.pi * top * np.arange(n) / n)
                    if not real:
                        big, small = big + 0j, small + 0j
                    for m in range(1, 5):
                        d = f(kx, big + small, m) - f(kx, big, m) - f(kx, small, m)
                        if not np.max(np.abs(d)) <= 5e-15 * scale * np.max(np.abs(kx)) ** m * max(1, n / 8) and top > n / 4:
                            return hit(f"order {m} derivative of a small mode next to a constant is off by {np.max(np.abs(d))} (n={n}, L={L})")
            flip = lambda x: np.roll(x[::-1], 1)
            for m in range(5):
                tol = 1e-10 * scale * (np.max(np.abs(kx)) ** m * n + 1e-300)
                du, dv = f(kx, u, m), f(kx, v, m)
                bad = lambda x, y: np.shape(x) != np.shape(y) or not np.max(np.abs(np.asarray(x) - y)) <= tol
                for s in (1, 2, n // 2):
                    if bad(f(kx, np.roll(u, s), m), np.roll(du, s)):
                        return hit(f"order {m} derivative does not commute with a shift by {s} (n={n}, L={L})")
                if (real or m % 2 == 0 or n % 2) and bad(f(kx, flip(u), m), (-1) ** m * flip(du)):
                    return hit(f"order {m} derivative does not commute with reflection (n={n}, L={L})")
                if bad(f(kx, al * u + be * v, m), al * du + be * dv):
                    return hit(f"order {m} derivative is not linear (n={n}, L={L})")
                if m and bad(np.array([np.sum(du) / n]), np.zeros(1)):
                    return hit(f"order {m} derivative sums to {np.sum(du)} over the grid (n={n}, L={L})")
                if real and bad(np.array([np.dot(v, du) / n / scale]), np.array([(-1) ** m * np.dot(u, dv) / n / scale])):
                    return hit(f"order {m}: summation by parts fails (n={n}, L={L})")
                if not real:
                    w = scale * rng.normal(size=n)
                    if bad(np.real(f(kx, w, m)), derivatives.dx_rfft(kr, w, m)):
                        return hit(f"order {m}: complex and real transform disagree on real data (n={n}, L={L})")
    return 0


@handler
def model_symmetry(name, n, model=None):
    """model nonlinearities keep the mean and commute with shifts, reflection and scaling"""
    from rkstiff import grids, models

    rng = np.random.default_rng(13)
    h = n // 2 + 1
    for a, L, mu in ((0.0, 2 * math.pi, 0.3), (-5.0, 10.0, 0.01), (1.0, 1.0, -0.3), (-30.0, 60.0, 0.0)):
        kx = grids.construct_x_kx_rfft(n, a, a + L)[1]
        lin, nl = models.kdv_ops(kx) if name == "kdv" else models.burgers_ops(kx, mu)
        if np.shape(lin) != (h,) or lin[0] != 0:
            return hit(f"{name} linear part {lin}")
        ph = np.exp(-2j * np.pi * np.arange(h) / n)
        for scale in (1.0, 1e-6, 1e5):
            uf = np.fft.rfft(scale * rng.normal(size=n))
            tol = 1e-10 * scale**2 * n * n * np.max(kx)
            N = lambda x: np.asarray(nl(np.array(x)))
            N0 = N(uf)
            bad = lambda x, y: np.shape(x) != np.shape(y) or not np.max(np.abs(x - y)) <= tol
            if N0.shape != (h,) or bad(N0[:1], np.zeros(1)):
                return hit(f"{name} nonlinear part changes the mean: {N0[:1]}")
            if bad(N(ph * uf), ph * N0):
                return hit(f"{name} nonlinear part does not commute with a shift")
            if bad(N(uf.conj()), -N0.conj()):
                return hit(f"{name} nonlinear part does not commute with reflection")
            if bad(N(0.5 * uf), 0.25 * N0) or bad(N(-uf), N0):
                return hit(f"{name} nonlinear part is not quadratic")
    return 0


@handler
def allen(n, model=None):
    from rkstiff import models

    rng = np.random.default_rng(8)
    for rep in range(4):
        D, x, eps = rng.normal(size=(n + 1, n + 1)), rng.normal(size=n + 1), rng.uniform(0.01, 2)
        Dk, xk = D.copy(), x.copy()
        lin, nl = models.allen_cahn_ops(x, D, eps)
        u = rng.normal(size=n - 1) + 1j * rng.normal(size=n - 1)
        uk = u.copy()
        full = np.concatenate([[0], u, [0]])
        v = u + x[1:-1]
        w = eps * (D @ D @ full)[1:-1] + v - v**3
        r = nl(u)
        if np.shape(r) != (n - 1,) or np.shape(lin) != (n - 1, n - 1) or np.max(np.abs(lin @ u + r - w)) > 1e-10 * (np.max(np.abs(w)) + 1):
            return hit(f"Allen-Cahn right-hand side differs from eps v'' + v - v^3 (n={n})")
        if not (np.array_equal(D, Dk) and np.array_equal(x, xk) and np.array_equal(u, uk)):
            return hit("allen_cahn_ops modified its arguments")
    lin, nl = models.allen_cahn_ops(x, D)
    if np.max(np.abs(lin - (0.01 * D @ D + np.eye(n + 1))[1:-1, 1:-1])) > 1e-12:
        return hit("default epsilon is not 0.01")
    return 0


@handler
def models_in_turn(model=None):
    from rkstiff import models, grids

    rng = np.random.default_rng(18)
    n = 6
    Ls, mus = (2.0, 7.0), (0.3, -0.8)
    kx = [grids.construct_x_kx_rfft(n, 0.0, l)[1] for l in Ls]
    B, K = [models.burgers_ops(k, m) for k, m in zip(kx, mus)], [models.kdv_ops(k) for k in kx]
    co = _trig(rng, n, True)
    for which, M, fac in (("burgers", B, -1), ("kdv", K, -6)):
        for i in (0, 1, 0):
            u, ux = _tv(co, n, Ls[i]).real, _tv(co, n, Ls[i], 1).real
            uf = np.fft.rfft(u)
            uf[-1] = 0
            v = M[i][1](uf)
            w = fac * np.fft.rfft(u * ux)
            if np.shape(v) != w.shape or np.max(np.abs(v - w)) > 1e-10 * (np.max(np.abs(w)) + 1):
                return hit(f"{which} model {i} next to another one: {v}, expected {w}")
            v[...] = 0
        for i in (0, 1):
            k = 2 * math.pi * np.arange(n // 2 + 1) / Ls[i]
            w = 1j * k**3 if which == "kdv" else -mus[i] * k**2
            if np.max(np.abs(M[i][0] - w)) > 1e-10 * (np.max(np.abs(w)) + 1):
                return hit(f"{which} model {i}: linear operator")
    D, x, eps = rng.normal(size=(2, 4, 4)), rng.normal(size=(2, 4)), (0.5, 1.7)
    A = [models.allen_cahn_ops(x[q], D[q], eps[q]) for q in (0, 1)]
    u = rng.normal(size=2) + 1j * rng.normal(size=2)
    for q in (0, 1, 0):
        r = A[q][1](u)
        vv = u + x[q][1:-1]
        w = eps[q] * (D[q] @ D[q] @ np.concatenate([[0], u, [0]]))[1:-1] + vv - vv**3
        if np.max(np.abs(A[q][0] @ u + r - w)) > 1e-10 * (np.max(np.abs(w)) + 1):
            return hit(f"Allen-Cahn model {q} next to another one")
        r[...] = 0
    iw = np.array([2, -3])
    for k in (np.int64, float, complex):
        r = A[0][1](iw.astype(k))
        if np.max(np.abs(r - (x[0][1:-1] - (iw + x[0][1:-1]) ** 3))) > 1e-10:
            return hit(f"Allen-Cahn nonlinear part of a {k.__name__} state: {r}")
    return 0


@handler
def soliton(model=None):
    from rkstiff import models

    rng = np.random.default_rng(6)
    for rep in range(20):
        a, x0, t = rng.uniform(-2, 2), rng.uniform(-3, 3), rng.uniform(-1, 1)
        x = rng.uniform(-4, 4, 5)
        keep = x.copy()
        u = models.kdv_soliton(x, a, x0, t)
        w = 0.5 * a**2 / np.cosh(0.5 * a * (x - x0 - a**2 * t)) ** 2
        if np.shape(u) != (5,) or np.max(np.abs(u - w)) > 1e-12:
            return hit(f"kdv_soliton(ampl={a}, x0={x0}, t={t}) = {u}, expected {w}")
        if not np.array_equal(x, keep):
            return hit("kdv_soliton modified x")
    u = models.kdv_soliton(np.array([0.3, -1.0]))
    if np.max(np.abs(u - 0.125 / np.cosh(0.25 * np.array([0.3, -1.0])) ** 2)) > 1e-14:
        return hit("kdv_soliton defaults")
    return 0


@handler
def multi_soliton(model=None):
    from rkstiff import models

    rng = np.random.default_rng(6)
    for m in (1, 2, 3, 4, 5, 6):
        for rep in range(8):
            a, x0, t = rng.uniform(-2, 2, m), rng.uniform(-3, 3, m), rng.uniform(-1, 1)
            x = rng.uniform(-4, 4, (1, 2, 3, 5, 6)[rep % 5])
            xk = x.copy()
            w = sum(0.5 * p**2 / np.cosh(0.5 * p * (x - q - p**2 * t)) ** 2 for p, q in zip(a, x0))
            u = models.kdv_multi_soliton(x, list(a), list(x0), t)
            for v in (models.kdv_multi_soliton(x, tuple(a), list(x0), t), models.kdv_multi_soliton(x, a, x0, t)):
                if np.shape(v) != w.shape or np.max(np.abs(v - w)) > 1e-12:
                    return hit(f"kdv_multi_soliton of {m} solitons given as tuples or arrays")
            v = models.kdv_multi_soliton(x, list(a), list(x0))
            if np.shape(v) != w.shape or np.max(np.abs(v - sum(0.5 * p**2 / np.cosh(0.5 * p * (x - q)) ** 2 for p, q in zip(a, x0)))) > 1e-12:
                return hit("kdv_multi_soliton at the default time")
            if not np.array_equal(x, xk):
                return hit("kdv_multi_soliton modified x")
            if np.shape(u) != w.shape or np.max(np.abs(u - w)) > 1e-12:
                return hit(f"kdv_multi_soliton of {m} solitons is not their sum")
            for A, X in ((list(a), list(x0) + [1.0]), (list(a) + [1.0], list(x0)), (list(a), list(x0) * 2)):
                if not raises(lambda: models.kdv_multi_soliton(x, A, X, t), ValueError):
                    return hit("kdv_multi_soliton accepts mismatched lengths")
    return 0


# ---------------------------------------------------------------- histories
class _Fault(Exception):
    pass


def _enumerate(run):
    """depth-first enumeration of run(choose), choose(k) -> 0..k-1; run returns a message to stop"""
    stack = [[]]
    while stack:
        pre = stack.pop()
        trace = []

        def choose(k):
            i = len(trace)
            v = pre[i] if i < len(pre) else 0
            if i >= len(pre):
                for w in range(k - 1, 0, -1):
                    stack.append([t for t in trace] + [w])
            trace.append(v)
            return v

        m = run(choose)
        if m:
            return m
    return None


def _hist_problem(variant, mode):
    if variant == "diag":
        L = np.array([-0.004 + 0.002j, -3.0])
    elif variant == "eig":
        L = np.array([[-2.0, 1.0], [0.0, -0.005]])
    else:
        L = np.array([[-2.0, 0.5], [0.25, -1.5]])
    etd = dict(modecutoff=0.01, contour_points=8, contour_radius=2.0)

    def nl(u):
        return np.array([0.3 * u[0] * u[1] + 0.1j, u[0] ** 2 - 0.2 * u[1]])

    return L, nl, etd


@handler
def history(solver, variant, mode, faults, limit, model=None):
    """every scripted history of a few attempts: each attempt as from a freshly created solver"""
    import importlib

    L, nl0, etd = _hist_problem(variant, mode)
    mod = importlib.import_module("rkstiff." + CLSMOD[solver])
    adaptive = solver not in CS
    u0 = np.array([0.7 - 0.2j, 0.4 + 0.5j])
    A = 3
    oexp, oexpm = np.exp, getattr(mod, "expm", None)
    L1, nl1 = np.array(L), nl0
    for h, ts in ((0.5, 1.0), (0.25, 1.0)) + (() if faults else ((0.25, 2.0**-41), (0.25, 2.0**41))):
        # other units of time
        L, nl0, h = L1 / ts, (lambda u, ts=ts: nl1(u) / ts), h * ts
        for g in (h * (1 + 1e-7), h * 1.003, 0.4 * h, h + 1e-12 * ts):
            def run(choose):
                st = dict(done=False, active=False, k=0)

                def maybe():
                    if faults and st["active"] and not st["done"] and st["k"] < 2 and choose(2):
                        st["done"] = True
                        raise _Fault()

                def nl(u):
                    maybe()
                    return nl0(u)

                s = build(solver, variant, L, nl, etd)
                if limit is not None:
                    s.MAX_LOOPS = limit
                log = []
                inner = s._update_stages

                def rec(u, hh):
                    b = np.array(u, complex)
                    r = inner(u, hh)
                    log.append((b, hh, [np.array(x, complex) for x in (r if isinstance(r, tuple) else (r,))]))
                    return r

                s._update_stages = rec
                hist = []

                def verdict(u, e, *_, **__):
                    st["k"] += 1
                    v = 0 if st["k"] >= A or (faults and st["done"]) else choose(3 if faults or limit is not None else 4)
                    hist.append(("accept", "grow", "reject", "nan")[v])
                    return (1.0, 2.0, 0.5, float("nan"))[v]

                if adaptive:
                    s._compute_s = verdict

                def fexp(x, *a, **k):
                    maybe()
                    return oexp(x, *a, **k)

                def fexpm(x, *a, **k):
                    maybe()
                    return oexpm(x, *a, **k)

                np.exp = fexp
                if oexpm:
                    mod.expm = fexpm
                try:
                    u, hh, rounds = u0.copy(), h, 0
                    while len(log) < A and rounds < A + 2:
                        rounds += 1
                        sug = None
                        st["active"] = True
                        try:
                            if adaptive:
                                u, _, sug = s.step(u, hh)
                            else:
                                u, sug = s.step(u, hh), hh
                                st["k"] += 1
                        except _Fault:
                            hist.append("fault")
                        except Exception as e:
                            if limit is None or type(e).__name__ != "MaxLoopsExceeded":
                                return f"{solver}/{variant} raised {e!r} after {hist}"
                            hist.append("gave up")
                        st["active"] = False
                        if len(log) >= A:
                            break
                        j = 0 if st["done"] and sug is not None else choose(2 if sug is None else 3)
                        hh = (hh if sug is None else sug, g, h)[j]
                        hist.append(f"h={hh:g}")
                finally:
                    np.exp = oexp
                    if oexpm:
                        mod.expm = oexpm
                for k, (b, hh, got) in enumerate(log):
                    d = build(solver, variant, L, nl0, etd)
                    r = d._update_stages(b.copy(), hh)
                    for w, x, y in zip(("state", "estimate"), got, r if isinstance(r, tuple) else (r,)):
                        if far(x, y, 1e-13):
                            return f"{solver}/{variant} attempt {k} {w} {x} instead of {np.array(y)} after {hist}"
                return None

            m = _enumerate(run)
            if m:
                return hit(m)
    return 0


def _fixed_problem(variant, other=0):
    if variant == "diag":
        L = np.array([-0.004 + 0.002j, -3.0]) if not other else np.array([-1.0, -0.006j])
    elif variant == "eig":
        L = np.array([[-2.0, 1.0], [0.0, -0.005]]) if not other else np.array([[-1.0, 0.5], [0.0, -3.0]])
    else:
        L = np.array([[-2.0, 0.5], [0.25, -1.5]]) if not other else np.array([[-1.0, 0.25], [0.5, -0.5]])
    etd = dict(modecutoff=0.01, contour_points=4, contour_radius=2.0)
    if other == 2:
        L = _fixed_problem(variant)[0]
        etd = dict(modecutoff=0.1 if variant != "full" else 0.01, contour_points=6, contour_radius=1.5)
    return L, etd


def _quad(u):
    return np.array([0.3 * u[0] * u[1] + 0.1j, u[0] ** 2 - 0.2 * u[1]])


def _quad2(u):
    return np.array([0.5 - u[1] ** 2, 0.2j * u[0] * u[1]])


@handler
def rerun(solver, variant, model=None):
    """an evolution after other activity against the same evolution of a fresh solver"""
    adaptive = solver not in CS
    PRE = ["same run", "other run", "faulted run", "gave up", "manual steps"] + (["changed settings"] if solver in ETD else [])
    u, w = np.array([0.7 - 0.2j, 0.4 + 0.5j]), np.array([-0.3 + 0.1j, 0.9])
    L, etd = _fixed_problem(variant)
    new = _fixed_problem(variant, 2)[1]

    def run(choose):
        st = dict(on=False)
        vs = {}

        def ver(a, b, *_, **__):
            k = (np.round(np.asarray(a), 12).tobytes(), np.round(np.asarray(b), 12).tobytes())
            if k not in vs:
                vs[k] = (1.0, 2.0, 0.5)[choose(3)] if len(vs) < 2 else 1.0
            return vs[k]

        def nl(x):
            if st["on"] and choose(2):
                st["on"] = False
                raise _Fault()
            return _quad(x)

        def ev(s, x, tf, h, **kw):
            r = s.evolve(x.copy(), 0.0, tf, h, **kw)
            return np.array(r), list(s.t), [np.array(y) for y in s.u]

        pre = PRE[choose(len(PRE))]
        f = build(solver, variant, L, _quad, new if pre == "changed settings" else etd)
        if adaptive:
            f._compute_s = ver
        want = ev(f, u, 1.0, 0.5)
        s = build(solver, variant, L, nl, etd)
        if adaptive:
            s._compute_s = ver
        held = None
        if pre in ("same run", "changed settings"):
            ev(s, u, 1.0, 0.5)
            held = s.t, s.u, list(s.t), [np.array(y) for y in s.u]
            if pre == "changed settings":
                for k, v in new.items():
                    setattr(s.etd_config, k, v)
        elif pre == "other run":
            ev(s, w, 0.75, 0.25, store_data=bool(choose(2)))
            held = s.t, s.u, list(s.t), [np.array(y) for y in s.u]
        elif pre == "faulted run":
            st["on"] = True
            try:
                s.evolve(w.copy(), 0.0, 1.0, 0.5)
            except _Fault:
                pass
            st["on"] = False
            held = s.t, s.u, list(s.t), [np.array(y) for y in s.u]
        elif pre == "gave up":
            if adaptive:
                it = iter([1.0] * choose(2) + [0.5] * 60)
                s._compute_s = lambda *a, **k: next(it)
                s.MAX_LOOPS = 1
            try:
                s.evolve(w.copy(), 0.0, 1.0, 0.5 if adaptive else 5.0)
            except Exception as e:
                if type(e).__name__ != ("MaxLoopsExceeded" if adaptive else "ValueError"):
                    return f"{solver}: {e!r}"
            if adaptive:
                del s.MAX_LOOPS
                s._compute_s = ver
        else:
            if adaptive:
                it = iter((1.0, 1.0, 0.5, 1.0))
                s._compute_s = lambda *a, **k: next(it)
            x = w.copy()
            for _ in range(1 + choose(2)):
                x = s.step(x, 0.5)
                x = x[0] if isinstance(x, tuple) else x
            if adaptive:
                s._compute_s = ver
        if choose(2):
            s.reset()
            if s.t or s.u:
                return f"{solver}: reset keeps stored data"
        got = ev(s, u, 1.0, 0.5)
        if held is not None and (held[0] is s.t or held[1] is s.u or held[0] != held[2] or any(far(a, b, 0) for a, b in zip(held[1], held[3])) or len(held[1]) != len(held[3])):
            return f"{solver}/{variant}: lists of an earlier run changed by a later one ({pre})"
        if got[1] != want[1] or len(got[2]) != len(want[2]):
            return f"{solver}/{variant} after {pre}: times {got[1]} instead of {want[1]}"
        for a, b in zip([got[0]] + got[2], [want[0]] + want[2]):
            if far(a, b, 1e-12):
                return f"{solver}/{variant} after {pre}: {a} instead of {b}"

    m = _enumerate(run)
    return hit(m) if m else 0


@handler
def restart(solver, variant, model=None):
    """a run shifted in time, stored differently, stopped at and restarted from its snapshots"""
    adaptive = solver not in CS
    u0 = np.array([0.7 - 0.2j, 0.4 + 0.5j])
    L, etd = _fixed_problem(variant)

    def ev(script, s, x, *a, **kw):
        tried = []
        if script is not None:
            s._compute_s = script
        stages = s._update_stages
        s._update_stages = lambda y, hh: (tried.append(hh), stages(y, hh))[1]
        r = s.evolve(np.array(x), *a, **kw)
        del s._update_stages
        return np.array(r), np.array(s.t, dtype=float), [np.array(y) for y in s.u], tried

    def crosses(tried, t, k):
        j = 0
        for h in tried:
            if j >= k:
                return False
            if h > t[k] - t[j] + 1e-12:
                return True
            if abs(h - (t[j + 1] - t[j])) < 1e-12:
                j += 1
        return False

    def differ(a, b, shift=0.0):
        if len(a[1]) != len(b[1]) or len(a[2]) != len(b[2]):
            return f"times {a[1]} and {b[1]}"
        if not np.allclose(a[1], np.asarray(b[1]) - shift, rtol=0, atol=1e-10):
            return f"times {a[1]} and {b[1]}"
        for x, y in zip([a[0]] + list(a[2]), [b[0]] + list(b[2])):
            if np.shape(x) != np.shape(y) or not np.max(np.abs(x - y)) <= 1e-10 * (1 + np.max(np.abs(x))):
                return f"states {x} and {y}"
        return None

    def script(free):
        vs = {}

        def ver(a, b, *_, **__):
            k = (np.round(np.asarray(a), 11).tobytes(), np.round(np.asarray(b), 11).tobytes())
            if k not in vs:
                vs[k] = free[len(vs)] if len(vs) < len(free) else 1.0
            return vs[k]

        return ver

    V = [None]
    if adaptive:
        V = list(itertools.product((1.0, 2.0, 0.5, 4.0), repeat=3)) + ["real"]
    for T, D, steps, h in ((0.0, 2.0, 4, 0.25), (-3.0, -0.5, 5, 0.25), (8.0, -8.0, 12, 0.125), (0.0, 5.0, 130, 0.0078125), (2.0**33, -(2.0**33), 5, 0.25), (-(2.0**30), 2.0**36, 5, 0.125)):
        if steps > 100 and variant == "full":
            steps = 110
        for free in V if steps < 100 else V[:2] + V[-1:]:
            if free == "real" and abs(T) > 1e3:
                continue
            scr = script(free) if adaptive and free != "real" else None
            new = lambda: build(solver, variant, L, _quad, etd, cfg=dict(epsilon=1e-3) if free == "real" else None)
            end = T + steps * h
            A = ev(scr, new(), u0, T, end, h)
            msg = differ(A, ev(scr, new(), u0, T + D, T + D + steps * h, h), D)
            if msg:
                return hit(f"{solver}/{variant}: run shifted in time by {D}: {msg}")
            B = ev(scr, new(), u0, T, end, h, store_freq=2)
            msg = differ((A[0], A[1][::2], A[2][::2]), B)
            if msg:
                return hit(f"{solver}/{variant}: storing every second step: {msg}")
            B = ev(scr, new(), u0, T, end, h, store_data=False)
            if len(B[1]) or len(B[2]) or differ((A[0], [], []), B):
                return hit(f"{solver}/{variant}: a run that stores nothing gives {B[0]}, not {A[0]}")
            n = len(A[1]) - 1
            for k in sorted({1, 2, n // 2, n - 1} & set(range(1, n))):
                nxt = A[1][k + 1] - A[1][k]
                for s in (new(), None):
                    if s is None:
                        s = new()
                        ev(scr, s, u0, T, end, h)
                    msg = differ((A[0], A[1][k:], A[2][k:]), ev(scr, s, A[2][k], A[1][k], end, nxt))
                    if msg:
                        return hit(f"{solver}/{variant}: run restarted from snapshot {k} of {n}: {msg}")
                if not crosses(A[3], A[1], k):
                    s = new()
                    B = ev(scr, s, u0, T, A[1][k], h)
                    msg = differ((A[2][k], A[1][: k + 1], A[2][: k + 1]), B)
                    if msg:
                        return hit(f"{solver}/{variant}: run stopped at snapshot {k} of {n}: {msg}")
                    msg = differ((A[0], A[1][k:], A[2][k:]), ev(scr, s, B[0], A[1][k], end, nxt))
                    if msg:
                        return hit(f"{solver}/{variant}: run split at snapshot {k} of {n}: {msg}")
    return 0


@handler
def idle(solver, variant, model=None):
    """steps of zero length change nothing, negative and NaN ones are refused, the next step is as without them"""
    adaptive = solver not in CS
    L, etd = _fixed_problem(variant)
    nan = float("nan")

    def step(s, x, h, verdicts=(1.0,)):
        x = np.array(x)
        if not adaptive:
            return np.array(s.step(x, h)), h
        it = iter(verdicts)
        s._compute_s = lambda *a, **k: next(it)
        r = s.step(x, h)
        del s._compute_s
        return np.array(r[0]), r[1]

    for scale in (1.0, 1e-6, 1e4):
        for big in (1.0, 1e-3, 2e5):
            for seq in range(4):
                if variant == "full" and solver in ETD and big > 1:
                    continue
                Lb = np.asarray(L) * big
                h = 0.5 / max(big, 1.0)
                u = scale * np.array([0.7 - 0.2j, 0.4 + 0.5j])
                nl = lambda v: scale * _quad(v / scale)
                s, f = (build(solver, variant, Lb, nl, etd) for _ in range(2))
                x = y = u
                if seq in (1, 2):
                    v = (1.0,) if seq == 1 or not adaptive else (0.5, 1.0)
                    x, y = step(s, x, h, v)[0], step(f, y, h, v)[0]
                tol = 1e-12 * np.max(np.abs(x))
                for _ in range(2 if seq == 3 else 1):
                    errs = []
                    if adaptive:
                        stages = s._update_stages

                        def watch(a, b):
                            r = stages(a, b)
                            errs.append(np.array(r[1]))
                            return r

                        s._update_stages = watch
                    try:
                        r = s.step(np.array(x), 0.0)
                    except Exception as e:
                        return hit(f"{solver}/{variant}: a step of length zero raises {e!r}")
                    if adaptive:
                        del s._update_stages
                        r, took, _ = r
                        if took != 0:
                            return hit(f"{solver}/{variant}: a step of length zero reports length {took}")
                    if np.shape(r) != np.shape(x) or not np.max(np.abs(r - x)) <= tol:
                        return hit(f"{solver}/{variant}: a step of length zero turns {x} into {r}")
                    if any(np.max(np.abs(e)) > tol for e in errs):
                        return hit(f"{solver}/{variant}: a step of length zero estimates the error {errs}")
                    x = np.array(r)
                for bad in (-1e-9, -0.25, -1e6, -math.inf, nan):
                    try:
                        s.step(np.array(x), bad)
                    except (AssertionError, ValueError):
                        continue
                    except Exception as e:
                        return hit(f"{solver}/{variant}: step length {bad} raises {e!r}")
                    return hit(f"{solver}/{variant}: step length {bad} accepted")
                got, want = step(s, x, h / 2)[0], step(f, y, h / 2)[0]
                if not np.max(np.abs(got - want)) <= 1e-10 * np.max(np.abs(want)):
                    return hit(f"{solver}/{variant}: the step after a step of length zero gives {got}, not {want}")
    return 0


@handler
def interleave(solver, variant, model=None):
    """two solvers advanced in every order against the same solvers in processes of their own"""
    import multiprocessing as mp

    adaptive = solver not in CS
    us = [np.array([0.7 - 0.2j, 0.4 + 0.5j]), np.array([-0.3 + 0.1j, 0.9])]
    NL = (_quad, _quad2)

    def advance(s, x, k):
        if adaptive:
            it = iter(((0.5, 2.0), (1.0,), (0.5, 1.0), (1.0,))[k])
            s._compute_s = lambda *a, **k: next(it)
            y, h, n = s.step(x[0], x[1])
            return y, n
        return s.step(x[0], x[1]), (0.5, 0.25, 0.5, 0.25)[k]

    def alone(i, other, q):
        L, etd = _fixed_problem(variant, other if i else 0)
        s = build(solver, variant, L, NL[i], etd)
        x, out = (us[i].copy(), 0.5), [us[i].copy()]
        for k in range(4):
            x = advance(s, x, k)
            out.append(np.array(x[0]))
        q.put(out)

    ctx = mp.get_context("fork")
    for other in (1, 2) if solver in ETD else (1,):
        want = []
        for i in (0, 1):
            q = ctx.Queue()
            p = ctx.Process(target=alone, args=(i, other, q))
            p.start()
            want.append(q.get(timeout=60))
            p.join()

        def run(choose):
            S = [build(solver, variant, _fixed_problem(variant, other if i else 0)[0], NL[i], _fixed_problem(variant, other if i else 0)[1]) for i in (0, 1)]
            X, K, order = [(us[0].copy(), 0.5), (us[1].copy(), 0.5)], [0, 0], []
            for _ in range(4):
                i = choose(2)
                order.append(i)
                X[i] = advance(S[i], X[i], K[i])
                K[i] += 1
            for i in (0, 1):
                if far(X[i][0], want[i][K[i]], 1e-12):
                    return f"{solver}/{variant}: steps in order {order} give {X[i][0]} for solver {i} instead of {want[i][K[i]]}"

        m = _enumerate(run)
        if m:
            return hit(m)
    return 0


@handler
def settings(solver, model=None):
    import importlib

    cls = getattr(importlib.import_module("rkstiff." + CLSMOD[solver]), solver)
    from rkstiff.etd import ETDConfig
    from rkstiff.solveras import SolverConfig

    A = dict(epsilon=1e-3, incr_f=1.5, decr_f=0.8, safety_f=0.7, adapt_cutoff=0.05, minh=1e-9)
    B = dict(modecutoff=0.3, contour_points=7, contour_radius=0.5)
    L, N = np.array([-1.0, -2.0]), lambda x: x
    snap = lambda s: {(k, a): getattr(getattr(s, k), a) for k, d in (("config", A), ("etd_config", B)) if hasattr(s, k) for a in d}
    for which in range(3):
        mine = {}
        if solver in ETD:
            mine["etd_config"] = ETDConfig(modecutoff=0.25)
        if solver not in CS:
            mine["config"] = SolverConfig(epsilon=0.5)
        S = [cls(L, N), cls(L, N), cls(L, N, **mine)]
        before = [snap(s) for s in S]
        s, val = S[which], {}
        for k, d in (("config", A), ("etd_config", B)):
            if hasattr(s, k):
                for a, v in d.items():
                    setattr(getattr(s, k), a, v)
                    val[k, a] = v
        S.append(cls(L, N))
        want = [{**b, **(val if i == which else {})} for i, b in enumerate(before)] + [before[0]]
        for i, s in enumerate(S):
            if snap(s) != want[i]:
                return hit(f"{solver}: settings of solver {i} are {snap(s)} instead of {want[i]} after configuring solver {which}")
    return 0


@handler
def aliasing(solver, variant, model=None):
    adaptive = solver not in CS
    L0, etd = _fixed_problem(variant)

    def run(choose):
        mode = ("new", "constant", "argument", "view")[choose(4)]
        sf = 1 + choose(2)
        L, u = L0.copy(), np.array([0.7 - 0.2j, 0.4 + 0.5j])
        const = np.array([0.3 - 0.1j, 0.2])
        given, vs = [], {}

        def nl(x):
            r = {"new": lambda: _quad(x), "constant": lambda: const, "argument": lambda: x, "view": lambda: x[:]}[mode]()
            if mode in ("new", "constant"):
                given.append((r, r.copy()))
            return r

        def nl_copy(x):
            return {"new": lambda: _quad(x), "constant": const.copy, "argument": x.copy, "view": x.copy}[mode]()

        def ver(a, b, *_, **__):
            k = (np.round(np.asarray(a), 11).tobytes(), np.round(np.asarray(b), 11).tobytes())
            if k not in vs:
                vs[k] = (1.0, 2.0, 0.5)[choose(3)] if len(vs) < 2 else 1.0
            return vs[k]

        held = [("initial state", u, u.copy()), ("operator", L, L.copy())]

        def go(s, keep):
            if adaptive:
                s._compute_s = ver
            inner, copies, out, lists = s.step, [], [], []

            def step(x, h):
                r = inner(x, h)
                y = r[0] if adaptive else r
                keep.append((f"step result {len(keep)}", y, np.array(y)))
                copies.append(np.array(y))
                return r

            s.step = step
            for tf in (1.0, 0.75):
                del copies[:]
                u_in = u.copy()
                r = s.evolve(u, 0.0, tf, 0.5 if tf == 1.0 else 0.25, store_freq=sf)
                keep.append(("returned state", r, np.array(r)))
                keep.extend(("snapshot", a, np.array(a)) for a in s.u)
                want = [u_in] + copies[sf - 1 :: sf]
                if len(s.u) != len(want) or any(far(a, b, 1e-14) for a, b in zip(s.u, want)):
                    return "a stored snapshot is not the state the step returned", None
                out += [np.array(r)] + [np.array(a) for a in s.u]
                lists.append((s.u, len(s.u), s.t, list(s.t)))
            s.reset()
            x = u
            if adaptive:
                it = iter((0.5, 1.0, 1.0))
                s._compute_s = lambda *a, **k: next(it)
            for _ in range(2):
                x = step(x, 0.5)
                x = x[0] if adaptive else x
            out.append(np.array(x))
            if any(len(a) != k or t != tt for a, k, t, tt in lists):
                return "lists of an earlier run changed", None
            return None, out

        m, a = go(build(solver, variant, L, nl, etd), held)
        if m:
            return f"{solver}/{variant} ({mode}): {m}"
        m, b = go(build(solver, variant, L0, nl_copy, etd), [])
        for w, x, y in held + [("array returned by the nonlinear function", p, q) for p, q in given]:
            if far(x, y, 0):
                return f"{solver}/{variant} ({mode}): {w} changed from {y} to {x}"
        if m or len(a) != len(b) or any(far(x, y, 1e-12) for x, y in zip(a, b)):
            return f"{solver}/{variant} ({mode}): results differ from those with a copying nonlinear function"

    m = _enumerate(run)
    return hit(m) if m else 0


# ---------------------------------------------------------------- configuration and construction
RANGES = {
    "SolverConfig": {"epsilon": (1e-4, lambda v: v > 0), "incr_f": (1.25, lambda v: v > 1), "decr_f": (0.85, lambda v: v < 1), "safety_f": (0.8, lambda v: v <= 1), "adapt_cutoff": (0.01, lambda v: v < 1), "minh": (1e-16, lambda v: v > 0)},
    "ETDConfig": {"modecutoff": (0.01, lambda v: 0 < v <= 1), "contour_points": (32, lambda v: v >= 2), "contour_radius": (1.0, lambda v: v > 0)},
}


@handler
def config(cls, name=None, model=None):
    from rkstiff.etd import ETDConfig
    from rkstiff.solveras import SolverConfig

    K = {"SolverConfig": SolverConfig, "ETDConfig": ETDConfig}[cls]
    R = RANGES[cls]
    inf, nan = float("inf"), float("nan")
    tiny, below, above = 5e-324, np.nextafter(1.0, 0.0), np.nextafter(1.0, 2.0)
    vals = [0.0, -0.0, tiny, -tiny, 1e-300, 1e-8, 0.3, 0.5, float(below), 1.0, float(above), 1.5, 2.0, 50.0, 1e300, inf, -inf, nan, -0.3, -1.0, -2.5, -1e300]
    ints = [-7, -1, 0, 1, 2, 3, 32, 33, 10**6]
    for k, v in (model or {}).items():
        try:
            if float(v) not in vals:
                vals.append(float(v))
                if float(v).is_integer():
                    ints.append(int(v))
        except (TypeError, ValueError):
            pass
    read = lambda o: {k: getattr(o, k) for k in R}
    same = lambda a, b: all((a[k] == b[k] and math.copysign(1, a[k]) == math.copysign(1, b[k])) for k in R)
    dflt = {k: R[k][0] for k in R}
    if read(K()) != dflt:
        return hit(f"{cls} defaults are {read(K())}, documented {dflt}")
    for k in R:
        ok = R[k][1]
        if k == "contour_points":
            cand = [(v, "ok" if ok(v) else "ValueError") for v in ints] + [(v, "TypeError") for v in vals]
        else:
            cand = [(v, "ok" if ok(v) else "ValueError") for v in vals + ints]
        cand += [(v, "refused") for v in ("0.5", None, [0.5], 0.5j, {})]
        for good in [None] + [v for v, w in cand if w == "ok"][:3]:
            for v, want in cand:
                for how in ("assignment", "construction"):
                    o = K()
                    if good is not None:
                        setattr(o, k, good)
                    before = read(o)
                    try:
                        if how == "assignment":
                            setattr(o, k, v)
                        else:
                            o2 = K(**{k: v})
                            o, before = o2, dict(dflt)
                        got = "ok"
                    except Exception as e:
                        got = type(e).__name__
                    exp = {**before, k: v} if got == "ok" else before
                    if not (got == want or (want == "refused" and got in ("TypeError", "ValueError"))):
                        return hit(f"{cls}.{k} = {v!r} at {how}: {got}, documented {want}")
                    if got != "ok" and how == "construction":
                        continue
                    if not same(read(o), exp):
                        return hit(f"{cls}.{k} = {v!r} at {how} ({got}): values are {read(o)}, expected {exp}")
    # together
    goods = {k: [v for v in (ints if k == "contour_points" else vals) if R[k][1](v)][:6] for k in R}
    for i in range(6):
        v = {k: g[(i + j) % len(g)] for j, (k, g) in enumerate(goods.items())}
        o = K(**v)
        if not same(read(o), v):
            return hit(f"{cls}({v}) reads back {read(o)}")
        for k in R:
            bad = 1 if k == "contour_points" else nan
            try:
                K(**{**v, k: bad})
                return hit(f"{cls} accepts {k}={bad} with {v}")
            except ValueError:
                pass
            # assignments one after the other on the same object
            old = read(o)
            try:
                setattr(o, k, bad)
            except ValueError:
                pass
            if not same(read(o), old):
                return hit(f"{cls}: refused {k}={bad} changed {old} to {read(o)}")
    return 0


@handler
def shapes(solver, model=None):
    import importlib
    import itertools

    if solver == "base":
        from rkstiff.solvercs import BaseSolverCS
        from rkstiff.solveras import BaseSolverAS

        ns = {"_reset": lambda s: None, "_update_stages": lambda s, u, h: u, "_q": lambda s: 4}
        classes = [("CS", type("StubCS", (BaseSolverCS,), ns)), ("AS", type("StubAS", (BaseSolverAS,), ns))]
    else:
        classes = [(solver, getattr(importlib.import_module("rkstiff." + CLSMOD[solver]), solver))]
    m = model or {}
    dims = sorted({1, 2, 3, 4} | {int(v) for k, v in m.items() if k[:1] == "d" and k[1:].isdigit() and 0 < int(v) < 200})
    for nm, K in classes:
        for r in range(5):
            for sh in itertools.product(dims if r < 4 else (1, 2), repeat=r):
                ok = len(sh) == 1 or (len(sh) == 2 and sh[0] == sh[1] and nm != "IF45DP")
                try:
                    K(-np.ones(sh) * 0.5 if r != 2 else -0.5 * np.eye(*sh), lambda x: x, loglevel="CRITICAL")
                    got = True
                except ValueError:
                    got = False
                except Exception as e:
                    return hit(f"{nm} with an operator of shape {sh} raised {e!r}")
                if got != ok:
                    return hit(f"{nm} {'accepts' if got else 'refuses'} an operator of shape {sh}")
    return 0


@handler
def condition(solver, model=None):
    def made(M):
        try:
            build(solver, "eig", M, lambda x: x)
            return True
        except ValueError:
            return False
        except Exception as e:
            return repr(e)

    rot = lambda t: np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    conds = [1.0, 10.0, 1e3, 1e6, 1e9, 1e12, 1e14, 9e14, 2e16, 1e17, 1e20]
    c0 = mval(model or {}, "cond", None)
    if c0 is not None and 1 <= c0 < 1e30 and not 9e14 < c0 < 2e16:
        conds.append(c0)
    for cond in conds:
        for sc in (1.0, 1e-3, 1e5):
            M = np.diag([-sc, -sc / cond])
            g = made(M)
            if g is not (cond < 1e16):
                return hit(f"{solver}: diagonalize with condition number {cond:g} (scale {sc:g}): {g if isinstance(g, str) else 'accepted' if g else 'refused'}")
    for w, M in (("zero", np.zeros((2, 2))), ("singular", np.array([[1.0, 2.0], [2.0, 4.0]])), ("one zero row", np.array([[1.0, 2.0], [0.0, 0.0]])), ("3x3 singular", np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 9.0], [7.0, 8.0, 15.0]]) * np.array([1, 1, 1.0]))):
        if w == "3x3 singular" and np.linalg.cond(M) < 2e16:
            continue
        g = made(M)
        if g is not False:
            return hit(f"{solver}: diagonalize with a {w} operator {'accepted' if g is True else g}")
    return 0


@handler
def flat(solver, model=None):
    for L in (np.array([-2.0, -3.0]), np.array([0.0, -5.0 + 1j]), np.array([-0.001, 4.0])):
        for h in (0.5, 0.01):
            u = np.array([0.7 - 0.2j, 0.4 + 0.5j])
            a = attempt(build(solver, "diag", L, _quad), solver, u, h)
            b = attempt(build(solver, "eig", L, _quad), solver, u, h)
            for x, y in zip(a, b):
                if x is not None and far(x, y, 1e-13):
                    return hit(f"{solver}: diagonalize=True with the 1-D operator {L} gives {y} instead of {x}")
    return 0


@handler
def kinds(model=None):
    import importlib
    from rkstiff.util.solver_type import SolverType as T
    from rkstiff.solver import BaseSolver

    if T.CONSTANT_STEP is T.ADAPTIVE_STEP or T.CS is not T.CONSTANT_STEP or T.AS is not T.ADAPTIVE_STEP:
        return hit("solver kinds and aliases are mixed up")
    for n in CLSMOD:
        K = getattr(importlib.import_module("rkstiff." + CLSMOD[n]), n)
        s = K(np.array([-1.0, -2.0]), lambda x: x, loglevel="CRITICAL")
        want = T.CONSTANT_STEP if n in CS else T.ADAPTIVE_STEP
        if s.solver_type is not want or T.from_solver(s) is not want:
            return hit(f"{n} reports {s.solver_type}, from_solver {T.from_solver(s)}")
        rng = np.random.default_rng(3)
        for rep in range(40):
            s = K(np.array([-1.0, -2.0]), lambda x: x, loglevel=("CRITICAL", "DEBUG")[rep % 2])
            s.logger.disabled = True
            if n not in CS:
                ch = lambda *xs: float(xs[rng.integers(len(xs))])
                s.config.epsilon = ch(1e-300, 1e-12, 1e-4, 1.0, 1e6)
                s.config.incr_f = ch(1.0 + 1e-12, 1.25, 1e3)
                s.config.decr_f = ch(-1.0, 0.0, 0.1, 0.85, 1 - 1e-12)
                s.config.safety_f = ch(-1.0, 0.0, 1e-9, 0.8, 1.0)
                s.config.adapt_cutoff = ch(-1.0, 0.0, 0.01, 1 - 1e-12)
                s.config.minh = ch(1e-300, 1e-16, 1.0, 1e3)
            for act in ("built", "step", "reset"):
                if act == "step":
                    try:
                        s.step(np.array([1.0, 0.5 + 0.1j]), 0.5)
                    except RuntimeError:
                        pass
                elif act == "reset":
                    s.reset()
                if s.solver_type is not want or T.from_solver(s) is not want:
                    return hit(f"{n} ({act}, {vars(s.config) if n not in CS else ''}) reports {s.solver_type}, from_solver {T.from_solver(s)}")
        try:
            T.from_solver(K)
            return hit("a class is reported as a solver")
        except TypeError:
            pass
    for x in (None, 1, "ETD4", object(), np.zeros(2), BaseSolver):
        try:
            T.from_solver(x)
            return hit(f"{x!r} is reported as a solver")
        except TypeError:
            pass
    return 0


# ---------------------------------------------------------------- logging, number kinds
LEVELS = ("debug", "INFO", "Warning", 10, 15, 1, 0, 60)


def _quiet_loggers():
    import logging

    for n in CLSMOD:
        lg = logging.getLogger("rkstiff." + n)
        if not lg.handlers:
            lg.addHandler(logging.NullHandler())
        lg.propagate = False


@handler
def log_evolve(kind, n, store, model=None):
    import importlib

    _quiet_loggers()
    name = "IF34" if kind == "AS" else "IF4"
    K = getattr(importlib.import_module("rkstiff." + CLSMOD[name]), name)
    m = model or {}
    hs = {1.0, 0.5, 0.0078125, 1e-5, mval(m, "hi", 1.0)}
    for h in hs:
        span = (n - 0.5) * h
        k100 = [100 * h * j for j in range(1, n // 100 + 1)]
        starts = {0.0, -span, 1.0, -1.0, -h, mval(m, "t0", 0.0), -100.0 * h, -(n - 1) * h, -n * h} | {-x for x in k100} | {x for x in k100}
        for t0 in starts:
            for tf, g in {(t0 + span, 1.0), (t0 + (n - 1) * h + h, 1.0), (t0 + span, 2.0), (t0 + span, 0.5)}:
                for lv in LEVELS[::2] if g != 1.0 else LEVELS:
                    out = []
                    for l in (60, lv):
                        s = K(np.array([-1.0, -2.0]), lambda x: x, loglevel=l)
                        calls = []

                        def step(u, hh):
                            calls.append((Tok.of(u), hh))
                            if len(calls) > n + 8:
                                raise RuntimeError("too many steps")
                            x = Tok("s", len(calls))
                            return (x, hh, h if len(calls) % 100 else g * h) if kind == "AS" else x

                        s.step = step
                        try:
                            r = Tok.of(s.evolve(Tok("u0"), t0, tf, h, store_data=store, store_freq=50))
                            out.append((calls, r, list(s.t), list(map(Tok.of, s.u))))
                        except Exception as e:
                            out.append(repr(e))
                    if out[0] != out[1] or isinstance(out[1], str):
                        d = out[1] if isinstance(out[1], str) else out[0] if isinstance(out[0], str) else "different results"
                        return hit(f"{name}.evolve from {t0} to {tf} with h={h} at level {lv!r}: {d}")
    return 0


@handler
def log_step(limit, model=None):
    import itertools

    _quiet_loggers()
    nan, inf = float("nan"), float("inf")
    m = model or {}
    vals = [0.0, -1.0, 0.1, 0.5, 0.9, 1.0, 1.2, 2.0, 9.0, nan, inf, -inf]
    for k in m:
        if k[:1] == "s" and k[1:].isdigit():
            vals.append(mval(m, k, 0.5))
    for seq in itertools.product(vals, repeat=limit + 1):
        for h0, minh in ((1.0, 1e-16), (0.0, 1e-16), (mval(m, "h", 1.0), mval(m, "minh", 1e-3))):
            for lv in LEVELS:
                out = []
                for l in (60, lv):
                    s = lin2("IF34")
                    s.set_loglevel(l)
                    s.MAX_LOOPS = limit
                    s.config.minh = minh
                    tries, it = [], iter(list(seq) + [0.5] * 10)

                    def stages(u, hh, *_, **__):
                        tries.append(hh)
                        return Tok("un"), Tok("err")

                    s._update_stages, s._compute_s = stages, lambda *a, **k: next(it)
                    try:
                        r = s.step(Tok("u0"), h0)
                        r = (Tok.of(r[0]), *r[1:])
                    except s.SolverError as e:
                        r = type(e).__name__
                    except Exception as e:
                        return hit(f"step with factors {seq} h={h0} at level {l!r}: {e!r}")
                    out.append((tries, r, s._accept))
                if out[0] != out[1]:
                    return hit(f"step with factors {seq} h={h0} at level {lv!r}: {out[1]} instead of {out[0]}")
    return 0


@handler
def log_steps(solver, variant, model=None):
    _quiet_loggers()
    L, etd = _fixed_problem(variant)
    for lv in LEVELS:
        for late in (False, True):
            out = []
            for l in (60, lv):
                kw = dict(loglevel=60 if late else l)
                try:
                    s = _build_level(solver, variant, L, etd, **kw)
                    x, res = np.array([0.7 - 0.2j, 0.4 + 0.5j]), []
                    for i, h in enumerate((0.5, 0.25)):
                        if late and i == 1:
                            s.set_loglevel(l)
                        x, h1, h2, errs = drive_all(s, solver, x, h, (1.5,) if i else (0.5, 1.0))
                        res += [np.array(x), np.array([h1, h2])] + errs
                    out.append(res)
                except Exception as e:
                    return hit(f"{solver}/{variant} at level {l!r}: {e!r}")
            if len(out[0]) != len(out[1]) or any(far(a, b, 1e-14) for a, b in zip(*out)):
                return hit(f"{solver}/{variant} at level {lv!r}: results differ from those with logging off")
    return 0


def _build_level(solver, variant, L, etd, loglevel):
    import importlib

    K = getattr(importlib.import_module("rkstiff." + CLSMOD[solver]), solver)
    kw = {}
    if solver in ETD:
        from rkstiff.etd import ETDConfig

        kw["etd_config"] = ETDConfig(**etd)
    if variant == "eig":
        kw["diagonalize"] = True
    return K(L, _quad, loglevel=loglevel, **kw)


def drive_all(s, solver, u, h, svals):
    if solver in CS:
        return s.step(u, h), h, h, []
    errs, it = [], iter(svals)

    def scripted(u_, e_):
        errs.append(np.array(e_))
        return next(it)

    s._compute_s = scripted
    un, h1, h2 = s.step(u, h)
    return un, h1, h2, errs


@handler
def kinds_io(solver, variant, model=None):
    KD = {"i": np.int64, "f": np.float64, "c": np.complex128}
    L = np.array([0, -1, -3]) if variant == "diag" else np.array([[-1, 1], [0, -3]])
    n = L.shape[0]
    etd = dict(contour_points=4, modecutoff=0.3)
    us = {"i": np.array([2, -3, 5])[:n], "f": np.array([0.7, -1.3, 0.4])[:n], "c": np.array([0.7 - 0.2j, 0.4 + 0.5j, -0.3 + 1.1j])[:n]}

    def N(x, k):
        y = np.array([x[1] * x[0], x[0] ** 2 - 0.5 * x[-1], x[0] + x[1]])[:n]
        if k == "c":
            return y + 1j * np.arange(1, n + 1)
        return np.real(y) if k == "f" else np.rint(np.tanh(np.real(y)) * 4 + 0.2137)

    for ku in "ifc":
        for kl in "ifc":
            for kn in "ifc":
                out = []
                for a, b, d in ((ku, kl, kn), ("c", "c", "c")):
                    nl = lambda x, d=d: N(x, kn).astype(KD[d])
                    try:
                        s = build(solver, variant, L.astype(KD[b]), nl, etd)
                        x, res = us[ku].astype(KD[a]), []
                        for i, h in enumerate((0.5, 0.25)):
                            x, h1, h2, errs = drive_all(s, solver, x, h, (1.5,) if i else (0.5, 1.0))
                            res += [np.array(x), np.array([h1, h2])] + errs
                        out.append(res)
                    except Exception as e:
                        return hit(f"{solver}/{variant} with state {a}, operator {b}, nonlinear values {d}: {e!r}")
                if len(out[0]) != len(out[1]) or any(far(p, q, 1e-11) for p, q in zip(*out)):
                    return hit(f"{solver}/{variant} with state {ku}, operator {kl}, nonlinear values {kn}: {out[0][0]} instead of {out[1][0]}")
    return 0


# ---------------------------------------------------------------- symmetries
def apart(what, x, y, tol=1e-8):
    """x differs from y; estimates also count when they are small"""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return True
    if not np.all(np.isfinite(y)) or (y.size and np.max(np.abs(y)) > 1e8):
        return False
    return far(x, y, tol) or ("estimate" in what and np.max(np.abs(x - y)) > tol * (np.max(np.abs(y)) + 1e-5))


@handler
def many_modes(solver, variant, n, kind, model=None):
    from problems import blocks_of, block_matrix, spectrum

    B = blocks_of(n, variant)
    if variant == "diag":
        L = np.array(spectrum(n, kind))
        L = L.real.copy() if kind == "f" else L
        parts = [L[b] for b in B]
    else:
        L = block_matrix(n, B, kind)
        parts = [L[np.ix_(b, b)] for b in B]
    i = np.arange(n)
    u0 = np.exp(0.7j * i) * (0.5 + 0.3 * np.cos(i))

    def piece(q, x):
        k = np.arange(1, len(x) + 1)
        return (0.4 * x * x[::-1] - 0.3 * k + 0.05j * (q % 7) + 0.2 * x) / (1 + np.sum(np.abs(x) ** 2))

    def N(x):
        out = np.empty(n, dtype=complex)
        for q, b in enumerate(B):
            out[b] = piece(q, x[b])
        return out

    def run(Lop, Nf, idx):
        s = build(solver, variant, Lop, Nf, {"modecutoff": 0.01, "contour_points": 32})
        out = []
        x, h1, e = drive(s, solver, u0[idx], 0.1, (0.5, 1.0) if solver not in CS else (1.0,))
        out += [("state", x)] + [("estimate", v) for v in e]
        for h2 in (h1, 0.04):
            x, _, e = drive(s, solver, x.copy(), h2)
            out += [("state", x)] + [("estimate", v) for v in e]
        return out

    whole = run(L, N, i)
    for q, b in enumerate(B):
        alone = run(parts[q], lambda x: piece(q, x), b)
        for k, ((what, w), (_, a)) in enumerate(zip(whole, alone)):
            if len(w) != n:
                return hit(f"{solver}/{variant}: result {k} has {len(w)} entries instead of {n}")
            if apart(what, w[b], a):
                return hit(f"{solver}/{variant}: {n} unknowns, result {k} ({what}) of unknowns {b}: {w[b]}, alone {a}")
    return 0


def samples(variant, model=None):
    pts = [(0.3, [-1.0, 0.5 + 1j]), (0.05, [-3.0, 2j]), (0.01, [-0.3, 0.2 + 0.4j]), (0.5, [-0.7 + 0.4j, 0.3 - 0.6j])]
    if variant != "full":
        pts += [(0.7, [-40.0, 2j]), (0.11, [5.0, -3 + 1j])]
    return pts + [(0.1, [-x, -1.0]) for x in (2e-2, 2e-3, 9e-4, 2e-5, 3e-7, 1e-9)] + [(0.1, [1.0, 1j * x]) for x in (2e-3, 9e-4, 2e-5)] + mpoint(model, variant)


@handler
def change(solver, variant, change, model=None):
    for h, lam in samples(variant, model):
        for tau in {"time": (0.25, 3.0, 1e-9, 1e9), "scale": (1.0, 1e-20, 1e15)}.get(change, (1.0,)):
            L, _ = op(variant, lam)
            D = np.eye(2)
            f = tau if change == "time" else 1.0
            if change == "scale":
                D = np.diag([2.0, 0.5j + 0.3]) * tau
            if change == "order":
                D = D[::-1]
            cj = np.conj if change == "conj" else (lambda x: x)
            LB = cj(L[::-1] if change == "order" else L) * f if L.ndim == 1 else cj(D @ L @ np.linalg.inv(D)) * f
            N, _ = generic_nl(np.eye(2), bounded=True)
            NB = lambda y: cj(f * (D @ N(cj(np.linalg.solve(D, y)) if change != "conj" else np.conj(y))))
            u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
            cfg = {"contour_points": 64, "contour_radius": 2.0}
            a, b = build(solver, variant, L, N, cfg), build(solver, variant, LB, NB, cfg)
            script = (0.5, 1.0) if solver not in CS else (1.0,)
            to = lambda v: cj(D @ v)
            x, hx, ea = drive(a, solver, u, h, script)
            y, hy, eb = drive(b, solver, to(u), h / f, script)
            x2, _, ea2 = drive(a, solver, x.copy(), hx)
            y2, _, eb2 = drive(b, solver, y.copy(), hy)
            for what, p, q in [("state", x, y), ("second state", x2, y2)] + [("estimate", p, q) for p, q in zip(ea + ea2, eb + eb2)]:
                if apart(what, p, np.linalg.solve(D, cj(q))):
                    return hit(f"{solver}/{variant}: {what} after a change of {change} {q}, expected {to(p)} (h={h}, lam={lam})")
    return 0


@handler
def functional(solver, variant, zero, model=None):
    for h, lam in samples(variant, model):
        for mu in (0.0,) if zero else (lam[0],):
            lm = [mu, lam[1]]
            if variant == "full":
                w = np.array([1.0, 0.6 - 0.3j])
                a, b = 0.4 + 0.2j, -0.8
                L = np.array([[mu - w[1] * a, mu * w[1] - w[1] * b], [a, b]])
                d = np.array([-w[1], 1.0])
            else:
                L, Sm = op(variant, lm)
                w, d = np.linalg.inv(Sm)[0], Sm[:, 1]
            N = lambda x: d * (0.4 * x[0] * x[1] - 0.3 + 0.2j * x[1] ** 2) / (1 + np.sum(np.abs(x) ** 2))
            s = build(solver, variant, L, N, {"contour_points": 64, "contour_radius": 2.0})
            u = np.array([0.7 - 0.2j, -0.4 + 1.1j])
            x, hx, e = drive(s, solver, u, h, (0.5, 1.0) if solver not in CS else (1.0,))
            y, _, e2 = drive(s, solver, x.copy(), h)
            for what, v, t in (("state", x, hx), ("second state", y, hx + h)):
                ex = np.exp(mu * t) * (w @ u)
                if far(w @ v, ex, 1e-9 if variant == "full" else 1e-11):
                    return hit(f"{solver}/{variant}: linear functional {w} of rate {mu}: {what} {w @ v}, expected {ex} (h={h}, lam={lam})")
            if any(abs(w @ v) > 1e-9 * (1 + np.max(np.abs(v))) for v in e + e2):
                return hit(f"{solver}/{variant}: nonzero error estimate of a linear functional of rate {mu}")
    return 0


# ---------------------------------------------------------------- ill-formed input
def judged(lab, f, want):
    """want: expected shape or exception classes"""
    try:
        r = f()
    except Exception as e:
        if isinstance(want, tuple) and want and isinstance(want[0], type):
            return None if isinstance(e, want) else f"{lab} raised {e!r}"
        return f"{lab} raised {e!r}"
    if isinstance(want, tuple) and want and isinstance(want[0], type):
        return f"{lab} accepted"
    return None if np.shape(r) == want else f"{lab} gives shape {np.shape(r)}"


def _free(shape, z=False):
    k = np.arange(1.0, 1.0 + int(np.prod(shape))).reshape(shape)
    return np.sin(k) + (1j * np.cos(k) if z else 0)


@handler
def fourier_shapes(n, real, model=None):
    from rkstiff import derivatives

    nm = "rfft" if real else "fft"
    f = getattr(derivatives, "dx_" + nm)
    m = n // 2 + 1 if real else n
    u, kx = _free((n,)), _free((m,))
    L = [(f"order {o}", lambda o=o: f(kx, u, o), (ValueError,)) for o in range(-6, 0)] + [(f"order {o!r}", lambda o=o: f(kx, u, o), (TypeError,)) for o in (1.0, "1", None, 2.5)]
    for sh in [(k,) for k in range(n + 3)] + [(), (1, m), (m, 1), (1, 1)]:
        if sh == (m,) and n == 1 and real:
            continue
        L += [(f"wavenumbers of shape {sh}, order {o}", lambda sh=sh, o=o: f(_free(sh), u, o), (n,) if sh == (m,) else (ValueError,)) for o in (1, 2, 3)]
    if real:
        L += [(f"complex input, order {o}", lambda o=o: f(kx, _free((n,), True), o), (TypeError,)) for o in (0, 1, 2)]
    for lab, g, want in L:
        r = judged(f"dx_{nm} of {n} points, {lab}", g, want)
        if r:
            return hit(r)
    return 0


@handler
def cheb_shapes(n, model=None):
    import itertools
    from rkstiff import derivatives

    f = derivatives.dx_cheb
    D = _free((n, n))
    L = []
    for sh in ((n,), (n, 2)):
        L += [(f"order {o}, input {sh}", lambda sh=sh, o=o: f(D, _free(sh), o), (ValueError,)) for o in range(-6, 0)]
        L += [(f"order {o!r}, input {sh}", lambda sh=sh, o=o: f(D, _free(sh), o), (TypeError,)) for o in (1.0, "1", None, 2.5)]
    for p, q in itertools.product(range(1, n + 2), repeat=2):
        for sh in [(n,), (n, 1), (n, 2), (n, n)]:
            for o in (1, 2, 3):
                L.append((f"matrix {(p, q)}, input {sh}, order {o}", lambda p=p, q=q, sh=sh, o=o: f(_free((p, q)), _free(sh), o), sh if p == q == n else (ValueError,)))
    for sh in ((), (n, 1, 1), (n, 2, 2), (1, n, 1)):
        L += [(f"input of shape {sh}, order {o}", lambda sh=sh, o=o: f(D, _free(sh), o), (ValueError,)) for o in (1, 2)]
    for lab, g, want in L:
        r = judged(f"dx_cheb, {lab}", g, want)
        if r:
            return hit(r)
    return 0


@handler
def soliton_lengths(model=None):
    import itertools
    from rkstiff import models

    for p, q in itertools.product(range(6), repeat=2):
        if p or q:
            r = judged(f"kdv_multi_soliton with {p} amplitudes and {q} positions", lambda: models.kdv_multi_soliton(_free((3,)), list(_free((p,))), list(_free((q,))), 0.3), (3,) if p == q else (ValueError,))
            if r:
                return hit(r)
    return 0
