"""P01 order of constant-step methods, P02 order of adaptive methods, P03 order of the error estimate."""
from fractions import Fraction
import json, os
import numpy as np
from lib import poly as P, symarr as S, shim, explore
from lib.poly import Poly
from lib.common import *
from lib.methods import *


def tree_case(chk, pk_unused, name, variant, tree, regime, p, errpow, etd=None, mode="diag"):
    """one symbolic step on the tree system; Taylor coefficients up to h^p must match the exact flow"""
    nodes = parse_tree(tree)
    n = len(nodes)
    T = p + 3 if (name in ETD and regime == "large") else p
    T = max(T, (errpow or 0) + (3 if name in ETD and regime == "large" else 0))
    pk = shim.fresh()
    replay = ("order", dict(solver=name, variant=variant, tree=tree, regime=regime, p=p, errpow=errpow, etd=etd or {}))
    fin, allres = load_residuals(chk, name)
    res = allres.get(variant, {}).get(tree, {})
    if res:
        replay[1]["known"] = res
    hit = 0

    def fn(c):
        h = hsym()
        lam = [c.sym(f"lam{i}") for i in range(n)]
        u0 = [c.sym(f"u{i}") for i in range(n)]
        cst = [c.sym(f"c{i}") for i in range(n)]
        cut = Poly.const((etd or {}).get("modecutoff", 0.01))
        if name in ETD and variant == "diag":
            for l in lam:
                a = abs(h * l)
                c.pc.append((">=" if regime == "large" else "<", a - cut))
        N = tree_rhs(nodes, cst)
        if variant == "diag":
            Lrows = lam
            L = arr(lam)
        else:
            # fixed coupling plus symbolic diagonal
            Lrows = full_rows(lam[:n], n)
            L = mat(Lrows, "c")
        s = make(pk, name, variant, L, lambda x: arr(N(elems(x)), "c"), etd)
        u1, err = one_step(s, name, arr(u0, "c"), h)
        return lam, u0, Lrows, N, elems(u1), (elems(err) if err is not None else None)

    for c, r, e in chk.paths(fn, T, 8):
        lab = f"{name}/{variant}/{regime}/{tree}"
        if e is not None:
            chk.path_fails(lab + ": step raised " + repr(e), c, replay, repr(e))
            continue
        hit += 1
        lam, u0, Lrows, N, u1, err = r
        ex = taylor(c, Lrows, N, [Poly.lift(x) for x in u0], p)
        for i in range(n):
            for k in range(min(0, _minh(u1[i])), p + 1):
                got, want = Poly.lift(u1[i]).hcoef(k), ex[i].hcoef(k)
                if k == 5 and str(i) in res:
                    if not _close(got, want) and _close(got, want + residual_poly(c, res[str(i)])):
                        chk.known_hit.append(fin["what"])
                        want = want + residual_poly(c, res[str(i)])
                chk.equal(f"{lab}: solution component {i} h^{k}", c, got, want, replay)
        if err is not None and errpow:
            nonzero = False
            for i in range(n):
                ei = Poly.lift(err[i])
                for k in range(min(0, _minh(ei)), errpow):
                    chk.equal(f"{lab}: error-estimate component {i} h^{k}", c, ei.hcoef(k), Poly({}), replay)
                lead = ei.hcoef(errpow)
                if any(abs(P.c_num(x)) > 1e-6 for x in lead.t.values()):
                    nonzero = True
            chk.err_nonzero = chk.err_nonzero or nonzero
        chk.reachable(lab, c)
    if not hit:
        chk.reach_failed.append(f"{name}/{variant}/{regime}/{tree}")


def load_residuals(chk, name):
    for k in chk.known["findings"]:
        if k["property"] == chk.pid and name in k.get("solvers", ()):
            return k, json.load(open(os.path.join(VERIF, k["residual"])))
    return None, {}


def residual_poly(c, terms):
    by = {a.name: a.id for a in c.atoms}
    t = {}
    for m, (p, q) in terms.items():
        fs = tuple(sorted((by[f.partition("^")[0]], int(f.partition("^")[2] or 1)) for f in m.split("*") if f))
        t[fs] = Fraction(p, q)
    return Poly(t)


def _minh(p):
    p = Poly.lift(p)
    return int(min([P.h_exp(m) for m in p.t] + [0]))


def _close(a, b):
    return all(abs(P.c_num(x)) < 1e-9 for x in (a - b).t.values())


def full_rows(lam, n):
    rows = []
    for i in range(n):
        rows.append([lam[i] if i == j else Fraction((3 * i + 5 * j + 1) % 4 - 1) for j in range(n)])
    return rows


ETDC = {"modecutoff": 0.01, "contour_points": 16, "contour_radius": 1.0}


def run(chk, names, errors):
    chk.err_nonzero = False
    for name in names:
        p = ORDER[name]
        chk.err_nonzero = False
        if errors:
            q = make(shim.fresh(), name, "diag", np.array([-1.0, -2.0]), lambda x: x)._q()
            chk.holds(f"{name}: the controller exponent {q} is the order {ERRPOW[name]} of the estimate", q == ERRPOW[name],
                      ("controller_q", dict(solver=name, q=ERRPOW[name])))
        ep = ERRPOW.get(name) if errors else None
        pp = p if not errors else 0
        vs = [v for n, v in VARIANTS if n == name and v != "eig"]
        for v in vs:
            chk.encoded(*funcs(name, v))
            trees = TREES[p] if not errors else TREES[ep]
            regimes = ["large", "small"] if name in ETD and v == "diag" else ["large" if v == "diag" else "contour"]
            for reg in regimes:
                ts = trees
                if v == "full":
                    ts = trees if chk.thorough else trees[-3:]
                for t in ts:
                    tree_case(chk, None, name, v, t, reg, p if not errors else (ep - 1), ep, ETDC if name in ETD else None)
        if errors and not chk.err_nonzero:
            chk.report(f"{name}: the error estimate vanishes at its own leading order (degenerate)", {}, ("order", dict(solver=name, variant="diag", tree="", regime="degenerate", p=p, errpow=ep, etd={})))


def common_notes(chk):
    chk.bound("one step, Taylor coefficients in h up to the claimed order; systems: every rooted-tree system of that order (independent elementary differentials), up to 5 modes, one free complex eigenvalue, initial value and forcing per mode")
    chk.bound("full-matrix variants: symbolic diagonal plus a fixed non-commuting coupling, contour with 16 points")
    chk.assumption("real arithmetic: floating-point rounding of the step formulas is outside the claim; float constants are read as the simplest rational that rounds to them")
    chk.assumption("order conditions on tree systems imply the order for every smooth nonlinearity (independence of elementary differentials)")


def P01(chk):
    common_notes(chk)
    run(chk, CS, False)


def P02(chk):
    common_notes(chk)
    run(chk, AS, False)


def P03(chk):
    common_notes(chk)
    run(chk, AS, True)
