"""Building solvers of the real package over symbolic operators."""
from __future__ import annotations
from fractions import Fraction
import re
import numpy as np
from . import poly as P, symarr as S, shim
from .poly import Poly
from .common import arr, mat, hsym, elems

CS = ("ETD4", "ETD5", "IF4")
AS = ("ETD34", "ETD35", "IF34", "IF45DP")
ORDER = {"ETD4": 4, "IF4": 4, "ETD5": 5, "ETD34": 4, "ETD35": 5, "IF34": 4, "IF45DP": 5}
ERRPOW = {"ETD34": 4, "ETD35": 4, "IF34": 4, "IF45DP": 5}  # leading power of h in the error estimate
ETD = ("ETD4", "ETD5", "ETD34", "ETD35")
CLS = {n: n.lower() for n in CS + AS}
VARIANTS = [(n, v) for n in CS for v in ("diag", "full")] + [(n, v) for n in ("ETD34", "ETD35", "IF34") for v in ("diag", "full", "eig")] + [("IF45DP", "diag")]


def cls(pk, name):
    return getattr(getattr(pk, CLS[name]), name)


def make(pk, name, variant, L, nl, etd=None, cfg=None, **kw):
    """L: 1-D array for 'diag', 2-D otherwise"""
    if name in ETD and etd is not None:
        kw["etd_config"] = pk.etd.ETDConfig(**etd)
    if name in AS and cfg is not None:
        kw["config"] = pk.solveras.SolverConfig(**cfg)
    if variant == "eig":
        kw["diagonalize"] = True
    if type(L) is np.ndarray and L.dtype != object:
        L = S.force_sym(L)  # every array the solver sees carries its dtype
    return cls(pk, name)(L, nl, **kw)


def funcs(name, variant):
    c = {"diag": "Diagonal", "full": "NonDiagonal", "eig": "Diagonalized"}[variant]
    m = CLS[name]
    if name == "IF45DP":
        return [f"rkstiff.{m}.IF45DP.{f}" for f in ("__init__", "_update_coeffs", "_update_stages")]
    return [f"rkstiff.{m}.{name}.{f}" for f in ("__init__", "_update_coeffs", "_update_stages")] + [f"rkstiff.{m}.*{c}.{f}" for f in ("__init__", "update_coeffs", "n1_init", "update_stages")]


def one_step(s, name, u, h):
    """(new state, error estimate or None) of one attempted step"""
    if name in CS:
        return s.step(u, h), None
    return s._update_stages(u, h)


def public_step(s, name, u, h, svals=(1.0,)):
    """one call of the public step(); for adaptive solvers the controller's verdicts are scripted:
    svals < 1 reject (and shrink), >= 1 accept.  -> (state, step taken, suggested next, error estimates)"""
    if name in CS:
        return s.step(u, h), h, h, []
    errs = []
    it = iter(svals)

    def scripted(u_, err_, *_, **__):
        errs.append(elems(err_))
        return next(it)

    s._compute_s = scripted
    un, h1, h2 = s.step(u, h)
    return un, h1, h2, errs


class Tokens:
    """states passed through control code: real (symbolic) arrays that can be told apart by value"""

    def __init__(self, c):
        self.c, self.ids = c, {}

    def __call__(self, *w):
        w = w[0] if len(w) == 1 else w
        a = self.c.sym("st_" + re.sub(r"\W+", "_", str(w)), real=False)
        self.ids[Poly.lift(a).key()] = w
        return arr([a], "c")

    def of(self, x):
        try:
            e = elems(x)
            return self.ids.get(Poly.lift(e[0]).key(), "unknown state") if len(e) == 1 else "unknown state"
        except Exception:
            return repr(x)[:40]


def parse_tree(s):
    """'[t[t]]' style rooted trees -> list of children lists (node 0 = root)"""
    nodes = []

    def rec(i):
        me = len(nodes)
        nodes.append([])
        assert s[i] == "("
        i += 1
        while s[i] != ")":
            ch, i = rec(i)
            nodes[me].append(ch)
        return me, i + 1

    rec(0)
    return nodes


TREES = {
    1: ["()"],
    2: ["(())"],
    3: ["((()))", "(()())"],
    4: ["(((())))", "((()()))", "((())())", "(()()())"],
    5: ["((((()))))", "(((()())))", "(((())()))", "((()()()))", "(((()))())", "((()())())", "((())(()))", "((())()())", "(()()()())"],
}


def tree_rhs(nodes, consts):
    """N_v(u) = c_v + prod over children of u_child (leaf: c_v + 1)"""

    def N(xs):
        out = []
        for v, ch in enumerate(nodes):
            p = Poly.const(1)
            for c in ch:
                p = p * xs[c]
            out.append(p + consts[v])
        return out

    return N


def taylor(ctx, L, N, u0, order):
    """exact solution of u' = L u + N(u) as series in h (Picard iteration), L list (diag) or matrix rows"""
    h = hsym()
    n = len(u0)
    saveT, ctx.T = ctx.T, order
    try:
        u = list(u0)
        for _ in range(order + 1):
            nl = N(u)
            new = []
            for i in range(n):
                if isinstance(L[i], (list, tuple)):
                    f = nl[i]
                    for j in range(n):
                        if isinstance(L[i][j], Poly) or L[i][j] != 0:
                            f = f + u[j] * L[i][j]
                else:
                    f = u[i] * L[i] + nl[i]
                f = Poly.lift(f)
                acc = Poly({})
                for m, c in f.t.items():
                    k = P.h_exp(m)
                    if k < order:
                        acc = acc + Poly({m: P.c_mul(c, Fraction(1, k + 1))}) * h
                new.append(u0[i] + acc)
            u = new
        return u
    finally:
        ctx.T = saveT
