"""P24 logging is transparent, P25 number kinds of the inputs."""
from fractions import Fraction
import math
import numpy as np
import z3
from lib import poly as P, symarr as S, shim, explore
from lib.poly import Poly
from lib.common import *
from lib.methods import *
from .control import choose, lin2, NAN, INF
from .steps import TolOracle

LEVELS = ("debug", "INFO", "Warning", 10, 15, 1, 0, 60)
OFF = 60


# ------------------------------------------------------------------ P24
def P24(chk):
    n = 1005 if chk.thorough else 205
    chk.encoded("rkstiff.solver.BaseSolver.__init__", "rkstiff.solver.BaseSolver.set_loglevel", "rkstiff.solveras.BaseSolverAS.evolve", "rkstiff.solveras.BaseSolverAS.step", "rkstiff.solveras.BaseSolverAS._reject_step_size", "rkstiff.solveras.BaseSolverAS._accept_step_size", "rkstiff.solvercs.BaseSolverCS.evolve", "rkstiff.solvercs.BaseSolverCS.step", *[f for nm, v in VARIANTS for f in funcs(nm, v)])
    chk.bound(f"evolutions of {n} steps with arbitrary start, end and step; single calls of step with retry limits up to 2 and arbitrary verdicts (reals, infinities, NaN); two real steps of every solver and form with an arbitrary nonlinear function")
    chk.bound(f"levels {LEVELS} against everything disabled, set at construction or between steps")
    chk.assumption("a handler that formats a message neither raises nor changes anything (the standard library reports formatting errors on stderr); what the package itself computes for a message is executed")
    chk.assumption("times are Python numbers: dividing them by zero raises")
    tasks = [(evolve_log, (kind, n, store), {}) for kind in ("AS", "CS") for store in (True, False)]
    tasks += [(step_log, (ML,), {}) for ML in (0, 2)]
    tasks += [(stages_log, (nm, v), {}) for nm, v in VARIANTS]
    chk.parallel(tasks)


def level(c, levels=LEVELS):
    return levels[choose(c, len(levels), "level")]


def evolve_log(chk, kind, n, store):
    pk = shim.fresh()
    lab = f"{kind} evolve of {n} steps store={store}"
    replay = ("log_evolve", dict(kind=kind, n=n, store=store))
    name = "IF34" if kind == "AS" else "IF4"

    def fn(c):
        lv = level(c, ("debug", "INFO", 15))
        c.zero_div = "raise"
        t0, hi, r = c.sym("t0"), c.sym("hi", pos=True), c.sym("r", pos=True)
        c.pc.append(("<=", r - hi))
        c.pc.append((">=", r - hi * Fraction(1, 10)))
        g = c.sym("g", pos=True)  # suggestion after the steps at which progress is reported
        c.pc += [(">=", g - hi * Fraction(1, 2)), ("<=", g - hi * 2)]
        tf = t0 + hi * (n - 1) + r

        def go(l):
            s = cls(pk, name)(np.array([-1.0, -2.0]), lambda x: x, loglevel=l)
            calls, T = [], Tokens(c)

            def step(u, h):
                calls.append((T.of(u), Poly.lift(h)))
                if len(calls) > n + 8:
                    raise RuntimeError("more steps than expected")
                x = T("s", len(calls))
                return (x, h, hi if len(calls) % 100 else g) if kind == "AS" else x

            s.step = step
            try:
                res = T.of(s.evolve(T("u0"), t0, tf, hi, store_data=store, store_freq=50))
            except ZeroDivisionError as e:
                return repr(e)
            return calls, res, list(s.t), [T.of(x) for x in s.u]

        return lv, go(OFF), go(lv)

    seen = set()
    for c, r, e in chk.paths(fn, None, 400):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        lv, a, b = r
        same_run(chk, f"{lab} at {lv!r}", c, a, b, replay, seen)
        chk.reachable(lab, c)


def same_run(chk, lab, c, a, b, replay, seen):
    if isinstance(a, str) or isinstance(b, str):
        chk.path_fails(f"{lab}: {b if isinstance(b, str) else a}", c, replay, str(b)[:80] if isinstance(b, str) else str(a))
        return
    if not chk.holds(f"{lab}: same result and steps", a[1] == b[1] and len(a[0]) == len(b[0]) and a[3] == b[3] and len(a[2]) == len(b[2]) and all(x[0] == y[0] for x, y in zip(a[0], b[0])), replay):
        return
    # an identity of two expressions holds on every path once discharged
    for x, y in [(p[1], q[1]) for p, q in zip(a[0], b[0])] + list(zip(a[2], b[2])):
        k = (Poly.lift(x).key(), Poly.lift(y).key())
        if k[0] != k[1] or k not in seen:
            seen.add(k)
            chk.equal(f"{lab}: same steps and times", c, x, y, replay)


def step_log(chk, ML):
    pk = shim.fresh()
    lab = f"step with retry limit {ML}"
    replay = ("log_step", dict(limit=ML))

    def fn(c):
        lv = level(c, LEVELS if ML == 0 else ("debug", "INFO", 0))
        c.zero_div = "raise"
        h = hsym()
        vs = {}

        def go(l):
            s = lin2(pk, "IF34", loglevel=l)
            s.MAX_LOOPS = ML
            minh = c.sym("minh", pos=True)
            s.config.minh = minh
            tries, T = [], Tokens(c)

            def stages(u, hh, *_, **__):
                tries.append(Poly.lift(hh))
                return T("un"), T("err")

            def factor(u, e, *_, **__):
                k = len(tries)
                if k not in vs:
                    kind = choose(c, 3, f"kind{k}")
                    vs[k] = c.sym(f"s{k}") if kind == 0 else (NAN if kind == 1 else (-INF if k % 2 else INF))
                return vs[k]

            s._update_stages, s._compute_s = stages, factor
            try:
                r = s.step(T("u0"), h)
                r = (T.of(r[0]), *r[1:])
            except s.SolverError as e:
                r = (type(e).__name__, 0, 0)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
                r = (repr(e), 0, 0)
            return tries, r, s._accept

        return lv, go(OFF), go(lv)

    for c, r, e in chk.paths(fn, None, 20000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        lv, (ta, ra, aa), (tb, rb, ab) = r
        if not ra[0] in ("un", "MaxLoopsExceeded", "MinimumStepReached"):
            chk.path_fails(f"{lab}: {ra[0]}", c, replay, ra[0])
            continue
        if chk.holds(f"{lab} at {lv!r}: same outcome", ra[0] == rb[0] and len(ta) == len(tb) and aa == ab, replay, {"level": lv, "off": ra[0], "on": rb[0]}):
            for x, y in list(zip(ta, tb)) + list(zip(ra[1:], rb[1:])):
                chk.equal(f"{lab}: same step sizes", c, x, y, replay)


def stages_log(chk, name, variant):
    pk = shim.fresh()
    lab = f"{name}/{variant} steps"
    replay = ("log_steps", dict(solver=name, variant=variant))

    def fn(c):
        lv = level(c)
        late = c.branch_z3(z3.Bool("late"))
        L = np.array([-1.0, -2.0])
        if variant == "full":
            L = np.array([[-1.0, 0.5], [0.25, -2.0]])
        elif variant == "eig":
            L = np.array([[-1.0, 0.5], [0.25, -2.0]])
        N = TolOracle(c, 2)
        u = [c.sym(f"u{i}", real=False) for i in range(2)]
        out = []
        for l, k in ((OFF, None), (lv, lv)):
            s = make(pk, name, variant, L, N, etd=dict(contour_points=4) if name in ETD else None, loglevel=OFF if late else l)
            x = arr(list(u), "c")
            res = []
            for i, h in enumerate((0.5, 0.25)):
                if late and i == 1:
                    s.set_loglevel(l)
                x, h1, h2, errs = public_step(s, name, x, h, (1.5,) if i else (0.5, 1.0))
                res += elems(x) + [h1, h2] + [y for er in errs for y in er]
            out.append(res)
        return lv, out

    for c, r, e in chk.paths(fn, None, 400):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        lv, (a, b) = r
        if chk.holds(f"{lab} at {lv!r}: same number of results", len(a) == len(b), replay):
            for x, y in zip(a, b):
                chk.equal(f"{lab} at {lv!r}", c, x, y, replay)


# ------------------------------------------------------------------ P25
def P25(chk):
    chk.encoded(*[f for nm, v in VARIANTS for f in funcs(nm, v)])
    chk.bound("two consecutive steps with a rejected attempt in between; systems of two components (IF45DP and diagonal forms: three); every combination of integer, real and complex arrays for state, operator and nonlinear values; step sizes 1/2, 1/4, 1; fixed operators with small, zero and large eigenvalues, arbitrary states and nonlinear functions")
    chk.assumption("the state is an arbitrary vector of the given kind; nonlinear values are arbitrary numbers of the given kind at every argument")
    chk.parallel([(kinds_of, (nm, v), {}) for nm, v in VARIANTS])


def np_kind(a, k):
    return np.asarray(a).astype({"i": np.int64, "f": np.float64, "c": np.complex128}[k])


def kinds_of(chk, name, variant):
    pk = shim.fresh()
    K = "ifc"
    n = 3 if variant == "diag" else 2
    # integer operators: zero, small and large eigenvalues
    L = [0, -1, -3] if variant == "diag" else [[-1, 1], [0, -3]]
    etd = dict(contour_points=4, modecutoff=0.3) if name in ETD else None
    replay = ("kinds_io", dict(solver=name, variant=variant))

    for ku in K:
        for kl in K:
            for kn in K:
                lab = f"{name}/{variant} state {ku} operator {kl} nonlinear {kn}"

                def fn(c):
                    u = [c.sym(f"u{i}", real=ku != "c", integer=ku == "i") for i in range(n)]
                    memo = []
                    pre = (lambda x: [c.sym(f"N{len(memo)}_{i}", integer=True) for i in range(n)]) if kn == "i" else None
                    out = []
                    for a, b, d in ((ku, kl, kn), ("c", "c", "c")):
                        N = TolOracle(c, n, kind=d, memo=memo, preset=pre)
                        if d != kn and kn != "c":
                            N = Widen(TolOracle(c, n, kind=kn, memo=memo, preset=pre))
                        s = make(pk, name, variant, np_kind(L, b), N, etd=etd)
                        x = arr(list(u), a)
                        res = []
                        for i, h in enumerate((0.5, 0.25)):
                            x, h1, h2, errs = public_step(s, name, x, h, (1.5,) if i else (0.5, 1.0))
                            res += elems(x) + [h1, h2] + [y for er in errs for y in er]
                        out.append(res)
                    return out

                for c, r, e in chk.paths(fn, None, 40):
                    if e is not None:
                        chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
                        continue
                    a, b = r
                    if chk.holds(f"{lab}: same number of results", len(a) == len(b), replay):
                        for x, y in zip(a, b):
                            chk.equal(lab, c, x, y, replay)
                if chk.violations:
                    return


class Widen:
    """the same numbers returned as a complex array"""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x).astype(complex)
