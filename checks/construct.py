"""Configuration and construction: P16 validated settings, P17 refused problems and solver kinds."""
from fractions import Fraction
import numpy as np
import z3
from lib import poly as P, symarr as S, shim, explore, fpdom as F
from lib.poly import Poly
from lib.common import *
from lib.methods import *
from .control import choose
from .steps import operator

# documented ranges: parameter -> (default, accepted(value as a z3 double))
gt = lambda b: lambda v: z3.fpGT(v, F.val(b))
lt = lambda b: lambda v: z3.fpLT(v, F.val(b))
SOLVER = {
    "epsilon": (1e-4, gt(0.0)),
    "incr_f": (1.25, gt(1.0)),
    "decr_f": (0.85, lt(1.0)),
    "safety_f": (0.8, lambda v: z3.fpLEQ(v, F.val(1.0))),
    "adapt_cutoff": (0.01, lt(1.0)),
    "minh": (1e-16, gt(0.0)),
}
ETDP = {
    "modecutoff": (0.01, lambda v: z3.And(z3.fpGT(v, F.val(0.0)), z3.fpLEQ(v, F.val(1.0)))),
    "contour_radius": (1.0, gt(0.0)),
}
DEFAULTS = {"SolverConfig": {k: v[0] for k, v in SOLVER.items()}, "ETDConfig": {"modecutoff": 0.01, "contour_points": 32, "contour_radius": 1.0}}


# ------------------------------------------------------------------ P16
def P16(chk):
    chk.encoded(*[f"rkstiff.solveras.SolverConfig.{k}" for k in ["__init__", *SOLVER]], *[f"rkstiff.etd.ETDConfig.{k}" for k in ["__init__", "contour_points", *ETDP]])
    chk.bound("every IEEE double (including NaN, infinities, signed zeros, subnormals) for each parameter at construction and in sequences of three assignments; all parameters of a configuration together at construction; every integer for contour_points; representative non-numbers")
    chk.assumption("float() of a double is the identity")
    for cn, par in (("SolverConfig", SOLVER), ("ETDConfig", ETDP)):
        default_values(chk, cn)
        together(chk, cn, par)
        for name in par:
            assignments(chk, cn, name, par[name])
            integers(chk, cn, name, par[name])
    points(chk)
    nonnumbers(chk)


def config(pk, cn):
    return getattr(pk.solveras if cn == "SolverConfig" else pk.etd, cn)


def read(o, cn):
    return {k: getattr(o, k) for k in DEFAULTS[cn]}


def same_value(x, y):
    """z3 condition: the same number"""
    a, b = F.val(x), F.val(y)
    return a == b


def unchanged(chk, lab, c, now, want, skip, replay):
    for k in want:
        if k != skip:
            chk.prove_z3(f"{lab}: {k} untouched", list(c.pc) + [z3.Not(same_value(now[k], want[k]))] if isinstance(now[k], F.FP) or isinstance(want[k], F.FP) else [z3.BoolVal(now[k] != want[k])], replay)


def default_values(chk, cn):
    pk = shim.fresh()
    lab = f"{cn} defaults"
    replay = ("config", dict(cls=cn))
    for c, r, e in chk.paths(lambda c: read(config(pk, cn)(), cn), None, 4):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        for k, v in DEFAULTS[cn].items():
            chk.holds(f"{lab}: {k}", r[k] == v, replay, {k: str(r[k])})


def together(chk, cn, par):
    """every parameter arbitrary at construction"""
    pk = shim.fresh()
    lab = f"{cn} construction"
    replay = ("config", dict(cls=cn))

    def fn(c):
        v = {k: F.sym(k, finite=False) for k in par}
        try:
            return v, read(config(pk, cn)(**v), cn), None
        except ValueError as e:
            return v, None, e

    seen = set()
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        v, got, err = r
        ok = z3.And(*[par[k][1](v[k].e) for k in par])
        seen.add(err is None)
        dec = lambda m, v=v: {k: F.model_float(m, v[k]) for k in v}
        if err is not None:
            chk.prove_z3(f"{lab}: refused only outside the documented ranges", list(c.pc) + [ok], replay, decode=dec)
            continue
        chk.prove_z3(f"{lab}: accepted only within the documented ranges", list(c.pc) + [z3.Not(ok)], replay, decode=dec)
        for k in v:
            chk.prove_z3(f"{lab}: {k} is read back", list(c.pc) + [z3.Not(same_value(got[k], v[k]))], replay, decode=dec)
        for k in set(got) - set(v):
            chk.holds(f"{lab}: {k} keeps its default", got[k] == DEFAULTS[cn][k], replay)
        chk.reachable(lab, c)
    if seen != {True, False} and not chk.violations:
        chk.reach_failed.append(lab)


def assignments(chk, cn, name, spec):
    """three assignments of arbitrary doubles: each is stored or raises and changes nothing"""
    pk = shim.fresh()
    lab = f"{cn}.{name}"
    replay = ("config", dict(cls=cn, name=name))

    def fn(c):
        o = config(pk, cn)()
        log = []
        for i in range(3):
            v = F.sym(f"v{i}", finite=False)
            before = read(o, cn)
            try:
                setattr(o, name, v)
                ok = True
            except ValueError:
                ok = False
            log.append((v, ok, before, read(o, cn)))
        return log

    seen = set()
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        for i, (v, ok, before, after) in enumerate(r):
            seen.add(ok)
            dec = lambda m, v=v: {name: F.model_float(m, v)}
            good = spec[1](v.e)
            if ok:
                chk.prove_z3(f"{lab}: accepted only within the documented range", list(c.pc) + [z3.Not(good)], replay, decode=dec)
                chk.prove_z3(f"{lab}: accepted value is read back", list(c.pc) + [z3.Not(same_value(after[name], v))], replay, decode=dec)
            else:
                chk.prove_z3(f"{lab}: refused only outside the documented range", list(c.pc) + [good], replay, decode=dec)
                chk.prove_z3(f"{lab}: refused value changes nothing", list(c.pc) + [z3.Not(same_value(after[name], before[name]))], replay, decode=dec)
            unchanged(chk, lab, c, after, before, name, replay)
        chk.reachable(lab, c)
    if seen != {True, False} and not chk.violations:
        chk.reach_failed.append(lab)


def integers(chk, cn, name, spec):
    """Python integers are accepted by the same ranges"""
    pk = shim.fresh()
    lab = f"{cn}.{name} integer"
    replay = ("config", dict(cls=cn, name=name))
    lo, hi = {"epsilon": (1, None), "incr_f": (2, None), "decr_f": (None, 0), "safety_f": (None, 1), "adapt_cutoff": (None, 0), "minh": (1, None), "modecutoff": (1, 1), "contour_radius": (1, None)}[name]

    def fn(c):
        o = config(pk, cn)()
        k = c.sym("k", integer=True)
        c.pc += [("<=", k - 10**6), (">=", k + 10**6)]
        old = getattr(o, name)
        try:
            setattr(o, name, k)
            return k, True, getattr(o, name), old
        except ValueError:
            return k, False, getattr(o, name), old

    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        k, ok, now, old = r
        inside = ([(">=", k - lo)] if lo is not None else []) + ([("<=", k - hi)] if hi is not None else [])
        if ok:
            if lo is not None:
                chk.refute(f"{lab}: accepted only within the documented range", c, [("<", k - lo)], replay)
            if hi is not None:
                chk.refute(f"{lab}: accepted only within the documented range", c, [(">", k - hi)], replay)
            chk.equal(f"{lab}: read back", c, now, k, replay)
        else:
            chk.refute(f"{lab}: refused only outside the documented range", c, inside, replay)
            chk.holds(f"{lab}: refused value changes nothing", now == old, replay)


def points(chk):
    pk = shim.fresh()
    lab = "ETDConfig.contour_points"
    replay = ("config", dict(cls="ETDConfig", name="contour_points"))
    for how in ("assignment", "construction"):

        def fn(c):
            k = c.sym("k", integer=True)
            o = config(pk, "ETDConfig")()
            try:
                if how == "assignment":
                    o.contour_points = k
                else:
                    o = config(pk, "ETDConfig")(contour_points=k)
                ok = True
            except ValueError:
                ok = False
            return k, ok, read(o, "ETDConfig")

        seen = set()
        for c, r, e in chk.paths(fn, None, 16):
            if e is not None:
                chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
                continue
            k, ok, now = r
            seen.add(ok)
            if ok:
                chk.refute(f"{lab} {how}: at least two points", c, [("<", k - 2)], replay)
                chk.equal(f"{lab} {how}: read back", c, now["contour_points"], k, replay)
            else:
                chk.refute(f"{lab} {how}: two or more points are accepted", c, [(">=", k - 2)], replay)
                chk.holds(f"{lab} {how}: refused value changes nothing", now["contour_points"] == 32, replay)
            chk.reachable(lab, c)
        if seen != {True, False} and not chk.violations:
            chk.reach_failed.append(lab)

    def fn(c):
        v = F.sym("v", finite=False)
        o = config(pk, "ETDConfig")()
        try:
            o.contour_points = v
            return "accepted", o.contour_points
        except TypeError:
            return "TypeError", o.contour_points

    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: non-integer raised {e!r} instead of TypeError", c, replay, repr(e))
            continue
        if r[0] != "TypeError" or r[1] != 32:
            chk.path_fails(f"{lab}: a double is {r[0]}", c, replay, r[0])
        else:
            chk.holds(f"{lab}: doubles are refused with TypeError", True, replay)


def nonnumbers(chk):
    """strings, None, containers and complex numbers are refused and change nothing"""
    for cn in DEFAULTS:
        pk = shim.fresh()
        for name in DEFAULTS[cn]:
            lab = f"{cn}.{name} non-number"
            replay = ("config", dict(cls=cn, name=name))

            def fn(c):
                o = config(pk, cn)()
                v = ("0.5", None, [0.5], 0.5j, {})[choose(c, 5, "v")]
                try:
                    setattr(o, name, v)
                    return v, "accepted", read(o, cn)
                except (TypeError, ValueError) as e:
                    return v, "refused", read(o, cn)

            for c, r, e in chk.paths(fn, None, 16):
                if e is not None:
                    chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
                    continue
                chk.holds(f"{lab}: {r[0]!r} refused", r[1] == "refused" and r[2] == DEFAULTS[cn], replay, {"value": repr(r[0])})


# ------------------------------------------------------------------ P17
def P17(chk):
    D = 4 if chk.thorough else 3
    chk.encoded("rkstiff.solver.BaseSolver.__init__", "rkstiff.util.solver_type.SolverType.from_solver", *[f"rkstiff.{CLS[n]}.{n}.__init__" for n in CS + AS])
    chk.bound(f"base classes: ranks 0 to 4 with arbitrary positive dimensions; the seven solvers: every shape of rank 0 to 3 with dimensions 1 to {D} and arbitrary contents; every condition number for diagonalization requests; the reported kind for every valid adaptive configuration, log level on and off, before and after a step and a reset")
    chk.assumption("refusal is required above condition 1e16 and forbidden up to 1e15")
    for base in ("BaseSolverCS", "BaseSolverAS"):
        shapes(chk, base)
    for name in CS + AS:
        concrete(chk, name, D)
    for name in ("ETD34", "ETD35", "IF34"):
        condition(chk, name)
        flat(chk, name)
    for name in CS + AS:
        kind_always(chk, name)
    kinds(chk)


class Shaped:
    def __init__(self, shape):
        self.shape = shape
        self.ndim = len(shape)


def shapes(chk, base):
    pk = shim.fresh()
    lab = f"{base} shapes"
    replay = ("shapes", dict(solver="base"))

    def fn(c):
        rank = choose(c, 5, "rank")
        d = []
        for i in range(rank):
            k = c.sym(f"d{i}", integer=True, pos=True)
            d.append(k)
        B = getattr(getattr(pk, "solvercs" if base == "BaseSolverCS" else "solveras"), base)
        ns = {"_reset": lambda s: None, "_update_stages": lambda s, u, h: u, "_q": lambda s: 4}
        K = type("Stub", (B,), ns)
        try:
            s = K(Shaped(tuple(d)), lambda x: x)
            return rank, d, None, s
        except ValueError as e:
            return rank, d, e, None

    seen = set()
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        rank, d, err, s = r
        seen.add((rank, err is None))
        if rank != 2:
            chk.holds(f"{lab}: rank {rank} {'accepted' if rank == 1 else 'refused'}", (err is None) == (rank == 1), replay, {"rank": rank})
        elif err is None:
            chk.refute(f"{lab}: accepted matrices are square", c, [("!=", d[0] - d[1])], replay)
        else:
            chk.refute(f"{lab}: square matrices are accepted", c, [("==", d[0] - d[1])], replay)
        chk.reachable(lab, c)
    if not {(1, True), (2, True), (2, False), (3, False)} <= seen and not chk.violations:
        chk.reach_failed.append(lab)


def concrete(chk, name, D):
    pk = shim.fresh()
    lab = f"{name} shapes"
    replay = ("shapes", dict(solver=name))
    import itertools

    cases = [sh for r in range(4) for sh in itertools.product(range(1, D + 1), repeat=r)]

    def fn(c):
        sh = cases[choose(c, len(cases), "shape")]
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            a[i] = c.sym("L" + "_".join(map(str, i)), real=False)
        try:
            return sh, None, cls(pk, name)(S.wrap(a, "c"), lambda x: x)
        except ValueError as e:
            return sh, e, None

    cnt = 0
    for c, r, e in chk.paths(fn, None, 400):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        sh, err, s = r
        ok = len(sh) == 1 or (len(sh) == 2 and sh[0] == sh[1] and name != "IF45DP")
        chk.holds(f"{lab}: {sh} {'accepted' if ok else 'refused'}", (err is None) == ok, replay, {"shape": str(sh)})
        if s is not None:
            kind = pk.load("rkstiff.util.solver_type").SolverType
            want = kind.ADAPTIVE_STEP if name in AS else kind.CONSTANT_STEP
            chk.holds(f"{lab}: reports its kind", s.solver_type is want and kind.from_solver(s) is want, ("kinds", {}))
    if cnt < len(cases) and not chk.violations:
        chk.reach_failed.append(lab)


def kind_always(chk, name):
    """the reported kind does not depend on settings, log level or what the solver did"""
    pk = shim.fresh()
    lab = f"{name} kind"
    replay = ("kinds", {})
    K = pk.load("rkstiff.util.solver_type").SolverType
    want = K.ADAPTIVE_STEP if name in AS else K.CONSTANT_STEP

    def fn(c):
        s = cls(pk, name)(S.force_sym(np.array([-2.0, -3.0])), Oracle(c, 2), loglevel=("WARNING", "DEBUG")[choose(c, 2, "level")])
        if name in AS:
            v = {k: c.sym(k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")}
            c.pc += [(">", v["epsilon"]), (">", v["incr_f"] - 1), ("<", v["decr_f"] - 1), ("<=", v["safety_f"] - 1), ("<", v["adapt_cutoff"] - 1), (">", v["minh"])]
            for k, x in v.items():
                setattr(s.config, k, x)
        got = [(s.solver_type, K.from_solver(s))]
        for what in ("step", "reset"):
            if what == "step":
                try:
                    public_step(s, name, arr([c.sym(f"u{i}", real=False) for i in range(2)], "c"), 0.5, (1.0,))
                except Exception as e:
                    if type(e).__name__ not in ("MaxLoopsExceeded", "MinimumStepReached"):
                        raise
            else:
                s.reset()
            got.append((s.solver_type, K.from_solver(s)))
        return got

    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        for k, g in enumerate(r):
            if not (g[0] is want and g[1] is want):
                chk.path_fails(f"{lab}: {g} {('at construction', 'after a step', 'after reset')[k]}", c, replay, str(g))
                break
        else:
            chk.holds(f"{lab}: reported as {want.name}", True, replay)
        chk.reachable(lab, c)


def condition(chk, name):
    pk = shim.fresh()
    lab = f"{name} diagonalize"
    replay = ("condition", dict(solver=name))

    def fn(c):
        lam = [c.sym(f"lam{i}", real=False) for i in range(2)]
        L, Sm, Si = operator(c, "eig", lam)
        cond = c.sym("cond", real=True, pos=True)
        c.pc.append((">=", cond - 1))
        try:
            make(pk, name, "eig", L, lambda x: x)
            return cond, None
        except ValueError as e:
            return cond, e

    seen = set()
    for c, r, e in chk.paths(fn, None, 16):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cond, err = r
        seen.add(err is None)
        if err is None:
            chk.refute(f"{lab}: accepted operators are not numerically singular", c, [(">", cond - 10**16)], replay)
        else:
            chk.refute(f"{lab}: well-conditioned operators are accepted", c, [("<=", cond - 10**15)], replay)
        chk.reachable(lab, c)
    if seen != {True, False} and not chk.violations:
        chk.reach_failed.append(lab)
    for what, M in (("zero", np.zeros((2, 2))), ("singular", np.array([[1.0, 2.0], [2.0, 4.0]])), ("one zero row", np.array([[1.0, 2.0], [0.0, 0.0]]))):

        def fn(c):
            try:
                make(pk, name, "eig", M, lambda x: x)
                return "accepted"
            except ValueError:
                return "refused"

        for c, r, e in chk.paths(fn, None, 4):
            chk.holds(f"{lab}: {what} operator refused", e is None and r == "refused", replay, {"operator": what, "outcome": str(e or r)})


def flat(chk, name):
    """a one-dimensional operator is already diagonal: asking for diagonalization changes nothing"""
    pk = shim.fresh()
    lab = f"{name} diagonalize 1-D"
    replay = ("flat", dict(solver=name))

    def fn(c):
        n = 2
        lam = [Fraction(-2), Fraction(-3)]
        N = Oracle(c, n)
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        a = one_step(make(pk, name, "diag", np.array([-2.0, -3.0]), N), name, arr(u, "c"), 0.5)
        b = one_step(make(pk, name, "eig", np.array([-2.0, -3.0]), N), name, arr(u, "c"), 0.5)
        return [elems(x) for x in a], [elems(x) for x in b]

    for c, r, e in chk.paths(fn, None, 8):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        for x, y in zip(*r):
            for p, q in zip(x, y):
                chk.equal(f"{lab}: same step", c, p, q, replay)


def kinds(chk):
    pk = shim.fresh()
    replay = ("kinds", {})
    K = pk.load("rkstiff.util.solver_type").SolverType

    def fn(c):
        out = []
        for x in (None, 1, "ETD4", object(), np.zeros(2), pk.solver.BaseSolver, pk.etd4.ETD4):
            try:
                out.append((repr(x)[:30], K.from_solver(x)))
            except TypeError:
                out.append((repr(x)[:30], "TypeError"))
        return out

    for c, r, e in chk.paths(fn, None, 4):
        if e is not None:
            chk.path_fails(f"kinds: raised {e!r}", c, replay, repr(e))
            continue
        for w, x in r:
            chk.holds(f"kinds: {w} is not a solver", x == "TypeError", replay)
        chk.holds("kinds: the two kinds are distinct, with their aliases", K.CONSTANT_STEP is K.CS and K.ADAPTIVE_STEP is K.AS and K.CS is not K.AS, replay)
