"""Properties over histories of one or two solvers: P09 step independence, P10 reproducibility, P15 aliasing."""
from fractions import Fraction
import numpy as np
import z3
from lib import poly as P, symarr as S, shim, explore
from lib.poly import Poly
from lib.common import *
from lib.methods import *
from .control import choose, NAN
from .steps import operator, constrain, TolOracle, near, apply

F2 = ((-2.0, 0.5), (0.25, -1.5))  # dense operator of the numeric full-matrix runs


class Fault(Exception):
    """raised by the nonlinear function or while coefficients are updated"""


def flip(c, name):
    return choose(c, 2, name) == 1


# ------------------------------------------------------------------ P09
def P09(chk):
    A = 4 if chk.thorough else 3
    chk.bound(f"histories of {A} attempts with verdicts accept / accept and grow / reject / not-a-number and, between steps, the suggested step, the first step size or an arbitrary new one; retry limit exceeded and retried")
    chk.bound("histories with one fault: at any evaluation of the nonlinear function or any exponential of a coefficient update in the first or second attempt, then a retry with the same or another step size and one more step")
    chk.bound("arbitrary complex state and nonlinear function (one free value per distinct argument); arbitrary step sizes and eigenvalues for integrating-factor solvers and closed-formula ETD (one mode diagonal, two modes diagonalized); one dense 2x2 operator and numeric step sizes for full-matrix ETD and for small modes of the contour")
    chk.assumption("one trajectory: each step continues from the state the previous one returned; switching to another state requires reset()")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant), *(["rkstiff.solveras.BaseSolverAS.step"] if name in AS else ["rkstiff.solvercs.BaseSolverCS.step"]))
        if variant == "diag" or (name not in ETD and variant == "full") or (chk.thorough and variant == "eig"):
            T.append((history, (name, variant, "sym", 3, False), {}))
        if name in ETD or variant == "eig" or chk.thorough:
            T.append((history, (name, variant, "num", A, False), {}))
        T.append((history, (name, variant, "num", 3, True), {}))
        if name in AS:
            T.append((history, (name, variant, "num", 2, False, 0), {}))
    chk.parallel(T)


def setup(c, name, variant, mode):
    """(operator, number of modes, base step, other step, ETD configuration)"""
    if mode == "num":
        if variant == "diag":
            L, n = np.array([-0.004 + 0.002j, -3.0]), 2
        else:
            L, n = np.array(F2) * np.array(1.0), 2
            if variant == "eig":
                L = np.array([[-2.0, 1.0], [0.0, -0.005]])
        return L, n, 0.5, 0.5000001, dict(modecutoff=0.01, contour_points=4, contour_radius=2.0)
    h, g = hsym(), c.sym("g", pos=True)
    n = 1 if variant == "diag" else 2
    lam = [Poly.const(-2), Poly.const(-3)][:n]
    lo = 8 if name in ETD else Fraction(1, 1000)
    c.pc += [(">=", h - lo), (">=", g - lo)]
    L, Sm, Si = operator(c, variant, lam)
    if variant == "eig":
        c.pc += [(">=", c.sym("cond", pos=True) - 1), ("<=", c.sym("cond", pos=True) - 1000)]
    return L, n, h, g, dict(modecutoff=0.01, contour_points=3)


class Tape:
    """records every attempt (state, step size, result) of a solver"""

    def __init__(self, s, name):
        self.log = []
        inner = s._update_stages

        def record(u, h, *_, **__):
            before = elems(u)
            r = inner(u, h)
            self.log.append((before, h, [elems(x) for x in (r if isinstance(r, tuple) else (r,))]))
            return r

        s._update_stages = record


def same_h(a, b):
    d = Poly.lift(a) - Poly.lift(b)
    return not d.t


def history(chk, name, variant, mode, A, faults, limit=None):
    pk = shim.fresh()
    what = "faults" if faults else ("retry limit" if limit is not None else "verdicts")
    lab = f"{name}/{variant}/{mode} {what}"
    replay = ("history", dict(solver=name, variant=variant, mode=mode, faults=faults, limit=limit))
    adaptive = name in AS
    deep = 3 if chk.thorough else 2

    def fn(c):
        L, n, h, g, etd = setup(c, name, variant, mode)
        st = dict(calls=0, done=False, fault=None, k=0, active=False)
        memo = []
        inner = TolOracle(c, n, memo=memo)

        def maybe(where):
            if not faults or st["done"] or not st["active"] or st["k"] >= deep:
                return
            st["calls"] += 1
            if flip(c, f"fault{st['calls']}"):
                st["done"] = True
                st["fault"] = f"{where} {st['calls']}"
                raise Fault(where)

        def nl(x):
            maybe("nonlinear")
            return inner(x)

        c.uf_hook = maybe
        s = make(pk, name, variant, L, nl, etd)
        if limit is not None:
            s.MAX_LOOPS = limit
        tape = Tape(s, name)
        hist = []

        def verdict(u, e, *_, **__):
            k = st["k"] = st["k"] + 1
            # verdicts of attempts that nothing follows do not matter
            if k >= A:
                v = 0
            elif faults:
                v = choose(c, 3, f"v{k}") if not st["done"] else 0
            else:
                v = choose(c, 4 if limit is None else 3, f"v{k}")
            hist.append("accept grow reject nan".split()[v])
            return (1.0, 2.0, 0.5, NAN)[v]

        if adaptive:
            s._compute_s = verdict
        u = arr([c.sym(f"u{i}", real=False) for i in range(n)], "c")
        hh = h
        rounds = 0
        while len(tape.log) < A and rounds < A + 2:
            rounds += 1
            nsug = None
            try:
                st["active"] = True
                if adaptive:
                    u, taken, nsug = s.step(u, hh)
                else:
                    u = s.step(u, hh)
                    st["k"] += 1
                    nsug = hh
            except Fault:
                hist.append("fault at " + st["fault"])
            except Exception as e:
                if limit is None or type(e).__name__ != "MaxLoopsExceeded":
                    raise
                hist.append("gave up")
            st["active"] = False
            if len(tape.log) >= A:
                break
            if st["done"] and nsug is not None:
                j = 0
            else:
                j = choose(c, 2 if nsug is None or (adaptive and faults) else 3, f"h{rounds}")
            hh = (hh if nsug is None else nsug, g, h)[j]
            hist.append(("same" if nsug is None else "suggested", "other", "first")[j] + " step")
        c.uf_hook = None
        out = []
        for u0, hk, res in tape.log:
            d = make(pk, name, variant, L, inner, etd)
            r = d._update_stages(arr(list(u0), "c"), hk)
            out.append((hk, res, [elems(x) for x in (r if isinstance(r, tuple) else (r,))]))
        return out, hist, st["fault"]

    cnt = 0
    hit = set()
    for c, r, e in chk.paths(fn, None, 4000):
        if mode == "sym":
            # coincident step sizes are covered by the other choices
            h, g = hsym(), c.sym("g", pos=True)
            if any(isinstance(x, tuple) and x[0] == "==" and not all(c.atoms[i].name.startswith(("rnd", "quo", "rem")) for i in Poly.lift(x[1]).atoms()) for x in c.pc):
                continue
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        out, hist, fault = r
        if fault:
            hit.add(fault.split()[0])
        hs = ", ".join(hist)
        for k, (hk, got, want) in enumerate(out):
            for w, x, y in zip(("state", "estimate"), got, want):
                for i, (p, q) in enumerate(zip(x, y)):
                    if not chk.equal(f"{lab}: attempt {k}, {w} {i} as from a fresh solver [{hs}]", c, p, q, replay):
                        break
        if cnt % 9 == 1:
            chk.reachable(lab, c)
    if (not cnt or (faults and not {"nonlinear"} < hit)) and not chk.violations:
        chk.reach_failed.append(f"{lab}: {cnt} histories, faults at {sorted(hit)}")


# ------------------------------------------------------------------ P10
def P10(chk):
    chk.bound("one evolution of up to six attempts (verdicts accept / grow / reject as an arbitrary function of state and estimate, two free verdicts, then accept) after: the same or another evolution, an evolution aborted by the nonlinear function at any evaluation, by the retry limit or by bad arguments, manual steps, changed settings; each with and without reset()")
    chk.bound("two solvers interleaved: every order of four steps; different operators, and equal operators with different settings; new default and given configurations of all solvers with arbitrary values")
    chk.bound("arbitrary complex state and nonlinear function (one free value per distinct argument); numeric operators (diagonal with one small mode, dense, diagonalized) and step sizes")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant), "rkstiff.solveras.BaseSolverAS.evolve" if name in AS else "rkstiff.solvercs.BaseSolverCS.evolve")
        chk.encoded("rkstiff.solveras.BaseSolverAS.reset" if name in AS else "rkstiff.solvercs.BaseSolverCS.reset")
        T.append((rerun, (name, variant), {}))
        T.append((interleave, (name, variant), {}))
    T.append((defaults, (), {}))
    chk.parallel(T)


def fixed_problem(name, variant, other=0):
    if variant == "diag":
        L = np.array([-0.004 + 0.002j, -3.0]) if not other else np.array([-1.0, -0.006j])
    elif variant == "eig":
        L = np.array([[-2.0, 1.0], [0.0, -0.005]]) if not other else np.array([[-1.0, 0.5], [0.0, -3.0]])
    else:
        L = np.array(F2) if not other else np.array([[-1.0, 0.25], [0.5, -0.5]])
    etd = dict(modecutoff=0.01, contour_points=4, contour_radius=2.0)
    if other == 2:
        L = fixed_problem(name, variant)[0]
        etd = dict(modecutoff=0.1 if variant != "full" else 0.01, contour_points=6, contour_radius=1.5)
    return L, etd


class Verdicts:
    """controller verdict as a function of (state, estimate)"""

    def __init__(self, c, free=2):
        self.c, self.free, self.memo = c, free, []
        self.table = (1.0, 2.0, 0.5)

    def __call__(self, u, e, *_, **__):
        x = [Poly.lift(p) for p in elems(u) + elems(e)]
        for a, v in self.memo:
            if all(near(p, q) for p, q in zip(a, x)):
                return v
        k = len(self.memo)
        v = self.table[choose(self.c, 3, f"v{k}")] if k < self.free else 1.0
        self.memo.append((x, v))
        return v


def run_evolve(s, name, u, tf, h, **kw):
    r = s.evolve(u, 0.0, tf, h, **kw)
    return [Poly.lift(x) for x in elems(r)], list(s.t), [elems(x) for x in s.u]


def rerun(chk, name, variant):
    pk = shim.fresh()
    lab = f"{name}/{variant} rerun"
    replay = ("rerun", dict(solver=name, variant=variant))
    adaptive = name in AS
    PRE = ["same run", "other run", "faulted run", "gave up", "manual steps"] + (["changed settings"] if name in ETD else [])

    def fn(c):
        n = 2
        L, etd = fixed_problem(name, variant)
        memo = []
        N = TolOracle(c, n, memo=memo)
        ver = Verdicts(c)
        u = arr([c.sym(f"u{i}", real=False) for i in range(n)], "c")
        w = arr([c.sym(f"w{i}", real=False) for i in range(n)], "c")
        st = dict(on=False)

        def nl(x):
            if st["on"] and flip(c, f"fault{st['on']}"):
                st["on"] = False
                raise Fault()
            st["on"] = st["on"] and st["on"] + 1
            return N(x)

        new = fixed_problem(name, variant, 2)[1]
        pre = choose(c, len(PRE), "pre")
        f = make(pk, name, variant, L, N, new if PRE[pre] == "changed settings" else etd)
        if adaptive:
            f._compute_s = ver
        want = run_evolve(f, name, u, 1.0, 0.5)
        s = make(pk, name, variant, L, nl, etd)
        if adaptive:
            s._compute_s = ver
        held = None
        hist = [PRE[pre]]
        if PRE[pre] in ("same run", "changed settings"):
            run_evolve(s, name, u, 1.0, 0.5)
            held = s.t, s.u, list(s.t), [elems(x) for x in s.u]
            if PRE[pre] == "changed settings":
                for k, v in new.items():
                    setattr(s.etd_config, k, v)
        elif PRE[pre] == "other run":
            run_evolve(s, name, w, 0.75, 0.25, store_data=flip(c, "store"))
            held = s.t, s.u, list(s.t), [elems(x) for x in s.u]
        elif PRE[pre] == "faulted run":
            st["on"] = 1
            try:
                s.evolve(w, 0.0, 1.0, 0.5)
            except Fault:
                hist.append("aborted")
            st["on"] = False
            held = s.t, s.u, list(s.t), [elems(x) for x in s.u]
        elif PRE[pre] == "gave up":
            if adaptive:
                k = choose(c, 2, "good steps")
                it = iter([1.0] * k + [0.5] * 60)
                s._compute_s = lambda *a, **k: next(it)
                s.MAX_LOOPS = 1
            try:
                s.evolve(w, 0.0, 1.0, 0.5 if adaptive else 5.0)
            except Exception as e:
                if type(e).__name__ != ("MaxLoopsExceeded" if adaptive else "ValueError"):
                    raise
            if adaptive:
                del s.MAX_LOOPS
                s._compute_s = ver
        else:
            if adaptive:
                it = iter((1.0, 1.0, 0.5, 1.0))
                s._compute_s = lambda *a, **k: next(it)
            x = w
            for _ in range(1 + choose(c, 2, "steps")):
                x = s.step(x, 0.5)
                x = x[0] if isinstance(x, tuple) else x
            if adaptive:
                s._compute_s = ver
        if flip(c, "reset"):
            s.reset()
            hist.append("reset")
            if s.t or s.u:
                hist.append("reset keeps data")
        got = run_evolve(s, name, u, 1.0, 0.5)
        ok = held is None or (held[0] == held[2] and [elems(x) for x in held[1]] == held[3])
        return got, want, hist, ok, held is not None and (held[0] is s.t or held[1] is s.u)

    cnt = 0
    for c, r, e in chk.paths(fn, None, 4000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        (r1, t1, u1), (r2, t2, u2), hist, ok, alias = r
        hs = ", ".join(hist)
        chk.holds(f"{lab}: reset clears the stored data [{hs}]", "reset keeps data" not in hist, replay)
        chk.holds(f"{lab}: lists of the previous run unchanged [{hs}]", ok and not alias, replay)
        if not chk.holds(f"{lab}: same times [{hs}]", t1 == t2 and len(u1) == len(u2), replay, {"times": [t1, t2]}):
            continue
        for i, (p, q) in enumerate(zip(r1, r2)):
            chk.equal(f"{lab}: result {i} as from a fresh solver [{hs}]", c, p, q, replay)
        for k, (x, y) in enumerate(zip(u1, u2)):
            for i, (p, q) in enumerate(zip(x, y)):
                chk.equal(f"{lab}: snapshot {k},{i} as from a fresh solver [{hs}]", c, p, q, replay)
        if cnt % 9 == 1:
            chk.reachable(lab, c)
    if cnt < len(PRE) and not chk.violations:
        chk.reach_failed.append(lab)


def interleave(chk, name, variant):
    pk = shim.fresh()
    lab = f"{name}/{variant} interleaved"
    replay = ("interleave", dict(solver=name, variant=variant))
    adaptive = name in AS

    def fn(c):
        n = 2
        other = 1 + choose(c, 2 if name in ETD else 1, "other")
        probs = [fixed_problem(name, variant), fixed_problem(name, variant, other)]
        N = [TolOracle(c, n, name="NA"), TolOracle(c, n, name="NB")]
        us = [arr([c.sym(f"{k}{i}", real=False) for i in range(n)], "c") for k in "ab"]

        def new(i):
            return make(pk, name, variant, probs[i][0], N[i], probs[i][1])

        def advance(s, x, k):
            # the same fixed script of verdicts for the k-th step of an instance
            if adaptive:
                it = iter(((0.5, 2.0), (1.0,), (0.5, 1.0), (1.0,))[k])
                s._compute_s = lambda *a, **k: next(it)
                y, h, _ = s.step(x[0], x[1])
                return y, _
            return s.step(x[0], x[1]), (0.5, 0.25, 0.5, 0.25)[k]

        order = [choose(c, 2, f"who{j}") for j in range(4)]
        S = [new(0), new(1)]
        X = [(us[0], 0.5), (us[1], 0.5)]
        K = [0, 0]
        for i in order:
            X[i] = advance(S[i], X[i], K[i])
            K[i] += 1
        got = [elems(x[0]) for x in X]
        want = []
        for i in (0, 1):
            p2 = shim.fresh()
            s = make(p2, name, variant, probs[i][0], N[i], probs[i][1])
            x = (us[i], 0.5)
            for k in range(K[i]):
                x = advance(s, x, k)
            want.append(elems(x[0]))
        return got, want, order, other

    cnt = 0
    for c, r, e in chk.paths(fn, None, 64):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        got, want, order, other = r
        for i in (0, 1):
            for j, (p, q) in enumerate(zip(got[i], want[i])):
                chk.equal(f"{lab}: solver {i} as if alone, component {j}, order {order}, problem {other}", c, p, q, replay)
    if cnt < 16 and not chk.violations:
        chk.reach_failed.append(lab)


CFG = dict(epsilon=(0, None), incr_f=(1, None), decr_f=(0, 1), safety_f=(0, 1), adapt_cutoff=(0, 1), minh=(0, None))


def defaults(chk):
    """configuring one solver leaves every other one alone"""
    for name in CS + AS:
        pk = shim.fresh()
        lab = f"{name} settings"
        replay = ("settings", dict(solver=name))

        def fn(c):
            L = np.array([-1.0, -2.0])
            N = lambda x: x
            snap = lambda s: {f"{k}.{a}": getattr(getattr(s, k), a) for k in ("config", "etd_config") if hasattr(s, k) for a in (CFG if k == "config" else ("modecutoff", "contour_points", "contour_radius"))}
            mine = {}
            if name in ETD:
                mine["etd_config"] = pk.etd.ETDConfig(modecutoff=0.25)
            if name in AS:
                mine["config"] = pk.solveras.SolverConfig(epsilon=0.5)
            a, b, d = cls(pk, name)(L, N), cls(pk, name)(L, N), cls(pk, name)(L, N, **mine)
            before = [snap(x) for x in (a, b, d)]
            which = choose(c, 3, "which")
            s = (a, b, d)[which]
            val = {}
            if name in AS:
                for k, (lo, hi) in CFG.items():
                    v = c.sym("new_" + k)
                    c.pc.append((">", v - lo))
                    if hi is not None:
                        c.pc.append(("<", v - hi))
                    setattr(s.config, k, v)
                    val["config." + k] = v
            if name in ETD:
                v = c.sym("new_cut")
                c.pc += [(">", v), ("<", v - 1)]
                s.etd_config.modecutoff = v
                val["etd_config.modecutoff"] = v
                v = c.sym("new_rad")
                c.pc += [(">", v)]
                s.etd_config.contour_radius = v
                val["etd_config.contour_radius"] = v
                s.etd_config.contour_points = 7
                val["etd_config.contour_points"] = 7
            e = cls(pk, name)(L, N)
            after = [snap(x) for x in (a, b, d)] + [snap(e)]
            want = [dict(x, **(val if i == which else {})) for i, x in enumerate(before)] + [before[0]]
            return after, want

        cnt = 0
        for c, r, e in chk.paths(fn, None, 64):
            if e is not None:
                chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
                continue
            cnt += 1
            for i, (x, y) in enumerate(zip(*r)):
                for k in y:
                    chk.equal(f"{lab}: {k} of solver {i}", c, x[k], y[k], replay)
            chk.reachable(lab, c)
        if (name in ETD or name in AS) and cnt < 3 and not chk.violations:
            chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P15
def P15(chk):
    chk.bound("two evolutions of up to six attempts each (verdicts accept / grow / reject, two free ones per run) and two manual steps, storage frequency 1 and 2; nonlinear function returning new arrays, one constant array, its argument, or a view of its argument")
    chk.bound("arbitrary complex state and nonlinear values; numeric operators (diagonal with one small mode, dense, diagonalized) and step sizes; real aliasing of the arrays the code creates")
    chk.assumption("array storage is modelled by numpy itself: element values are symbolic, views and in-place updates are numpy's own")
    T = []
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant), "rkstiff.solveras.BaseSolverAS.evolve" if name in AS else "rkstiff.solvercs.BaseSolverCS.evolve")
        T.append((aliasing, (name, variant), {}))
    chk.parallel(T)


MODES = ("new", "constant", "argument", "view")


def aliasing(chk, name, variant):
    pk = shim.fresh()
    lab = f"{name}/{variant} aliasing"
    replay = ("aliasing", dict(solver=name, variant=variant))
    adaptive = name in AS

    def fn(c):
        n = 2
        L0, etd = fixed_problem(name, variant)
        mode = MODES[choose(c, 4, "nl")]
        sf = 1 + choose(c, 2, "store_freq")
        L = S.force_sym(L0)
        N = TolOracle(c, n)
        const = arr([c.sym(f"f{i}", real=False) for i in range(n)], "c")
        given = []

        def nl(x):
            r = {"new": lambda: N(x), "constant": lambda: const, "argument": lambda: x, "view": lambda: x[:]}[mode]()
            if mode in ("new", "constant"):
                given.append((r, elems(r)))
            return r

        def nl_copy(x):
            return {"new": lambda: N(x), "constant": lambda: const.copy(), "argument": lambda: x.copy(), "view": lambda: x.copy()}[mode]()

        ver = Verdicts(c)
        u = arr([c.sym(f"u{i}", real=False) for i in range(n)], "c")
        held = [("initial state", u, elems(u)), ("operator", L, elems(L))]

        def run(s, keep):
            if adaptive:
                s._compute_s = ver
            out = []
            inner = s.step

            def step(x, h):
                r = inner(x, h)
                y = r[0] if adaptive else r
                keep.append((f"step result {len(keep)}", y, elems(y)))
                copies.append(elems(y))
                return r

            s.step = step
            lists, copies = [], []
            for tf in (1.0, 0.75):
                del copies[:]
                u_in = elems(u)
                r = s.evolve(u, 0.0, tf, 0.5 if tf == 1.0 else 0.25, store_freq=sf)
                snaps = [elems(x) for x in s.u]
                keep.append((f"returned state", r, elems(r)))
                keep += [(f"snapshot {k} of the run to {tf}", a, b) for k, (a, b) in enumerate(zip(s.u, snaps))]
                out.append(([elems(r)] + snaps, list(s.t), [copies[-1], u_in] + copies[sf - 1 :: sf]))
                lists.append((s.u, len(snaps), s.t, list(s.t)))
            x = u
            s.reset()
            if adaptive:
                it = iter((0.5, 1.0, 1.0))
                s._compute_s = lambda *a, **k: next(it)
            for _ in range(2):
                x = step(x, 0.5)
                x = x[0] if adaptive else x
            out.append(([elems(x)], [], []))
            return out, all(len(a) == k and t == tt for a, k, t, tt in lists)

        got, lists_ok = run(make(pk, name, variant, L, nl, etd), held)
        want, _ = run(make(pk, name, variant, L0, nl_copy, etd), [])
        final = [(w, elems(a), b) for w, a, b in held + [(f"array {k} returned by the nonlinear function", a, b) for k, (a, b) in enumerate(given)]]
        return mode, got, want, final, lists_ok

    cnt = 0
    for c, r, e in chk.paths(fn, None, 200):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        mode, got, want, final, lists_ok = r
        chk.holds(f"{lab}: earlier lists keep their length and times", lists_ok, replay)
        for w, a, b in final:
            for i, (p, q) in enumerate(zip(a, b)):
                if not chk.equal(f"{lab} [{mode}]: {w} unchanged", c, p, q, replay):
                    break
        for k, (x, t, steps) in enumerate(got[:2]):
            if not chk.holds(f"{lab} [{mode}]: one snapshot per stored step", len(x) == len(steps), replay):
                break
            for a, b in zip(x, steps):
                for p, q in zip(a, b):
                    chk.equal(f"{lab} [{mode}]: run {k} stored what the steps returned", c, p, q, replay)
        for k, ((x, t, _), (y, t2, _)) in enumerate(zip(got, want)):
            if not chk.holds(f"{lab} [{mode}]: same times as with copies", t == t2 and len(x) == len(y), replay):
                break
            for a, b in zip(x, y):
                for p, q in zip(a, b):
                    chk.equal(f"{lab} [{mode}]: run {k} as with copying functions", c, p, q, replay)
        chk.reachable(lab, c)
    if cnt < 8 and not chk.violations:
        chk.reach_failed.append(lab)
