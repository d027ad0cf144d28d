"""Step controller and adaptive evolution: P11 acceptance, P12 retry loop, P13 time bookkeeping."""
from fractions import Fraction
import math
import numpy as np
import z3
from lib import poly as P, symarr as S, shim, explore, fpdom as F
from lib.poly import Poly
from lib.common import *
from lib.methods import *

NAN, INF = float("nan"), float("inf")


def lin2(pk, name, **kw):
    return cls(pk, name)(np.array([-1.0, -2.0]), lambda x: x, **kw)


def choose(c, k, name):
    """symbolic choice 0..k-1 (forks)"""
    v = z3.Int(name)
    c.pc.append(z3.And(v >= 0, v < k))
    for i in range(k - 1):
        if c.branch_z3(v == i):
            return i
    return k - 1


# ------------------------------------------------------------------ P12
def P12(chk):
    chk.encoded("rkstiff.solveras.BaseSolverAS.step", "rkstiff.solveras.BaseSolverAS._reject_step_size", "rkstiff.solveras.BaseSolverAS._accept_step_size")
    loops = (0, 1, 2, 3) if chk.thorough else (0, 1, 2)
    chk.bound(f"retry limits {loops} (set on the class constant); every verdict an arbitrary real, +-inf or NaN step factor; h, minh, decr_f in (0,1), incr_f > 1 arbitrary reals; IF34 for all limits, the other adaptive solvers for limit 1 and the default")
    chk.bound("default retry limit 50: all-rejected run with arbitrary h, minh and special-value verdicts")
    chk.assumption("real arithmetic for the step-size factors; the step factor and stage evaluation are replaced by arbitrary results")
    tasks = [(retry, (name, ML), {}) for name in (("IF34", "ETD35") if chk.thorough else ("IF34",)) for ML in loops[::-1]]
    tasks += [(retry, (name, 1), {}) for name in AS if name not in ("IF34", "ETD35") or not chk.thorough and name != "IF34"]
    tasks += [(retry, (name, None), {}) for name in AS]
    chk.parallel(tasks)


def retry(chk, name, ML):
    pk = shim.fresh()
    lab = f"{name} limit {ML if ML is not None else 'default'}"
    replay = ("retry", dict(solver=name, limit=ML))

    def fn(c):
        h = hsym()
        s = lin2(pk, name)
        if ML is not None:
            s.MAX_LOOPS = ML
        minh, decr, incr = c.sym("minh", pos=True), c.sym("decr_f", pos=True), c.sym("incr_f", pos=True)
        c.pc += [("<", decr - 1), (">", incr - 1)]
        s.config.minh, s.config.decr_f, s.config.incr_f = minh, decr, incr
        tries, facs = [], []
        T = Tokens(c)
        u0 = T("u0")

        def stages(u, hh, *_, **__):
            if len(tries) > 60:
                raise RuntimeError("retry loop does not end")
            tries.append((T.of(u), Poly.lift(hh)))
            return T("state", len(tries) - 1), T("err", len(tries) - 1)

        def factor(u, e, *_, **__):
            k = len(facs)
            if ML is None:
                v = NAN if k % 2 else -INF
            else:
                kind = choose(c, 3, f"kind{k}")
                v = c.sym(f"s{k}") if kind == 0 else (NAN if kind == 1 else (-INF if k % 2 else INF))
            facs.append((v, T.of(u), T.of(e)))
            return v

        s._update_stages, s._compute_s = stages, factor
        try:
            r, exc = s.step(u0, h), None
            r = (T.of(r[0]), *r[1:])
        except Exception as e:
            r, exc = None, e
        lim = ML if ML is not None else s.MAX_LOOPS
        return s, lim, u0, h, minh, decr, incr, tries, facs, r, exc

    n = 0
    ends = set()
    for c, r, e in chk.paths(fn, None, 20000):
        if e is not None:
            chk.path_fails(f"{lab}: harness {e!r}", c, replay, repr(e))
            continue
        n += 1
        s, lim, u0, h, minh, decr, incr, tries, facs, res, exc = r
        MIN, MAX = Poly.lift(s.MIN_S), Poly.lift(s.MAX_S)
        bad = lambda what: chk.path_fails(f"{lab}: {what}", c, replay, what)
        K = len(tries)
        if K > lim + 1:
            bad(f"{K} attempts")
            continue
        ok = all(t[0] == "u0" for t in tries) and len(facs) == K and all(f[1] == ("state", k) and f[2] == ("err", k) for k, f in enumerate(facs))
        if not ok:
            bad("attempts do not all start from the caller's state")
            continue
        chk.equal(f"{lab}: first attempt uses the suggested step", c, tries[0][1], h, replay)

        def red(k):  # required next step after rejection k
            v = facs[k][0]
            if isinstance(v, float):
                return tries[k][1] * MIN
            d = [z for z in (v, MIN, decr)]
            return v

        # shrink factors
        for k in range(K):
            v = facs[k][0]
            last = k == K - 1
            nxt = tries[k + 1][1] if not last else None
            if isinstance(v, float) or not last:
                pass
            if nxt is not None:
                if isinstance(v, float):
                    chk.equal(f"{lab}: non-finite factor shrinks by the minimum factor", c, nxt, tries[k][1] * MIN, replay)
                else:
                    chk.refute(f"{lab}: only factors below one are rejected", c, [(">=", v - 1)], replay)
                    q = nxt - tries[k][1] * decr
                    chk.refute(f"{lab}: rejected step shrinks at least by decr_f", c, [(">", q)], replay)
                    chk.refute(f"{lab}: shrink factor not below min(minimum, decr_f)", c, [("<", nxt - tries[k][1] * MIN), ("<", q)], replay)
                    chk.refute(f"{lab}: shrink factor is s inside its limits", c, [(">=", v - MIN), ("<=", v - decr), ("!=", nxt - tries[k][1] * v)], replay)
                chk.refute(f"{lab}: no attempt below the minimum step", c, [("<", nxt - minh)], replay)
        v = facs[-1][0]
        if exc is None:
            ends.add("accept")
            st, h1, h2 = res
            if isinstance(v, float):
                bad(f"attempt with step factor {v} accepted")
                continue
            h1, h2 = Poly.lift(h1), Poly.lift(h2)
            chk.refute(f"{lab}: accepted only for factors of at least one", c, [("<", v - 1)], replay)
            if not chk.holds(f"{lab}: returned state is the accepted attempt", st == ("state", K - 1), replay):
                continue
            chk.equal(f"{lab}: returned step is the accepted attempt's", c, h1, tries[-1][1], replay)
            chk.refute(f"{lab}: returned step not longer than suggested", c, [(">", h1 - h)], replay)
            chk.refute(f"{lab}: suggestion between h and the maximum", c, [z3.Or(*[zrel(c, x) for x in (("<", h2 - h1), (">", h2 - h1 * MAX))])], replay)
            chk.refute(f"{lab}: suggestion grows only beyond incr_f", c, [(">", h2 - h1), ("<=", h2 - h1 * incr)], replay)
            chk.refute(f"{lab}: suggestion never exceeds s*h", c, [(">", h2 - h1 * v)], replay)
            chk.refute(f"{lab}: factor beyond incr_f is used", c, [(">", v - incr), ("<", incr - MAX), ("==", h2 - h1)], replay)
        else:
            nm = type(exc).__name__
            ends.add(nm)
            if nm not in ("MaxLoopsExceeded", "MinimumStepReached"):
                bad(f"unexpected {exc!r}")
                continue
            if not isinstance(v, float):
                chk.refute(f"{lab}: no error for a factor of at least one", c, [(">=", v - 1)], replay)
            if nm == "MaxLoopsExceeded":
                chk.holds(f"{lab}: retry-limit error after limit+1 rejections", K == lim + 1, replay, {"attempts": K})
            else:
                # the next attempt, with any factor in its limits, would be below the minimum
                if isinstance(v, float):
                    chk.refute(f"{lab}: minimum-step error only when the next step is below", c, [(">=", tries[-1][1] * MIN - minh)], replay)
                else:
                    chk.refute(f"{lab}: minimum-step error only when the next step is below", c, [(">=", v - MIN), ("<=", v - decr), (">=", tries[-1][1] * v - minh)], replay)
                    chk.refute(f"{lab}: minimum-step error only when the next step is below", c, [(">=", v - decr), (">=", decr - MIN), (">=", tries[-1][1] * decr - minh)], replay)
                    chk.refute(f"{lab}: minimum-step error only when the next step is below", c, [("<=", v - MIN), ("<=", MIN - decr), (">=", tries[-1][1] * MIN - minh)], replay)
        if n % 17 == 1:
            chk.reachable(lab, c)
    need = {"accept", "MaxLoopsExceeded"} if ML == 0 else ({"MaxLoopsExceeded", "MinimumStepReached"} if ML is None else {"accept", "MaxLoopsExceeded", "MinimumStepReached"})
    if not need <= ends and not chk.violations:
        chk.reach_failed.append(f"{lab}: outcomes {ends}")


def zrel(c, rp):
    fm, enc = explore.formula([rp], c)
    return z3.And(*fm)


# ------------------------------------------------------------------ P11
def P11(chk):
    chk.encoded("rkstiff.solveras.BaseSolverAS.step", "rkstiff.solveras.BaseSolverAS._compute_s", "rkstiff.solveras.BaseSolverAS._accept_step_size", "rkstiff.solveras.BaseSolverAS._reject_step_size")
    chk.bound("acceptance criterion: states and estimates of 1-2 modes (3 in thorough), arbitrary complex values; cutoff arbitrary in [0,1); tolerance, safety arbitrary; all four solvers for one mode, both controller exponents for two")
    chk.bound("non-finite values: every IEEE value of 2 modes of state and estimate in a reduced floating-point format (5-bit exponent, 6-bit significand), pow as an uninterpreted function with its special values")
    chk.assumption("the reduced format has the same special-value rules as doubles")
    tasks = [(criterion, (name, n), {}) for n in ((3, 2) if chk.thorough else (2,)) for name in ("IF45DP", "ETD34")]
    tasks += [(nonfinite, (name,), {}) for name in (AS if chk.thorough else ("IF34", "ETD35"))]
    tasks += [(criterion, (name, 1), {}) for name in AS]
    chk.bound("step-size factors: every verdict of up to two attempts, arbitrary h, minh, decr_f in (0,1), incr_f > 1")
    tasks += [(retry, (name, ML), {}) for ML in (1, 0) for name in ("IF34", "ETD34")]
    chk.parallel(tasks)


def criterion(chk, name, n):
    q = {"IF45DP": 5}.get(name, 4)
    pk = shim.fresh()
    lab = f"{name} {n} modes"
    replay = ("criterion", dict(solver=name))

    def fn(c):
        c.zero_div = True
        s = lin2(pk, name)
        s.MAX_LOOPS = 0
        eps, saf, cut = c.sym("eps", pos=True), c.sym("safety", pos=True), c.sym("cutoff", nonneg=True)
        c.pc += [("<=", saf - 1), ("<", cut - 1)]
        s.config.epsilon, s.config.safety_f, s.config.adapt_cutoff = eps, saf, cut
        s.config.minh = Fraction(1, 10**30)
        u = [c.sym(f"u{i}", real=False) for i in range(n)]
        e = [c.sym(f"e{i}", real=False) for i in range(n)]
        s._update_stages = lambda uu, hh, *_, **__: (arr(u, "c"), arr(e, "c"))
        try:
            s.step(arr(u, "c"), Poly.const(1))
            acc = True
        except Exception as ex:
            if type(ex).__name__ not in ("MaxLoopsExceeded",):
                raise
            acc = False
        return acc, u, e, eps, saf, cut

    seen = set()
    for c, r, ex in chk.paths(fn, None, 4000):
        if ex is not None:
            chk.path_fails(f"{lab}: raised {ex!r}", c, replay, repr(ex))
            continue
        acc, u, e, eps, saf, cut = r
        seen.add(acc)
        A = [z3.Real(f"U{i}") for i in range(n)]
        B = [z3.Real(f"E{i}") for i in range(n)]
        base, enc = explore.formula(list(c.pc) + [("==", abs(x) - c.sym(f"U{i}", nonneg=True)) for i, x in enumerate(u)] + [("==", abs(x) - c.sym(f"E{i}", nonneg=True)) for i, x in enumerate(e)], c)
        ze = lambda p: explore.formula([("==", p)], c)[1].poly(p)[0]
        m = z3.Real("umax")
        base += [z3.Or(*[m == a for a in A])] + [m >= a for a in A]
        mask = [a > ze(cut) * m for a in A]
        U2 = z3.Sum([z3.If(mk, a * a, 0) for mk, a in zip(mask, A)])
        E2 = z3.Sum([z3.If(mk, b * b, 0) for mk, b in zip(mask, B)])
        Un, En, rr = z3.Real("Un"), z3.Real("En"), z3.Real("rr")
        base += [Un >= 0, Un * Un == U2, En >= 0, En * En == E2]
        sp = ze(saf)
        for _ in range(q - 1):
            sp = sp * ze(saf)
        meets = sp * ze(eps) * Un >= En
        nz = m > 0
        if acc:
            chk.prove_z3(f"{lab}: accepted steps meet the tolerance", base + [nz, z3.Not(meets)], replay, timeout=60000)
            chk.prove_z3(f"{lab}: a zero state is accepted only without error", base + [z3.Not(nz), z3.Or(*[b != 0 for b in B])], replay)
        else:
            chk.prove_z3(f"{lab}: rejected steps miss the tolerance", base + [nz, meets], replay, timeout=60000)
        chk.reachable(lab, c)
    if seen != {True, False} and not chk.violations:
        chk.reach_failed.append(lab)


def nonfinite(chk, name):
    pk = shim.fresh()
    lab = f"{name} non-finite"
    replay = ("nonfinite", dict(solver=name))
    old = F.SORT
    F.set_sort(z3.FPSort(5, 6))
    try:

        def fn(c):
            s = lin2(pk, name)
            s.MAX_LOOPS = 0
            u = [F.sym(f"u{i}", True, False) for i in range(2)]
            e = [F.sym(f"e{i}", True, False) for i in range(2)]
            s.config.epsilon, s.config.adapt_cutoff, s.config.safety_f = 0.25, 0.125, 0.75
            s._update_stages = lambda uu, hh, *_, **__: (arr(u, "f"), arr(e, "f"))
            hin = 1.0
            try:
                r = s.step(arr(u, "f"), hin)
            except Exception as ex:
                if type(ex).__name__ != "MaxLoopsExceeded":
                    raise
                r = None
            return r, u, e

        acc = 0
        for c, r, ex in chk.paths(fn, None, 4000):
            if ex is not None:
                chk.path_fails(f"{lab}: raised {ex!r}", c, replay, repr(ex))
                continue
            res, u, e = r
            if res is None:
                continue
            acc += 1
            fin = [z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e))) for x in u]
            chk.prove_z3(f"{lab}: accepted states are finite", list(c.pc) + [z3.Not(z3.And(*fin))], replay)
            mx = F.fmax(F.FP(z3.fpAbs(u[0].e)), F.FP(z3.fpAbs(u[1].e))).e
            for i in range(2):
                # modes at the maximum are always above the cutoff
                top = z3.And(z3.fpEQ(z3.fpAbs(u[i].e), mx), z3.Not(z3.fpIsZero(mx)))
                bad = z3.Or(z3.fpIsNaN(e[i].e), z3.fpIsInf(e[i].e))
                chk.prove_z3(f"{lab}: a non-finite estimate of a dominant mode is never accepted", list(c.pc) + [top, bad], replay)
            st, h1, h2 = res
            for nm, v in (("step", h1), ("suggestion", h2)):
                x = F.val(v)
                chk.prove_z3(f"{lab}: accepted {nm} finite and positive", list(c.pc) + [z3.Not(z3.And(z3.fpGT(x, F.val(0.0)), z3.Not(z3.fpIsInf(x))))], replay)
            chk.reachable(lab, c)
        if not acc and not chk.violations:
            chk.reach_failed.append(lab)
    finally:
        F.set_sort(old)


# ------------------------------------------------------------------ P13
def P13(chk):
    chk.encoded("rkstiff.solveras.BaseSolverAS.evolve")
    K = 5 if chk.thorough else 4
    chk.bound(f"at most {K} steps in real arithmetic; at most 2 steps in IEEE arithmetic of a reduced format ({'5-bit exponent, 6' if chk.thorough else '4-bit exponent, 5'}-bit significand): every start, end, step and suggestion of the format")
    chk.bound("store_freq 1..3, storage off; h_init arbitrary or default; every step result with 0 < h <= suggested step and positive next suggestion")
    chk.assumption("a step returns at most the suggested step size and a positive next suggestion (P12), and advances the time variable (h not below half an ulp of t)")
    chk.assumption("the default initial step is run with the controller free to return any suggestion, so few steps suffice")
    chk.bound("evolutions of about 105 and 205 steps with a constant step and an arbitrary other suggestion after the 100th step, arbitrary start, end and step")
    tasks = [(evolve_fp, (2, *((5, 6) if chk.thorough else (4, 5))), {})]
    tasks += [(evolve_long, (name, n), {}) for name, n in (("IF34", 205), ("ETD35", 105), ("ETD34", 105), ("IF45DP", 105))]
    for cfg in ([dict(sf=1), dict(sf=2), dict(sf=3), dict(sf=1, store=False), dict(sf=1, default=True), dict(sf=1, back=True)]):
        tasks.append((evolve_real, (K if cfg.get("sf") == 1 and not cfg.get("default") else K - 1,), cfg))
    tasks += [(evolve_real, (2,), dict(sf=1, name=name)) for name in AS if name != "IF34"]
    tasks.append((bad_h, (), {}))
    chk.parallel(tasks)


def evolve_long(chk, name, n):
    """more steps than the progress report interval; the suggestion changes once"""
    pk = shim.fresh()
    lab = f"{name} evolve of about {n} steps"
    replay = ("evolve_as_long", dict(solver=name, n=n))

    def fn(c):
        t0, hi, r, g = c.sym("t0"), c.sym("hi", pos=True), c.sym("r", pos=True), c.sym("g", pos=True)
        c.pc += [("<=", r - hi), (">=", r - hi * Fraction(1, 10)), (">=", g - hi * Fraction(1, 2)), ("<=", g - hi * 2)]
        tf = t0 + hi * (n - 1) + r
        s = lin2(pk, name)
        calls, T = [], Tokens(c)

        def step(u, h):
            k = len(calls) + 1
            if k > n + 8:
                raise RuntimeError("more steps than expected")
            calls.append((T.of(u), Poly.lift(h)))
            return T("s", k), h, g if k == 100 else hi

        s.step = step
        res = T.of(s.evolve(T("u0"), t0, tf, hi, store_freq=20))
        return t0, hi, g, tf, calls, res, list(s.t), [T.of(x) for x in s.u]

    seen = set()

    def eq(what, c, a, b):
        k = (Poly.lift(a).key(), Poly.lift(b).key())
        if k[0] != k[1] or k not in seen:
            seen.add(k)
            chk.equal(f"{lab}: {what}", c, a, b, replay)

    cnt = 0
    for c, r, e in chk.paths(fn, None, 100):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        t0, hi, g, tf, calls, res, ts, us = r
        N = len(calls)
        ids = ["u0"] + [("s", k) for k in range(1, N + 1)]
        tc, wt = Poly.lift(t0), [t0]
        chk.holds(f"{lab}: states are passed on, the last one is returned", [x[0] for x in calls] == ids[:-1] and res == ids[-1], replay)
        for k, (u, h) in enumerate(calls, 1):
            if k < N - 1:
                eq(f"step {k} is the suggestion", c, h, g if k == 101 else hi)
            else:
                chk.refute(f"{lab}: last steps do not overshoot", c, [(">", tc + h - tf)], replay)
                chk.refute(f"{lab}: last steps positive", c, [("<=", h)], replay)
            tc = tc + h
            if k % 20 == 0:
                wt.append(tc)
        eq("ends at the final time", c, tc, tf)
        if chk.holds(f"{lab}: stored states", us == ids[::20] and len(ts) == len(wt), replay):
            for x, y in zip(ts, wt):
                eq("stored times", c, x, y)
        chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


def evolve_real(chk, K, sf=1, store=True, default=False, back=False, name="IF34"):
    pk = shim.fresh()
    lab = f"{name} evolve store_freq={sf} store={store} default={default} empty={back}"
    replay = ("evolve_as", dict(sf=sf, store=store, default=default, back=back, solver=name))

    def fn(c):
        t0, tf, hi = c.sym("t0"), c.sym("tf"), c.sym("hi", pos=True)
        c.pc.append(("<=" if back else ">", tf - t0))
        s = lin2(pk, name)
        s.t, s.u = ["stale"], ["stale"]
        calls, T = [], Tokens(c)

        def step(u, h):
            k = len(calls)
            if k >= K:
                raise explore.PathAbort()
            hk, hs = c.sym(f"h{k}", pos=True), c.sym(f"hs{k}", pos=True)
            h = Poly.lift(h)
            explore.assume(c, "<=", hk - h)
            calls.append((T.of(u), h, hk, hs))
            return T("s", k), hk, hs

        s.step = step
        kw = {} if default else {"h_init": hi}
        r = s.evolve(T("u0"), t0, tf, store_data=store, store_freq=sf, **kw)
        return calls, list(s.t), [T.of(x) for x in s.u], T.of(r), t0, tf, hi

    n = 0
    for c, r, e in chk.paths(fn, None, 20000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        n += 1
        calls, ts, us, res, t0, tf, hi = r
        tc, prev = Poly.lift(t0), "u0"
        wt, wu = ([t0], ["u0"]) if store else ([], [])
        span = tf - t0
        for k, (u, h, hk, hs) in enumerate(calls):
            if not chk.holds(f"{lab}: step {k} starts from the previous state", u == prev, replay):
                break
            chk.refute(f"{lab}: step {k} positive", c, [("<=", h)], replay)
            chk.refute(f"{lab}: step {k} does not overshoot", c, [(">", tc + h - tf)], replay)
            sug = (span * Fraction(1, 100) if default else hi) if k == 0 else calls[k - 1][3]
            chk.refute(f"{lab}: step {k} uses the suggestion when it fits", c, [("<=", tc + sug - tf), ("!=", h - sug)], replay)
            chk.refute(f"{lab}: step {k} is cut to the remaining time", c, [(">", tc + sug - tf), ("!=", h - (tf - tc))], replay)
            chk.refute(f"{lab}: no step after the end", c, [(">=", tc - tf)], replay)
            tc = tc + hk
            prev = ("s", k)
            if store and (k + 1) % sf == 0:
                wt.append(tc)
                wu.append(prev)
        if back:
            chk.holds(f"{lab}: nothing to do for an empty span", not calls, replay)
        else:
            chk.refute(f"{lab}: ends at the final time", c, [("!=", tc - tf)], replay)
        chk.holds(f"{lab}: returns the last state", res == prev, replay)
        if chk.holds(f"{lab}: stored states", us == wu and len(ts) == len(wt), replay):
            for a, b in zip(ts, wt):
                chk.equal(f"{lab}: stored times", c, a, b, replay)
        if n % 9 == 1:
            chk.reachable(lab, c)
    if not n and not chk.violations:
        chk.reach_failed.append(lab)


def bad_h(chk):
    """non-positive, NaN initial steps are refused"""
    pk = shim.fresh()
    replay = ("bad_hinit", {})
    for kind in ("real", "nan"):

        def fn(c):
            t0, tf = c.sym("t0"), c.sym("tf")
            hi = NAN
            if kind == "real":
                hi = c.sym("hi")
                c.pc.append(("<=", hi))
            c.pc.append((">", tf - t0))
            s = lin2(pk, "IF34")
            cnt = []

            def step(u, h):
                cnt.append(1)
                if len(cnt) > 2:
                    raise RuntimeError("stepping with a non-positive initial step")
                return u, h, h

            s.step = step
            s.evolve(Tokens(c)("u0"), t0, tf, h_init=hi)

        for c, r, e in chk.paths(fn, None, 50):
            lab = f"evolve with {kind} h_init"
            if isinstance(e, ValueError):
                chk.holds(f"{lab}: refused", True, replay)
            else:
                chk.path_fails(f"{lab}: {'accepted' if e is None else repr(e)}", c, replay)
            chk.reachable(lab, c)


def evolve_fp(chk, K, eb, sb):
    old = F.SORT
    F.set_sort(z3.FPSort(eb, sb))
    try:
        _evolve_fp(chk, K, sb)
    finally:
        F.set_sort(old)


def _evolve_fp(chk, K, sb):
    pk = shim.fresh()
    replay = ("evolve_as", dict(sf=1, store=True, default=False, back=False))
    lab = f"evolve {sb}-bit floats"
    zero = F.val(0.0)
    big0 = {5: 1000.0, 4: 30.0, 3: 4.0}.get(F.SORT.ebits(), 1e15)

    def fn(c):
        t0, tf, hi = F.sym("t0"), F.sym("tf"), F.sym("hi")
        for v in (t0, tf, hi):
            c.pc.append(z3.fpLEQ(z3.fpAbs(v.e), F.val(big0)))
        c.pc += [z3.fpGT(hi.e, zero), z3.fpLT(t0.e, tf.e)]
        s = lin2(pk, "IF34")
        calls, T = [], Tokens(c)

        def step(u, h):
            k = len(calls)
            h = F.FP(F.val(h))
            if k >= K:
                raise explore.PathAbort()
            hk, hs = F.sym(f"h{k}"), F.sym(f"hs{k}")
            tc = calls[-1][4] if calls else t0.e
            tn = z3.fpAdd(F.RNE, tc, hk.e)
            c.pc += [z3.fpGT(hk.e, zero), z3.fpLEQ(hk.e, h.e), z3.fpGT(hs.e, zero), z3.fpGT(tn, tc)]
            calls.append((u, h, hk, hs, tn))
            return T("s", k), hk, hs

        s.step = step
        r = s.evolve(T("u0"), t0, tf, hi)
        return calls, list(s.t), t0, tf

    n = 0
    tol = F.val(2.0 ** -(sb - 2))
    for c, r, e in chk.paths(fn, None, 200, feas_timeout=8000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        n += 1
        calls, ts, t0, tf = r
        dec = lambda m: {nm: F.model_float(m, z3.FP(nm, F.SORT)) for nm in ["t0", "tf", "hi"] + [f"h{k}" for k in range(K)] + [f"hs{k}" for k in range(K)]}
        big = F.fmax(abs(t0), abs(tf)).e
        if not calls:
            chk.prove_z3(f"{lab}: some step is made", list(c.pc), replay, 60000, dec)
            continue
        for k, (u, h, hk, hs, tn) in enumerate(calls):
            chk.prove_z3(f"{lab}: step {k} of {len(calls)} positive", list(c.pc) + [z3.Not(z3.fpGT(h.e, zero))], replay, 120000, dec)
        end = F.val(ts[-1])
        chk.prove_z3(f"{lab}: {len(calls)} steps end at the final time up to rounding", list(c.pc) + [z3.Not(z3.And(z3.fpGEQ(end, tf.e), z3.fpLEQ(z3.fpSub(F.RNE, end, tf.e), z3.fpMul(F.RNE, tol, big))))], replay, 120000, dec)
        chk.reachable(lab, c)
    if not n and not chk.violations:
        chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P14
def P14(chk):
    chk.encoded("rkstiff.solvercs.BaseSolverCS.evolve")
    K = 24 if chk.thorough else 8
    chk.bound(f"at most {K} steps; start, end and step arbitrary doubles as rounded reals (each operation off by at most 2^-53 relative), |t0|,|tf| <= 1e6 h; store_freq 1..3, storage off")
    chk.bound("non-positive, NaN and too large steps: unbounded")
    chk.assumption("no overflow or underflow in the time arithmetic")
    chk.assumption("the rounding model contains every double execution; a counterexample counts only if the real code reproduces it")
    chk.bound("about 105 steps (205 in thorough), stored every 20th step; ETD4 and ETD5 up to 4 steps")
    tasks = [(evolve_cs, (K if cfg["sf"] == 1 else min(K, 8),), cfg) for cfg in (dict(sf=1), dict(sf=2), dict(sf=3), dict(sf=1, store=False))]
    tasks += [(evolve_cs, (110, 20, True), dict(exact_n=105))] + ([(evolve_cs, (210, 20, True), dict(exact_n=205))] if chk.thorough else [])
    tasks += [(evolve_cs, (4, 1, True), dict(name=name)) for name in ("ETD4", "ETD5")]
    tasks += [(cs_refuse, (name,), {}) for name in CS]
    chk.parallel(tasks)


def csol(pk, name="IF4"):
    return cls(pk, name)(np.array([-1.0, -2.0]), lambda x: x)


def evolve_cs(chk, K, sf, store=True, exact_n=None, name="IF4"):
    pk = shim.fresh()
    lab = f"{name} evolve store_freq={sf} store={store}" + (f" about {exact_n} steps" if exact_n else "")
    replay = ("evolve_cs", dict(sf=sf, store=store, solver=name))

    def fn(c):
        t0, tf, h = F.rsym("t0"), F.rsym("tf"), F.rsym("h")
        c.intmax = K + 2
        c.pc += [h.e > 0, t0.e <= 10**6 * h.e, t0.e >= -(10**6) * h.e, tf.e <= 10**6 * h.e, tf.e >= -(10**6) * h.e]
        c.pc.append(tf.e - t0.e >= h.e * (1 + z3.Q(1, 10**7)))
        if exact_n:
            c.pc += [tf.e - t0.e >= h.e * z3.Q(10 * exact_n - 2, 10), tf.e - t0.e <= h.e * z3.Q(10 * exact_n + 2, 10)]
        s = csol(pk, name)
        s.t, s.u = ["stale"], ["stale"]
        calls, T = [], Tokens(c)

        def step(u, hh):
            k = len(calls)
            if k >= K:
                raise explore.PathAbort()
            calls.append((T.of(u), hh))
            return T("s", k)

        s.step = step
        r = s.evolve(T("u0"), t0, tf, h, store_data=store, store_freq=sf)
        return calls, list(s.t), [T.of(x) for x in s.u], T.of(r), t0, tf, h

    n = 0
    for c, r, e in chk.paths(fn, None, 20000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        n += 1
        calls, ts, us, res, t0, tf, h = r
        N = len(calls)
        pc = list(c.pc)
        eps = z3.Q(1, 10**6)
        prev, wu, wk = "u0", ["u0"] if store else [], [0] if store else []
        for k, (u, hh) in enumerate(calls):
            if not chk.holds(f"{lab}: step {k} starts from the previous state", u == prev, replay):
                break
            chk.prove_z3(f"{lab}: step {k} has the requested size", pc + [F.RF.lift(hh) != h.e], replay)
            prev = ("s", k)
            if store and (k + 1) % sf == 0:
                wu.append(prev)
                wk.append(k + 1)
        chk.prove_z3(f"{lab}: {N} steps reach the final time", pc + [t0.e + N * h.e < tf.e - eps * h.e], replay)
        if N:
            chk.prove_z3(f"{lab}: {N} steps, no step after the final time", pc + [t0.e + (N - 1) * h.e >= tf.e], replay)
        chk.holds(f"{lab}: returns the last state", res == prev, replay)
        if chk.holds(f"{lab}: stored states", us == wu and len(ts) == len(wk), replay):
            ab = lambda x: z3.If(x >= 0, x, -x)
            for a, k in zip(ts, wk):
                x = t0.e + k * h.e
                d = F.RF.lift(a) - x
                # two roundings: k*h and the sum
                lim = F.U53 * (ab(x) + ab(k * h.e)) * z3.Q(11, 10)
                chk.prove_z3(f"{lab}: stored time is t0 + k*h up to two roundings", pc + [z3.Or(d > lim, d < -lim)], replay)
        if n % 3 == 1:
            chk.reachable(lab, c)
    if not n and not chk.violations:
        chk.reach_failed.append(lab)


def cs_refuse(chk, name):
    pk = shim.fresh()
    replay = ("bad_cs_h", dict(solver=name))
    for kind in ("nonpositive", "nan", "infinite", "toolarge", "fits"):

        def fn(c):
            t0, tf = F.rsym("t0"), F.rsym("tf")
            h = NAN if kind == "nan" else INF if kind == "infinite" else F.rsym("h")
            if kind in ("nan", "infinite"):
                c.pc.append(tf.e > t0.e)
            elif kind == "nonpositive":
                c.pc.append(h.e <= 0)
            else:
                c.pc += [h.e > 0, t0.e <= 10**6 * h.e, t0.e >= -(10**6) * h.e, tf.e <= 10**6 * h.e, tf.e >= -(10**6) * h.e]
                if kind == "toolarge":
                    c.pc.append(h.e > (tf.e - t0.e) + h.e * z3.Q(1, 10**7))
                else:
                    c.pc.append(h.e <= (tf.e - t0.e))
                    c.pc.append(2 * h.e >= (tf.e - t0.e))
            s = csol(pk, name)
            cnt = []

            def step(u, hh):
                cnt.append(1)
                if len(cnt) > 3:
                    raise RuntimeError("evolution does not end")
                return u

            s.step = step
            s.evolve(Tokens(c)("u0"), t0, tf, h)

        n = 0
        for c, r, e in chk.paths(fn, None, 50):
            lab = f"evolve with a {kind} step"
            n += 1
            if kind == "fits":
                if e is None:
                    chk.holds(f"{lab}: accepted", True, replay)
                else:
                    chk.path_fails(f"{lab}: {e!r}", c, replay)
            elif isinstance(e, ValueError):
                chk.holds(f"{lab}: refused", True, replay)
            else:
                chk.path_fails(f"{lab}: {'accepted' if e is None else repr(e)}", c, replay)
            chk.reachable(lab, c)
        if not n and not chk.violations:
            chk.reach_failed.append(kind)
