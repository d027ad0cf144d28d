"""P31: a run can be shifted in time, stored differently, stopped at or restarted from any snapshot."""
import numpy as np
from lib import shim, poly as P
from lib.poly import Poly
from lib.common import *
from lib.methods import *
from .control import choose, NAN
from .steps import TolOracle
from .histories import fixed_problem, Verdicts

MODES = ("shifted in time", "stored every second step", "not stored", "stopped at a snapshot", "restarted from a snapshot", "restarted by a new solver", "split in two on one solver")


def P31(chk):
    steps = 6 if chk.thorough else 4
    chk.bound(f"runs of {steps} (adaptive: {steps + 1}) initial steps (adaptive: verdicts accept / grow / reject as an arbitrary function of state and estimate, 2 free verdicts, then accept), every start time; stopped at, or restarted from, every stored snapshot, on the same and on a new solver")
    chk.bound("runs to an earlier snapshot: those whose attempts do not cross it; arbitrary complex state and nonlinear function (one free value per distinct argument); numeric operators (diagonal with one small mode, dense, diagonalized) and step sizes")
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant), "rkstiff.solveras.BaseSolverAS.evolve" if name in AS else "rkstiff.solvercs.BaseSolverCS.evolve")
    chk.assumption("exact arithmetic for times and states")
    chk.parallel([(restart, (name, variant, mode, steps, 2), {}) for mode in range(len(MODES)) for name, variant in VARIANTS[::-1]])


def value(x):
    x = Poly.lift(x)
    return float(P.c_num(x.const_value()).real)


def crosses(tried, t, k):
    """an attempt of the long run started before snapshot k and reached beyond it"""
    j = 0
    for h in tried:
        if j >= k:
            return False
        if value(h) > value(t[k] - t[j]) + 1e-12:
            return True
        if abs(value(h) - value(t[j + 1] - t[j])) < 1e-12:
            j += 1  # a rejected attempt is strictly longer than the accepted one
    return False


def restart(chk, name, variant, mode, steps, free):
    pk = shim.fresh()
    lab = f"{name}/{variant} {MODES[mode]}"
    replay = ("restart", dict(solver=name, variant=variant))
    adaptive = name in AS

    def fn(c):
        n = 2
        L, etd = fixed_problem(name, variant)
        N = TolOracle(c, n)
        ver = Verdicts(c, free)
        u = arr([c.sym(f"u{i}", real=False) for i in range(n)], "c")
        T = c.sym("T")
        h, span = 0.25, 0.25 * steps
        if adaptive:
            h, span = 0.125, 0.125 * (steps + 1)
            ver.table = (1.0, 4.0, 0.5)

        def new():
            s = make(pk, name, variant, L, N, etd)
            if adaptive:
                s._compute_s = ver
            return s

        tried = []

        def run(s, u, t0, tf, h, **kw):
            del tried[:]
            stages = s._update_stages
            s._update_stages = lambda x, hh: (tried.append(hh), stages(x, hh))[1]
            r = s.evolve(u, t0, tf, h, **kw)
            del s._update_stages
            return elems(r), [Poly.lift(t) for t in s.t], [arr(elems(x), "c") for x in s.u]

        r, t, us = run(new(), u, T, T + span, h)
        hist = [MODES[mode]]
        if mode == 0:
            D = c.sym("D")
            r2, t2, us2 = run(new(), u, T + D, T + D + span, h)
            return r, t, us, r2, [x - D for x in t2], us2, hist
        if mode == 1:
            r2, t2, us2 = run(new(), u, T, T + span, h, store_freq=2)
            keep = [0] + [k for k in range(1, len(t)) if k % 2 == 0]
            return r, [t[k] for k in keep], [us[k] for k in keep], r2, t2, us2, hist
        if mode == 2:
            r2, t2, us2 = run(new(), u, T, T + span, h, store_data=False)
            return r, [], [], r2, t2, us2, hist
        k = choose(c, len(t) - (1 if mode == 3 else 2), "snapshot") + 1 if len(t) > 2 else 1
        hist.append(f"snapshot {k} of {len(t) - 1}")
        if k >= len(t) - (mode != 3):
            return r, t, us, r, t, us, hist  # a single step: nothing to split
        if mode in (3, 6) and crosses(list(tried), t, k):
            return r, t, us, r, t, us, hist  # an attempt beyond the earlier end would be shortened
        if mode == 3:
            r2, t2, us2 = run(new(), u, T, t[k], h)
            return elems(us[k]), t[: k + 1], us[: k + 1], r2, t2, us2, hist
        nxt = value(t[k + 1] - t[k])
        if mode == 6:
            s = new()
            a = run(s, u, T, t[k], h)
            b = run(s, a[2][-1], t[k], T + span, nxt)
            return r, t, us, b[0], a[1] + b[1][1:], a[2] + b[2][1:], hist
        s = new()
        if mode == 4:
            run(s, u, T, T + span, h)
        r2, t2, us2 = run(s, us[k], t[k], T + span, nxt)
        return r, t[k:], us[k:], r2, t2, us2, hist

    cnt = 0
    for c, out, e in chk.paths(fn, None, 4000):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        r, t, us, r2, t2, us2, hist = out
        hs = ", ".join(hist)
        if not chk.holds(f"{lab}: number of snapshots [{hs}]", len(t) == len(t2) == len(us) == len(us2), replay, {"times": [str(t), str(t2)]}):
            continue
        for k, (p, q) in enumerate(zip(t, t2)):
            chk.equal(f"{lab}: time {k} [{hs}]", c, p, q, replay)
        for i, (p, q) in enumerate(zip(r, r2)):
            chk.equal(f"{lab}: result {i} [{hs}]", c, p, q, replay)
        for k, (x, y) in enumerate(zip(us, us2)):
            for i, (p, q) in enumerate(zip(elems(x), elems(y))):
                chk.equal(f"{lab}: snapshot {k},{i} [{hs}]", c, p, q, replay)
        if cnt % 7 == 1:
            chk.reachable(lab, c)
    if not cnt and not chk.violations:
        chk.reach_failed.append(lab)


# ------------------------------------------------------------------ P32
def P32(chk):
    chk.bound("a step of length zero as first step, after an accepted step, after a rejected attempt, and twice in a row; steps of every negative length and of NaN length; then a step of ordinary length; real controller for a zero step at the start")
    chk.bound("arbitrary complex state and nonlinear function (one free value per distinct argument); numeric operators (diagonal with one small mode, dense, diagonalized)")
    for name, variant in VARIANTS:
        chk.encoded(*funcs(name, variant), "rkstiff.solveras.BaseSolverAS.step" if name in AS else "rkstiff.solvercs.BaseSolverCS.step")
    chk.assumption("exact arithmetic")
    chk.parallel([(idle, (name, variant), {}) for name, variant in VARIANTS[::-1]])


def idle(chk, name, variant):
    pk = shim.fresh()
    lab = f"{name}/{variant} zero step"
    replay = ("idle", dict(solver=name, variant=variant))
    adaptive = name in AS

    def fn(c):
        n = 2
        L, etd = fixed_problem(name, variant)
        N = TolOracle(c, n)
        u = arr([c.sym(f"u{i}", real=False) for i in range(n)], "c")
        neg = c.sym("neg")
        c.pc.append(("<", neg))
        s, f = (make(pk, name, variant, L, N, etd) for _ in range(2))

        def step(s, x, h, verdicts=(1.0,)):
            if not adaptive:
                return s.step(x, h), h, h
            it = iter(verdicts)
            s._compute_s = lambda *a, **k: next(it)
            r = s.step(x, h)
            del s._compute_s
            return r

        seq = choose(c, 4, "before")
        x = y = u
        if seq in (1, 2):
            v = (1.0,) if seq == 1 or not adaptive else (0.5, 1.0)
            x, y = step(s, x, 0.5, v)[0], step(f, y, 0.5, v)[0]
        x0 = elems(x)
        zeros, errs = [], []
        for _ in range(2 if seq == 3 else 1):
            if adaptive:
                stages = s._update_stages

                def watch(a, b):
                    r = stages(a, b)
                    errs.append(elems(r[1]))
                    return r

                s._update_stages = watch
                if seq in (1, 2):
                    s._compute_s = lambda *a, **k: 1.0
                r = s.step(x, 0.0)
                del s._update_stages
            else:
                r = s.step(x, 0.0), 0.0, 0.0
            zeros.append((elems(r[0]), r[1], r[2]))
            x = r[0]
        s.__dict__.pop("_compute_s", None)
        bad = []
        plain = make(pk, name, variant, L, lambda x: x * 0.5, etd)
        for h, t, y0 in ((neg, s, x), (NAN, plain, np.array([0.5 + 0j, 1.0]))):
            try:
                t.step(y0, h)
                bad.append("accepted")
            except AssertionError:
                bad.append("refused")
            except ValueError:
                bad.append("refused")
        got, want = step(s, x, 0.25), step(f, y, 0.25)
        return x0, zeros, errs, bad, (elems(got[0]), elems(want[0])), seq

    cnt = 0
    for c, r, e in chk.paths(fn, None, 400):
        if e is not None:
            chk.path_fails(f"{lab}: raised {e!r}", c, replay, repr(e))
            continue
        cnt += 1
        x0, zeros, errs, bad, (got, want), seq = r
        hs = ("first", "after a step", "after a rejection and a step", "twice")[seq]
        for x, h, nxt in zeros:
            for i, (p, q) in enumerate(zip(x, x0)):
                chk.equal(f"{lab} ({hs}): component {i} unchanged", c, p, q, replay)
            chk.equal(f"{lab} ({hs}): length reported", c, Poly.lift(h), Poly({}), replay)
        for x in errs:
            for i, p in enumerate(x):
                chk.equal(f"{lab} ({hs}): no error estimated, component {i}", c, p, Poly({}), replay)
        chk.holds(f"{lab} ({hs}): negative and NaN lengths refused", bad == ["refused", "refused"], replay, {"outcome": str(bad)})
        for i, (p, q) in enumerate(zip(got, want)):
            chk.equal(f"{lab} ({hs}): next step as without it, component {i}", c, p, q, replay)
        if cnt % 3 == 1:
            chk.reachable(lab, c)
    if cnt < 4 and not chk.violations:
        chk.reach_failed.append(lab)
