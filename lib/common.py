"""Check framework: obligations, solver verdicts, replays, evidence."""
from __future__ import annotations
from fractions import Fraction
import json, os, subprocess, sys, time, traceback
import numpy as np
import z3
from . import poly as P, symarr as S, shim, explore
from .poly import Poly, EngineError
from .explore import STATS, Inconclusive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REAL_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def hsym():
    return Poly({((0, 1),): Fraction(1)})


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.bounds = []
        self.assumptions = []
        self.functions = []
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.reach = 0
        self.reach_failed = []
        self.nreplay = 0
        self.known = load_known()
        self.known_hit = []
        self.validated = 0
        self.groups = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def finding(self, fid):
        for k in self.known["findings"]:
            if k["id"] == fid and k["property"] == self.pid:
                return k
        return None

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def assumption(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def encoded(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    # ------------------------------------------------------------ obligations
    def _note(self, label, verdict, size):
        g = label.split(":")[0]
        d = self.groups.setdefault(g, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        if verdict == "unsat":
            d["discharged"] += 1
            STATS.discharged += 1
        STATS.obligations += 1
        if len(self.samples) < 12 and (STATS.obligations % 7 == 1):
            self.samples.append({"obligation": label, "verdict": verdict, "terms": size})

    def _cross(self, fmls):
        STATS.cross_n = getattr(STATS, "cross_n", 0) + 1
        if STATS.cross_n % explore.CROSS_EVERY == 1 and STATS.cross < 8:
            r = explore.cross_check(fmls)
            if r is not None:
                STATS.cross += 1
                STATS.cross_agree += bool(r)
                if r is False:
                    raise Inconclusive("cvc5 disagrees with z3")

    def _seen(self, replay):
        f = os.environ.get("VERIF_DUMP_REPLAYS")
        if f and replay is not None:
            x = json.dumps([self.pid, replay[0], replay[1]], sort_keys=True, default=str)
            if x not in _SEEN:
                _SEEN.add(x)
                with open(f, "a") as g:
                    g.write(x + "\n")

    def refute(self, label, ctx, conds, replay, timeout=None):
        """conds: conjunction whose satisfiability (with the path condition) is a violation"""
        self._seen(replay)
        fm, enc = explore.formula(ctx.pc + conds, ctx)
        r, m = explore.check(fm, timeout)
        self._note(label, r, len(fm))
        if r == "unsat":
            self._cross(fm)
            return True
        if r == "unknown":
            return self._unknown(label, replay)
        vals = model_values(m, ctx, enc)
        self.report(label, vals, replay)
        return False

    def _unknown(self, label, replay):
        # a solver timeout is never a pass; the concrete replay may still exhibit the failure
        if replay is not None and self._replay(label, {}, replay):
            return False
        self.inconclusive.append(label)
        return False

    def equal(self, label, ctx, a, b, replay, tol=1e-9, box=1.0, timeout=None):
        """obligation: a == b for all values under the path condition"""
        self._seen(replay)
        a, b = Poly.lift(a), Poly.lift(b)
        d = a - b
        if a.exact() and b.exact():
            if not d.t and any(abs(e) > 40 or Fraction(e).denominator > 4 for m in a.t for _, e in m):
                # high powers of one quantity: every monomial is a free variable (proves more)
                vs = {m: (z3.Real(f"m{k}r"), z3.Real(f"m{k}i")) for k, m in enumerate({**a.t, **b.t})}
                q = lambda x: explore.rat(x)
                side = lambda p: [z3.Sum([t for m, c in p.t.items() for t in f(*map(q, P.c_re_im(c)), *vs[m])] or [z3.RealVal(0)]) for f in (lambda r, i, x, y: (r * x, -i * y), lambda r, i, x, y: (r * y, i * x))]
                (ar, ai), (br, bi) = side(a), side(b)
                fm = [z3.Or(ar != br, ai != bi)]
                r, m = explore.check(fm, timeout)
                self._note(label, r, len(a.t) + len(b.t))
                if r == "unsat":
                    self._cross(fm)
                    return True
            if len(a.t) + len(b.t) <= 1500:
                # both sides as the solver sees them
                saveT, ctx.T = ctx.T, None
                try:
                    need = Poly({})
                    mono = _clear_mono(list(a.t) + list(b.t), ctx)
                    a2, b2 = a * mono, b * mono
                finally:
                    ctx.T = saveT
                enc = explore.Enc(ctx, [a2, b2] + [c[1] for c in ctx.pc if isinstance(c, tuple) and d.t])
                ar, ai = enc.poly(a2)
                br, bi = enc.poly(b2)
                z = z3.RealVal(0)
                goal = z3.Or(ar != br, (ai if ai is not None else z) != (bi if bi is not None else z))
                if not d.t:
                    fm = [goal]
                    r, m = explore.check(fm, timeout)
                    if r == "unknown":
                        r, m = explore.check([z3.Not(z3.BoolVal(True))])
                    self._note(label, r, len(a.t) + len(b.t))
                    if r == "unsat":
                        self._cross(fm)
                        return True
                pc, _ = explore.formula(ctx.pc, ctx)
                fm = pc + enc.defs + [goal]
                for i in d.atoms():
                    at = ctx.atoms[i]
                    if not at.pos and any(e < 0 for mm in d.t for j, e in mm if j == i):
                        vr, vi = enc.var(i)
                        fm.append(vr != 0 if vi is None else z3.Or(vr != 0, vi != 0))
                r, m = explore.check(fm, timeout)
                self._note(label, r, len(a.t) + len(b.t))
                if r == "unsat":
                    self._cross(fm)
                    return True
                if r == "unknown":
                    return self._unknown(label, replay)
                self.report(label, model_values(m, ctx, enc), replay)
                return False
            return self.refute(label, ctx, [("!=", d)], replay, timeout)
        got = self._boxed(label, _eliminate(d, ctx) if d.t else d, tol, box, timeout)
        if got is True:
            return True
        if got == "unknown":
            return self._unknown(label, replay)
        self.report(label, {}, replay)
        return False

    def _boxed(self, label, d, tol, box, timeout):
        """float-contaminated constants: bounded-box query, monomials relaxed to [-1,1]"""
        vs = {}
        re, im = [], []
        slack = 0.0  # terms below rounding noise and coefficient rounding, moved outward into one slack variable
        for k, (m, c) in enumerate(d.t.items()):
            cr, ci = (float(x) for x in P.c_re_im(c))
            f = box ** float(sum(abs(e) for i, e in m if i != 0)) if box != 1.0 else 1.0
            cr, ci = cr * f, ci * f
            if abs(cr) + abs(ci) < tol * 1e-2:
                slack += abs(cr) + abs(ci)
                continue
            g = tol * 1e-4
            qr, qi = round(cr / g), round(ci / g)
            slack += 2 * g
            cr, ci = Fraction(qr) * Fraction(g).limit_denominator(10**18), Fraction(qi) * Fraction(g).limit_denominator(10**18)
            if m == ():
                vr, vi = z3.RealVal(1), z3.RealVal(0)
            else:
                vr, vi = z3.Real(f"m{k}"), z3.Real(f"im m{k}")
                vs[k] = (vr, vi)
            re.append(explore.rat(cr) * vr - explore.rat(ci) * vi)
            im.append(explore.rat(ci) * vr + explore.rat(cr) * vi)
        sv = z3.Real("slack")
        vs["s"] = (sv, sv)
        re.append(explore.rat(Fraction(slack).limit_denominator(10**24) + Fraction(1, 10**24)) * sv)
        im.append(re[-1])
        R = z3.Sum(re) if re else z3.RealVal(0)
        I = z3.Sum(im) if im else z3.RealVal(0)
        t = explore.rat(Fraction(tol).limit_denominator(10**18))
        fm = [z3.And(v >= -1, v <= 1) for p in vs.values() for v in p] + [z3.Or(R > t, R < -t, I > t, I < -t)]
        r, m = explore.check(fm, timeout)
        self._note(label, r, len(d.t))
        if r == "unsat":
            self._cross(fm)
            return True
        return "unknown" if r == "unknown" else None

    def prove_z3(self, label, fmls, replay, timeout=None, decode=None):
        """fmls: conjunction that must be unsatisfiable"""
        self._seen(replay)
        for last in (0, 4, 12):
            part = explore.cone(fmls, last)
            if part is None:
                break
            if explore.check(part, 3000)[0] == "unsat":
                self._note(label, "unsat", len(part))
                self._cross(part)
                return True
        r, m = explore.check(fmls, timeout)
        self._note(label, r, len(fmls))
        if r == "unsat":
            self._cross(fmls)
            return True
        if r == "unknown":
            return self._unknown(label, replay)
        self.report(label, decode(m) if decode else {str(d): str(m[d]) for d in m.decls()[:40]}, replay)
        return False

    def holds(self, label, cond, replay, vals=None):
        """an outcome fixed on a symbolic path (exception type, count, identity): the path's feasibility is the solver's verdict"""
        self._seen(replay)
        self._note(label, "unsat" if cond else "sat", 1)
        if not cond:
            self.report(label, vals or {}, replay)
        return bool(cond)

    def path_fails(self, label, ctx, replay, what=""):
        """a feasible symbolic path that violates the property by its shape"""
        r, m = explore.check(explore.formula(ctx.pc, ctx)[0])
        if r == "unsat":
            return self.holds(label, True, replay)
        vals = {}
        if r == "sat":
            fm, enc = explore.formula(ctx.pc, ctx)
            vals = model_values(m, ctx, enc)
        self._note(label, "sat", 1)
        vals["_what"] = what
        self.report(label, vals, replay)
        return False

    def reachable(self, label, ctx, conds=()):
        """vacuity twin: on some path of this label the condition must be satisfiable at the
        assertion (a branch the solver could not decide in time may lead to an empty path)"""
        fm, _ = explore.formula(list(ctx.pc) + list(conds), ctx)
        r, _m = explore.check(fm)
        self.reach += 1
        ok = self.__dict__.setdefault("_reach_ok", set())
        if r != "unsat":
            ok.add(label)
            self.reach_failed = [x for x in self.reach_failed if x != label]
        elif label not in ok and label not in self.reach_failed:
            self.reach_failed.append(label)

    def paths(self, fn, T=None, max_paths=64, **kw):
        """feasible paths of fn; stops early once a violation has been confirmed"""
        n0 = len(self.violations)
        for x in explore.Explorer(T, max_paths=max_paths, **kw).run(fn):
            yield x
            if len(self.violations) > n0:
                return

    # ------------------------------------------------------------ violations
    def report(self, label, vals, replay):
        key = (replay[0] if replay else "", json.dumps(replay[1], sort_keys=True, default=str) if replay else label)
        if any(v["key"] == key for v in self.violations):
            return
        if getattr(self, "_norep", None) is None:
            self._norep = {}
        if key in self._norep and self._norep[key] >= 3:
            self.inconclusive.append(f"{label}: solver counterexample did not reproduce on the real code")
            return
        path = self._replay(label, vals, replay)
        if path:
            self.violations.append({"label": label, "path": path, "vals": vals, "key": key})
        else:
            self._norep[key] = self._norep.get(key, 0) + 1
            self.inconclusive.append(f"{label}: solver counterexample did not reproduce on the real code ({vals})")

    def _replay(self, label, vals, replay, path=None):
        if replay is None:
            return None
        name, params = replay
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        self.nreplay += 1
        path = path or os.path.join(d, f"{self.pid}_{getattr(self, 'prefix', '')}{self.nreplay}.py")
        params = dict(params)
        params["model"] = vals
        with open(path, "w") as f:
            f.write(
                f'"""Replay for property {self.pid}: {label}\nExit 1: the violation reproduces on the real code.  Exit 0: it does not."""\n'
                f"import sys, json\nsys.path[:0] = [{os.path.join(VERIF, 'lib')!r}, {shim.REPO!r}]\nimport replays\n"
                f"sys.exit(replays.main({name!r}, json.loads({json.dumps(json.dumps(params, default=str))})))\n"
            )
        try:
            r = subprocess.run([REAL_PY, "-B", path], capture_output=True, text=True, timeout=240, cwd="/tmp", env={**os.environ, "OMP_NUM_THREADS": "1"})
        except subprocess.TimeoutExpired:
            return None
        out = (r.stdout + r.stderr).strip()
        if r.returncode == 1 and "REPRODUCED" in out:
            self.last_out = out[-500:]
            print("  " + out.splitlines()[-1][:300])
            return path
        self.last_out = out[-800:]
        if r.returncode not in (0, 1):
            print(f"  replay error ({label}): {out.splitlines()[-1][:300] if out else ''}")
        return None

    def fallback(self):
        """the code could not be encoded or a query stayed open: the concrete replays of the property may still exhibit a failure"""
        L = []
        with open(os.path.join(VERIF, "known", "replays.jsonl")) as f:
            for line in f:
                pid, name, params = json.loads(line)
                if pid == self.pid:
                    L.append((name, params))
        from concurrent.futures import ThreadPoolExecutor

        end = time.time() + 200
        hits = []

        def one(i):
            if hits or time.time() > end:
                return
            name, params = L[i]
            path = os.path.join(EVID, "replays", f"{self.pid}_f{i}.py")
            p = self._replay("concrete fallback: " + name, {}, (name, params), path)
            if p:
                hits.append({"label": "code not encodable or query open; violated concretely: " + name, "path": p, "vals": {}, "key": (name, json.dumps(params, sort_keys=True))})

        with ThreadPoolExecutor(6) as ex:
            list(ex.map(one, range(len(L))))
        self.violations += hits

    # ------------------------------------------------------------ parallel groups
    def parallel(self, tasks, workers=6):
        """tasks: [(function(chk, *args, **kw), args, kw)], run in forked processes; stops at the first violation"""
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor, as_completed

        global _TASKS
        tag = getattr(self, "_tag", 0)
        _TASKS = (self, tasks)
        ex = ProcessPoolExecutor(min(workers, len(tasks)), mp_context=mp.get_context("fork"))
        try:
            fs = [ex.submit(_run_task, i, tag) for i in range(len(tasks))]
            late = False
            for f in as_completed(fs, timeout=max(1.0, self.t0 + (640 if self.tier == "quick" else 5400) - time.time())):
                try:
                    self._merge(f.result())
                except Exception as e:
                    self.inconclusive.append(f"worker failed: {type(e).__name__} {e}")
                if self.violations:
                    break
        except TimeoutError:
            late = True
            self.inconclusive.append("time budget exhausted, some groups were stopped")
        finally:
            procs = list((ex._processes or {}).values())
            if self.violations or late:
                for q in procs:
                    q.terminate()
            ex.shutdown(wait=True, cancel_futures=True)
        self._tag = tag + len(tasks)

    def _merge(self, d):
        for k, v in d["stats"].items():
            setattr(STATS, k, getattr(STATS, k, 0) + v)
        for k in ("bounds", "assumptions", "functions"):
            for x in d[k]:
                if x not in getattr(self, k):
                    getattr(self, k).append(x)
        for k in ("violations", "inconclusive", "reach_failed", "known_hit"):
            getattr(self, k).extend(d[k])
        self.samples = (self.samples + d["samples"])[:12]
        self.reach += d["reach"]
        self.nreplay += d["nreplay"]
        self.validated += d["validated"]
        for g, v in d["groups"].items():
            w = self.groups.setdefault(g, {"obligations": 0, "discharged": 0})
            for k in v:
                w[k] += v[k]
        shim.SOURCES.update(d["sources"])

    # ------------------------------------------------------------ end
    def finish(self):
        wall = time.time() - self.t0
        code = 0
        for k in sorted(set(self.known_hit)):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if not self.violations and (self.inconclusive or self.reach_failed or STATS.obligations == 0):
            self.fallback()
        if self.violations:
            code = 1
        elif self.inconclusive or self.reach_failed or STATS.obligations == 0:
            code = 2
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "Symbolic execution of the real source (re-read from /repo on this run) with solver-decided obligations; each obligation is "
                "the negated property over symbolic inputs, unsat = holds for every value within the bounds.",
                "functions_encoded": self.functions,
                "source_sha256_16": dict(shim.SOURCES),
                "bounds": self.bounds,
                "obligations": STATS.obligations,
                "discharged": STATS.discharged,
                "obligation_groups": self.groups,
                "symbolic_paths": STATS.paths,
                "infeasible_paths": STATS.infeasible,
                "solver_queries": STATS.queries,
                "solver_sat": STATS.sat,
                "solver_unsat": STATS.unsat,
                "solver_unknown": STATS.unknown,
                "solver_time_s": round(STATS.time, 3),
                "solver": f"z3 {z3.get_version_string()}",
                "cvc5_cross_checks": STATS.cross,
                "cvc5_agreements": STATS.cross_agree,
                "reachability_twins": self.reach,
                "encoding_validations_against_real_code": self.validated,
                "counterexample_replays": self.nreplay,
                "samples": self.samples,
                "inconclusive": self.inconclusive[:20],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations[:10]:
            print(f"VIOLATION property={self.pid} replay={v['path']}")
            print(f"  {v['label']}")
        if code == 2:
            for s in (self.inconclusive + [f"unreachable: {x}" for x in self.reach_failed])[:10]:
                print("INCONCLUSIVE:", s)
        print(
            f"{self.pid} {self.tier}: obligations={STATS.obligations} discharged={STATS.discharged} paths={STATS.paths} "
            f"queries={STATS.queries} solver={STATS.time:.1f}s wall={wall:.1f}s exit={code}"
        )
        return code


_TASKS = None
_SEEN = set()


def _run_task(i, tag):
    import sys

    sys.setrecursionlimit(20000)
    parent, tasks = _TASKS
    f, a, k = tasks[i]
    chk = Check(parent.pid, parent.tier, parent.seed)
    chk.prefix = f"{tag + i}_"
    STATS.__dict__.clear()
    STATS.__init__()
    try:
        f(chk, *a, **k)
    except (EngineError, Inconclusive) as e:
        traceback.print_exc()
        chk.inconclusive.append(f"{type(e).__name__}: {e}")
    except Exception as e:
        traceback.print_exc()
        chk.inconclusive.append(f"harness {type(e).__name__}: {e}")
    sys.stdout.flush()
    sys.stderr.flush()
    d = {k: getattr(chk, k) for k in ("bounds", "assumptions", "functions", "violations", "inconclusive", "reach_failed", "known_hit", "samples", "reach", "nreplay", "validated", "groups")}
    d["stats"] = {k: v for k, v in vars(STATS).items() if isinstance(v, (int, float))}
    d["sources"] = dict(shim.SOURCES)
    return json.loads(json.dumps(d, default=str))


def _clear_mono(monos, ctx):
    need = {}
    for m in monos:
        for i, e in m:
            if e < 0:
                need[i] = min(need.get(i, 0), e)
    return Poly({tuple((i, -e) for i, e in sorted(need.items())): Fraction(1)})


def model_values(m, ctx, enc):
    out = {}
    for i, (re, im) in enc.vars.items():
        a = ctx.atoms[i]
        try:
            x = m.eval(re, model_completion=True)
            v = zval(x)
            if im is not None:
                v = [v, zval(m.eval(im, model_completion=True))]
            out[a.name[:80]] = v
        except Exception:
            pass
    return out


def zval(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        return float(x.approx(12).as_fraction())
    if z3.is_int_value(x):
        return x.as_long()
    return float(str(x))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": []}


# ---------------------------------------------------------------- helpers for harnesses
def arr(xs, kind=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return S.wrap(a, kind or S.infer_kind(a))


def mat(rows, kind=None):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return S.wrap(a, kind or S.infer_kind(a))


def _eliminate(d, ctx):
    """d with the atoms fixed by linear equations of the path condition replaced (Gaussian elimination)"""
    done = []
    for op, p in [c for c in ctx.pc if isinstance(c, tuple) and c[0] == "=="]:
        p = Poly.lift(p)
        for sub in done:
            if sub.keys() & p.atoms():
                p = p.subs(sub)
        piv = [m[0][0] for m in p.t if len(m) == 1 and m[0][1] == 1 and (m[0][0] or ctx.T is None) and sum(j == m[0][0] for q in p.t for j, _ in q) == 1]
        if piv:
            i = max(piv)
            done.append({i: Poly({((i, 1),): Fraction(1)}) - p / Poly({(): p.t[((i, 1),)]})})
    for sub in done:
        if sub.keys() & d.atoms():
            d = d.subs(sub)
    return d


class Oracle:
    """uninterpreted vector function: equal arguments give equal fresh results"""

    def __init__(self, ctx, n, name="N", real=False, alias=None):
        self.ctx, self.n, self.name, self.real = ctx, n, name, real
        self.memo = {}
        self.calls = []
        self.fault = None

    def __call__(self, x):
        xs = [Poly.lift(S._py(e)) for e in S.plain(x).flat]
        k = tuple(e.key() for e in xs)
        self.calls.append(k)
        if self.fault is not None:
            self.fault(len(self.calls))
        r = self.memo.get(k)
        if r is None:
            j = len(self.memo)
            r = [self.ctx.sym(f"{self.name}{j}_{i}", real=self.real) for i in range(self.n)]
            self.memo[k] = r
        return arr(r, "f" if self.real else "c")


def elems(a):
    return [S._py(e) for e in np.asarray(S.plain(a), dtype=object).flat]
