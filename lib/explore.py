"""Path exploration and solver queries (z3, with an optional cvc5 cross-check)."""
from __future__ import annotations
from fractions import Fraction
from math import lcm
import time, os
import z3
from . import poly as P
from .poly import Poly, EngineError


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.discharged = 0
        self.cross = 0
        self.cross_agree = 0


STATS = Stats()
TIMEOUT_MS = 20000
CROSS_EVERY = 40  # every n-th unsat obligation is re-checked with cvc5
_z3ver = z3.get_version_string()


class PathAbort(BaseException):
    """infeasible or pruned path"""


class Inconclusive(Exception):
    pass


def rat(c):
    if isinstance(c, Fraction):
        return z3.RatVal(c.numerator, c.denominator)
    f = Fraction(c)
    return z3.RatVal(f.numerator, f.denominator)


class Enc:
    """translates Polys of one context to z3 reals"""

    def __init__(self, ctx, polys=()):
        self.ctx = ctx
        self.den = {}
        self.defs = []
        self.seen = set()
        self.vars = {}
        for p in polys:
            self._scan(p)

    def _scan(self, p):
        for m in p.t:
            for i, e in m:
                if isinstance(e, Fraction) and e.denominator > 1:
                    self.den[i] = lcm(self.den.get(i, 1), e.denominator)
                if i not in self.seen:
                    self.seen.add(i)
                    a = self.ctx.atoms[i]
                    if a.arg is not None and a.kind in ("abs", "root", "inv"):
                        self._scan(a.arg)

    def var(self, i):
        """(re, im) of the base variable of atom i"""
        v = self.vars.get(i)
        if v is None:
            a = self.ctx.atoms[i]
            if a.kind == "sym" and a.conj is not None and a.conj.id in self.vars:
                re, im = self.vars[a.conj.id]
                v = (re, -im)
                self.vars[i] = v
                return v
            if a.kind == "exp" and not a.real:
                b = self.ctx.byname.get(P.nm("exp", a.arg.conjugate())) if hasattr(self.ctx, "byname") else None
                if b is not None and b.id in self.vars:
                    re, im = self.vars[b.id]
                    v = (re, None if im is None else -im)
                    self.vars[i] = v
                    return v
            re = (z3.Int if a.integer else z3.Real)(a.name)
            if a.integer:
                re = z3.ToReal(re)
            im = None if a.real else z3.Real("im " + a.name)
            v = (re, im)
            self.vars[i] = v
            if a.pos:
                self.defs.append(re > 0)
            elif a.nonneg:
                self.defs.append(re >= 0)
            if a.kind == "abs":
                x, y = self.poly(a.arg)
                self.defs.append(re * re == (x * x if y is None else x * x + y * y))
            elif a.kind == "root":
                x, y = self.poly(a.arg)
                if im is not None:  # principal square root of a complex value
                    self.defs += [re * re - im * im == x, 2 * re * im == (0 if y is None else y), re >= 0]
                    return v
                q = re
                for _ in range(a.extra - 1):
                    q = q * re
                self.defs.append(q == x)
            elif a.kind == "inv":
                x, y = self.poly(a.arg)
                if y is None:
                    self.defs.append(re * x == 1)
                else:
                    self.defs.append(re * x - im * y == 1)
                    self.defs.append(re * y + im * x == 0)
        return v

    def poly(self, p):
        """(re, im) z3 terms; exponents must be made nonnegative first by clear()"""
        sr, si, anyim = [], [], False
        for m, c in p.t.items():
            cr, ci = P.c_re_im(c)
            R, I = None, None  # running product
            first = True
            for i, e in m:
                D = self.den.get(i, 1)
                n = int(e * D)
                vr, vi = self.var(i)
                if n < 0:
                    if vi is not None:
                        raise EngineError("negative power of a complex atom reached the solver")
                    q = vr
                    for _ in range(-n - 1):
                        q = q * vr
                    fr, fi = z3.RealVal(1) / q, None
                else:
                    fr, fi = vr, vi
                    for _ in range(n - 1):
                        if fi is None:
                            fr = fr * vr
                        else:
                            fr, fi = fr * vr - fi * vi, fr * vi + fi * vr
                if first:
                    R, I, first = fr, fi, False
                elif fi is None:
                    R = R * fr
                    I = None if I is None else I * fr
                elif I is None:
                    R, I = R * fr, R * fi
                else:
                    R, I = R * fr - I * fi, R * fi + I * fr
            if first:
                tr, ti = rat(cr), (rat(ci) if ci != 0 else None)
            else:
                if ci == 0:
                    tr = R if cr == 1 else rat(cr) * R
                    ti = None if I is None else (I if cr == 1 else rat(cr) * I)
                else:
                    tr = rat(cr) * R - (rat(ci) * I if I is not None else 0)
                    ti = rat(ci) * R + (rat(cr) * I if I is not None else 0)
            sr.append(tr)
            if ti is not None:
                si.append(ti)
                anyim = True
        re = z3.Sum(sr) if len(sr) > 1 else (sr[0] if sr else z3.RealVal(0))
        im = None
        if anyim:
            im = z3.Sum(si) if len(si) > 1 else si[0]
        return re, im


def clear(p, ctx):
    """multiply by a monomial (positive where sign matters) to clear negative exponents"""
    need = {}
    for m in p.t:
        for i, e in m:
            if e < 0:
                need[i] = min(need.get(i, 0), e)
    if not need:
        return p
    mono = []
    for i, e in list(need.items()):
        a = ctx.atoms[i]
        if not a.real and a.kind == "sym":  # |a|^2 keeps signs
            j = P.atom_conj(a).atoms().pop()
            need[i] = need[j] = min(e, need.get(j, 0))
    for i, e in sorted(need.items()):
        k = -e
        a = ctx.atoms[i]
        if not a.pos:
            k = int(-(-k // 1))
            if k % 2:
                k += 1
        mono.append((i, k))
    saveT, ctx.T = ctx.T, None
    r = p * Poly({tuple(mono): Fraction(1)})
    ctx.T = saveT
    return r


def nonzero_guards(p, ctx, enc):
    g = []
    for i in p.atoms():
        a = ctx.atoms[i]
        if not a.pos and any(e < 0 for m in p.t for j, e in m if j == i):
            vr, vi = enc.var(i)
            g.append(vr != 0 if vi is None else z3.Or(vr != 0, vi != 0))
    return g


def _rel(re, im, rel, real=False):
    if rel in ("==", "!="):
        e = re == 0 if im is None else z3.And(re == 0, im == 0)
        return e if rel == "==" else z3.Not(e)
    if im is not None and not real:
        raise EngineError("ordering of complex symbolic values")
    return {"<": re < 0, "<=": re <= 0, ">": re > 0, ">=": re >= 0}[rel]


def formula(conds, ctx):
    """z3 conjunction for [(rel, poly) | z3 Bool]"""
    cl = []
    polys = []
    for c in conds:
        if isinstance(c, tuple):
            q = clear(c[1], ctx)
            cl.append((c[0], q, c[1]))
            polys.append(q)
        else:
            cl.append(c)
    enc = Enc(ctx, polys)
    out = []
    for c in cl:
        if isinstance(c, tuple):
            out.extend(nonzero_guards(c[2], ctx, enc))
            re, im = enc.poly(c[1])
            out.append(_rel(re, im, c[0], im is not None and c[0] not in ("==", "!=") and c[2].is_real()))
        else:
            out.append(c)
    return enc.defs + out, enc


def check(fmls, timeout=None, tactic=None):
    """z3 verdict on a list of formulas -> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    t = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    s.add(*fmls)
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    STATS.unknown += 1
    return "unknown", None


def cross_check(fmls):
    """re-discharge with cvc5; True/False/None"""
    import subprocess, tempfile, shutil

    exe = shutil.which("cvc5")
    if not exe:
        return None
    s = z3.Solver()
    s.add(*fmls)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run([exe, "--lang=smt2", "--tlimit=10000"], input=txt, capture_output=True, text=True, timeout=15)
    except Exception:
        return None
    out = r.stdout.strip().splitlines()
    if "error" in r.stdout or not out:
        return None
    return {"unsat": True, "sat": False}.get(out[0])


class Explorer:
    """DFS over branch decisions by re-execution."""

    def __init__(self, T=None, max_paths=4000, feas_timeout=3000, setup=None):
        self.T, self.max_paths = T, max_paths
        self.feas_timeout = feas_timeout
        self.setup = setup

    def run(self, fn):
        """yield (ctx, result, exception) for every feasible path of fn(ctx)"""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Inconclusive(f"path bound {self.max_paths} exceeded")
            c = P.set_ctx(P.Ctx(self.T))
            st = {"i": 0}
            memo = {}
            decisions = list(prefix)

            def branch_any(cond_true, cond_false, key, c=c, st=st, decisions=decisions, prefix=prefix, memo=memo):
                if key in memo:
                    return memo[key]
                i = st["i"]
                st["i"] += 1
                if i < len(decisions):
                    d = decisions[i]
                else:
                    ft, _ = check(formula(c.pc + [cond_true], c)[0], self.feas_timeout)
                    if ft == "unsat":
                        d = False
                        decisions.append(d)
                    else:
                        ff, _ = check(formula(c.pc + [cond_false], c)[0], self.feas_timeout)
                        if ff == "unsat":
                            d = True
                        else:
                            d = True
                            stack.append(decisions[:i] + [False])
                        decisions.append(d)
                memo[key] = d
                c.pc.append(cond_true if d else cond_false)
                return d

            NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

            def branch(rel, p, ba=branch_any):
                # canonical key
                k = p.key()
                if rel in ("!=",):
                    return not ba(("==", p), ("!=", p), ("==", k))
                if rel == "==":
                    return ba(("==", p), ("!=", p), ("==", k))
                if rel == "<":
                    return ba(("<", p), (">=", p), ("<", k))
                if rel == ">=":
                    return not ba(("<", p), (">=", p), ("<", k))
                q = -p
                kq = q.key()
                if rel == ">":
                    return ba(("<", q), (">=", q), ("<", kq))
                return not ba(("<", q), (">=", q), ("<", kq))

            def branch_z3(e, ba=branch_any):
                e = z3.simplify(e)
                if z3.is_true(e):
                    return True
                if z3.is_false(e):
                    return False
                return ba(e, z3.Not(e), ("z3", e.sexpr()))

            c.branch = branch
            c.branch_z3 = branch_z3
            c.branch_any = branch_any
            if self.setup:
                self.setup(c)
            try:
                res = fn(c)
                exc = None
            except PathAbort:
                STATS.infeasible += 1
                continue
            except (EngineError, Inconclusive, KeyboardInterrupt):
                raise
            except Exception as e:  # behaviour of the code under test
                res, exc = None, e
            STATS.paths += 1
            yield c, res, exc


def assume(c, rel, p):
    """add a constraint to the path condition (drops the path if infeasible)"""
    if isinstance(p, Poly):
        if p.is_const():
            if not P.decide(rel, p):
                raise PathAbort()
            return
        c.pc.append((rel, p))
    else:
        c.pc.append(p)


_VARS = {}


def names_of(e):
    """names of the free constants of a z3 expression"""
    k = e.get_id()
    if k in _VARS and _VARS[k][0].eq(e):
        return _VARS[k][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    _VARS[k] = (e, frozenset(out))
    return _VARS[k][1]


def cone(fmls, last=0):
    """the goal (last formula) with only the assumptions about its own constants (and those of the last assumptions) and
    about the rounded values they are computed from; None when that is everything"""
    if len(fmls) < 12 or not all(isinstance(f, z3.ExprRef) for f in fmls):
        return None
    want = set().union(*(names_of(f) for f in fmls[-1 - last :]))
    num = lambda n: int(n[3:]) if n.startswith("rnd") and n[3:].isdigit() else -1
    defs = {}  # rounded value -> the assumption that introduces it
    for f in fmls[:-1]:
        d = max(names_of(f), key=num, default="")
        if num(d) >= 0:
            defs.setdefault(d, f)
    todo = list(want)
    while todo:
        f = defs.get(todo.pop())
        if f is not None:
            new = names_of(f) - want
            want |= new
            todo += new
    part = [f for f in fmls[:-1] if names_of(f) <= want]
    return part + [fmls[-1]] if len(part) < len(fmls) - 1 else None
