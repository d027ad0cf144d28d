"""One-off: prints the h^5 residual polynomials of ETD5/ETD35 (finding F1). Not used by any check."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from lib import poly as P, explore, shim
from lib.common import *
from lib.methods import *
from checks.order import *

out = {}
for name in ("ETD5", "ETD35"):
    for variant in ("diag", "full"):
        d = {}
        for tree in TREES[5]:
            nodes = parse_tree(tree); n = len(nodes)
            pk = shim.fresh()
            def fn(c):
                h = hsym()
                lam = [c.sym(f"lam{i}") for i in range(n)]; u0 = [c.sym(f"u{i}") for i in range(n)]; cst = [c.sym(f"c{i}") for i in range(n)]
                if variant == "diag":
                    for l in lam: c.pc.append((">=", abs(h*l) - Poly.const(0.01)))
                N = tree_rhs(nodes, cst)
                rows = lam if variant == "diag" else full_rows(lam, n)
                s = make(pk, name, variant, arr(lam) if variant == "diag" else mat(rows, "c"), lambda x: arr(N(elems(x)), "c"), dict(ETDC, contour_points=32))
                u1, err = one_step(s, name, arr(u0, "c"), h)
                return c, rows, N, u0, elems(u1)
            for c, r, e in explore.Explorer(8 if variant == "diag" else 5).run(fn):
                if e: raise e
                _, rows, N, u0, u1 = r
                ex = taylor(c, rows, N, [Poly.lift(x) for x in u0], 5)
                for i in range(n):
                    df = Poly.lift(u1[i]).hcoef(5) - ex[i].hcoef(5)
                    t = {}
                    for m, co in df.t.items():
                        re, im = (float(x) for x in P.c_re_im(co))
                        if abs(re) + abs(im) < 1e-11: continue
                        q = Fraction(re).limit_denominator(200000)
                        if abs(float(q) - re) > 1e-11: print("?", name, variant, tree, i, re, im, file=sys.stderr)
                        t["*".join(f"{c.atoms[a].name}^{x}" for a, x in m)] = [q.numerator, q.denominator]
                    if t: d.setdefault(tree, {})[str(i)] = t
        out[f"{name}/{variant}"] = d
json.dump(out, sys.stdout, separators=(",", ":"))
