"""P29 ill-formed orders, shapes and lengths are refused, never broadcast."""
import itertools
import numpy as np
from lib import symarr as S, shim
from lib.common import *
from checks.functions import each, outcome


def P29(chk):
    top = 9 if chk.thorough else 7
    chk.bound(f"Fourier derivatives of 1..{top} points with wavenumber arrays of every one-dimensional size up to {top + 2}, as rows, columns and scalars; Chebyshev derivatives with matrices of every shape up to {4 if chk.thorough else 3}+1 and arrays of 0 to 3 dimensions; every negative order (unbounded integer), orders 1..3, non-integer orders; soliton lists of 0..5 amplitudes and positions; all array contents free")
    chk.encoded("rkstiff.derivatives.dx_rfft", "rkstiff.derivatives.dx_fft", "rkstiff.derivatives.dx_cheb", "rkstiff.models.kdv_multi_soliton")
    T = [(fourier_shapes, (n, real), {}) for n in range(top, 0, -1) for real in (True, False)]
    T += [(cheb_shapes, (n,), {}) for n in range(1, (4 if chk.thorough else 3) + 2)]
    T.append((soliton_lengths, (), {}))
    chk.parallel(T)


def free(c, tag, shape, kind="f"):
    a = np.empty(shape, dtype=object)
    for i in range(a.size):
        a.flat[i] = c.sym(f"{tag}{i}", real=kind != "c")
    return S.wrap(a, kind)


def judge(chk, lab, c, out, replay):
    """out: {case: (outcome, exception classes or the expected shape)}"""
    for k, ((st, v), want) in out.items():
        if isinstance(want, tuple) and want and isinstance(want[0], type):
            if st != "exc":
                chk.path_fails(f"{lab}: {k} accepted", c, replay, k)
            else:
                chk.holds(f"{lab}: {k} refused with {'/'.join(w.__name__ for w in want)}", isinstance(v, want), replay, {"raised": repr(v)})
        elif st == "exc":
            chk.path_fails(f"{lab}: {k} raised {v!r}", c, replay, k)
        else:
            chk.holds(f"{lab}: {k} gives shape {want}", np.shape(S.plain(v)) == want, replay, {"shape": str(np.shape(S.plain(v)))})


def fourier_shapes(chk, n, real):
    pk = shim.fresh()
    nm = "rfft" if real else "fft"
    lab = f"dx_{nm} of {n} points"
    replay = ("fourier_shapes", dict(n=n, real=real))
    m = n // 2 + 1 if real else n

    def fn(c):
        f = getattr(pk.derivatives, f"dx_{nm}")
        out = {}
        u = free(c, "u", (n,))
        neg = c.sym("order", integer=True)
        c.pc.append(("<", neg))
        kx = free(c, "k", (m,))
        out["negative order"] = (outcome(lambda: f(kx, u, neg)), (ValueError,))
        for bad in (1.0, "1", None, 2.5):
            out[f"order {bad!r}"] = (outcome(lambda: f(kx, u, bad)), (TypeError,))
        shapes = [(k,) for k in range(n + 3)] + [(), (1, m), (m, 1), (1, 1)]
        for sh in shapes:
            for o in (1, 2, 3):
                k = free(c, "k", sh)
                # one-point real input has no inverse of the right size in every library; only the shape rule is claimed
                if sh == (m,) and n == 1 and real:
                    continue
                out[f"wavenumbers of shape {sh}, order {o}"] = (outcome(lambda: f(k, u, o)), (n,) if sh == (m,) else (ValueError,))
        if real:
            z = free(c, "z", (n,), "c")
            for o in (0, 1, 2):
                out[f"complex input, order {o}"] = (outcome(lambda: f(kx, z, o)), (TypeError,))
        return out

    for c, out in each(chk, lab, fn, replay, 64):
        judge(chk, lab, c, out, replay)


def cheb_shapes(chk, n):
    pk = shim.fresh()
    lab = f"dx_cheb of {n} points"
    replay = ("cheb_shapes", dict(n=n))

    def fn(c):
        f = pk.derivatives.dx_cheb
        out = {}
        D = free(c, "D", (n, n))
        u = free(c, "u", (n,))
        neg = c.sym("order", integer=True)
        c.pc.append(("<", neg))
        for v, what in ((u, "vector"), (free(c, "U", (n, 2)), "matrix")):
            out[f"negative order, {what}"] = (outcome(lambda: f(D, v, neg)), (ValueError,))
            for bad in (1.0, "1", None, 2.5):
                out[f"order {bad!r}, {what}"] = (outcome(lambda: f(D, v, bad)), (TypeError,))
        for p, q in itertools.product(range(1, n + 2), repeat=2):
            M = free(c, "D", (p, q))
            for sh in [(n,), (n, 1), (n, 2), (n, n)]:
                v = free(c, "u", sh)
                for o in (1, 2, 3):
                    ok = p == q == n
                    out[f"matrix {(p, q)}, input {sh}, order {o}"] = (outcome(lambda: f(M, v, o)), sh if ok else (ValueError,))
        for sh in ((), (n, 1, 1), (n, 2, 2), (1, n, 1)):
            v = free(c, "u", sh)
            for o in (1, 2):
                out[f"input of shape {sh}, order {o}"] = (outcome(lambda: f(D, v, o)), (ValueError,))
        return out

    for c, out in each(chk, lab, fn, replay, 64):
        judge(chk, lab, c, out, replay)


def soliton_lengths(chk):
    pk = shim.fresh()
    lab = "kdv_multi_soliton lengths"
    replay = ("soliton_lengths", {})

    def fn(c):
        out = {}
        x = free(c, "x", (3,))
        for p, q in itertools.product(range(6), repeat=2):
            a = [c.sym(f"a{i}") for i in range(p)]
            b = [c.sym(f"b{i}") for i in range(q)]
            if p == 0 == q:
                continue
            out[f"{p} amplitudes, {q} positions"] = (outcome(lambda: pk.models.kdv_multi_soliton(x, a, b, c.sym("t"))), (3,) if p == q else (ValueError,))
        return out

    for c, out in each(chk, lab, fn, replay, 16):
        judge(chk, lab, c, out, replay)
