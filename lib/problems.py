"""Fixed sample problems shared by checks and replays (numpy only)."""
import numpy as np


def spectrum(n, kind="c"):
    """decaying, growing, oscillating, tiny and zero rates; |0.1 * lambda| on both sides of the cutoff ("s": all below it)"""
    out = []
    for i in range(n):
        if kind == "s":
            out.append(0.095 * np.exp(0.3j * i) * ((i % 11) / 10))
            continue
        k = i % 7
        v = [-1.0 - 0.25 * i, 0.05 + 0.001j * i, 3j + 0.5j * (i % 5), 0.0, -40.0 + 1j * i, 0.8, -0.02 * (i % 3) + 0.09j][k]
        out.append(complex(v))
    return out


def blocks_of(n, variant):
    """index blocks: single unknowns, or alternating pairs and singles"""
    if variant == "diag":
        return [[i] for i in range(n)]
    out, i = [], 0
    while i < n:
        k = 2 if len(out) % 2 and i + 2 <= n else 1
        out.append(list(range(i, i + k)))
        i += k
    return out


def block_matrix(n, B, kind):
    """block-diagonal, well conditioned, spectral radius of 0.1*L below 1/2"""
    lam = [x if abs(x) <= 4 else x / 15 for x in spectrum(n)]
    L = np.zeros((n, n), dtype=complex)
    for q, b in enumerate(B):
        if len(b) == 1:
            v = lam[b[0]] if kind == "c" else lam[b[0]].real
            L[b[0], b[0]] = v if abs(v) > 0.05 else -0.5 - 0.01 * q
        else:
            i, j = b
            L[np.ix_(b, b)] = [[-1.0 - 0.1 * q, 2.0], [-1.5, 0.25]] if q % 4 == 1 else [[-2.0, 0.5 + 0.1 * q], [0.25, -1.0]]
            if kind == "c":
                L[i, j] *= 1 + 0.5j
    return L if kind == "c" else L.real.copy()
