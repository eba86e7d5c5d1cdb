"""Symmetric matrices for the factorization and matrix-inequality checks."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vp import gen

KINDS = ("ldl", "ldl", "ldl", "int", "real", "gram", "tilt", "block")


def sym_case(draw, n, kinds=KINDS):
    """JSON-able description of a symmetric n x n matrix (lower triangle in 'low')."""
    t = draw(st.sampled_from(kinds))
    m = n * (n + 1) // 2
    raw = gen.i16s(draw, m + n + 2)
    A = np.zeros((n, n))
    d = dict(t=t)
    if t == "ldl":
        # exact: unit lower triangular integer L, D of zeros and signed powers of two
        mode = raw[-1] % 5  # 0,1: all positive; 2: one bad pivot; 3: any; 4: many zeros
        span = (1, 1, 2, 3)[raw[-2] % 4]
        L = np.eye(n)
        k = 0
        for i in range(n):
            for j in range(i):
                L[i, j] = raw[k] % (2 * span + 1) - span
                k += 1
        D = np.array([2.0 ** (raw[m + i] % 6 - 2) for i in range(n)])
        if mode == 2:
            D[raw[0] % n] *= (0.0, -1.0)[raw[m] % 2]
        elif mode == 3:
            D = np.array([D[i] * (1.0, 1.0, -1.0, 0.0)[(raw[m + i] >> 4) % 4] for i in range(n)])
        elif mode == 4:
            D = np.array([D[i] * (1.0, 0.0, 0.0)[(raw[m + i] >> 4) % 3] for i in range(n)])
        A = (L * D) @ L.T
        d["exact"] = True
    elif t == "int":
        k = 0
        for i in range(n):
            for j in range(i):
                A[i, j] = A[j, i] = raw[k] % 5 - 2
                k += 1
            A[i, i] = raw[m - 1 - i] % 6 - 1
    elif t == "real":
        k = 0
        for i in range(n):
            for j in range(i + 1):
                A[i, j] = A[j, i] = raw[k] / 8192.0
                k += 1
        A += np.diag([abs(raw[m + i]) / 8192.0 * (raw[-1] % 3) for i in range(n)])
    elif t == "gram":
        r = max(1, n - (raw[-1] % 3))
        B = np.array([(raw * 2)[k] / 16384.0 for k in range(n * r)] if len(raw) * 2 >= n * r else [0.0] * (n * r)).reshape(n, r)
        A = B @ B.T + np.eye(n) * (0.0, 1e-3, -1e-3, 0.1)[raw[-2] % 4]
        A = (A + A.T) / 2
    elif t == "tilt":
        # positive definite except in one drawn direction
        v = np.array([raw[i] / 8192.0 for i in range(n)])
        if not np.any(v):
            v[0] = 1.0
        v /= np.linalg.norm(v)
        c = (1e-6, 1e-3, 0.1, 1.0, 10.0)[raw[-1] % 5] * (1 if raw[-2] % 2 else -1)
        A = np.eye(n) - (1.0 + c) * np.outer(v, v)
        A = (A + A.T) / 2
    else:  # block diagonal with exact zeros
        k = 0
        cut = raw[-1] % (n + 1)
        for i in range(n):
            for j in range(i):
                if (i < cut) == (j < cut) and raw[k] % 3 == 0:
                    A[i, j] = A[j, i] = raw[k] % 3 - 1 + (raw[k] >> 5) % 2
                k += 1
            A[i, i] = (0.0, 1.0, 2.0, 4.0, 4.0)[raw[m + i] % 5]
    sc = 2.0 ** (draw(st.sampled_from([0, 0, 0, -20, 20, 3])))
    A = A * sc
    d["low"] = [float(A[i, j]) for i in range(n) for j in range(i + 1)]
    return d


def units_case(draw, n):
    """Exponents of an exact change of units: D A D with D = diag(2**e) has the same definiteness, and floating
    point commutes with it (barring overflow)."""
    t = draw(st.sampled_from(["none", "none", "none", "all", "all", "each"]))
    if t == "none":
        return [0] * n
    if t == "all":
        return [draw(st.sampled_from([-10, -25, -60, -100, 12, 30, 60, 100]))] * n
    return [v % 61 - 30 for v in gen.i16s(draw, n)]


def units(A, e):
    return np.array([[np.ldexp(float(A[i, j]), e[i] + e[j]) for j in range(len(e))] for i in range(len(e))]).reshape(A.shape)


def build(d, n):
    A = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            A[i, j] = A[j, i] = d["low"][k]
            k += 1
    return A


def frac(A):
    return [[Fraction(float(v)) for v in row] for row in A]


def _small(q):
    den = q.denominator
    return den & (den - 1) == 0 and den <= 2 ** 40 and abs(q.numerator) < 2 ** 50


def ref_ldl(A, semi=False, thr=0.0):
    """The (restarting, if semi) factorization in exact arithmetic.

    Returns (accept, exact, failing range) where exact says that every intermediate value is a
    short dyadic number, so that floating point gives the same result whatever the order of operations.
    """
    F = frac(A)
    n = len(F)
    start = 0
    exact = True
    L = [[Fraction(0)] * n for _ in range(n)]
    D = [Fraction(0)] * n
    for i in range(n):
        for j in range(start, i):
            s = F[i][j]
            for k in range(start, j):
                t = L[i][k] * D[k] * L[j][k]
                s -= t
                exact = exact and _small(t) and _small(s)
            L[i][j] = s / D[j]
            exact = exact and _small(s) and _small(L[i][j])
        D[i] = F[i][i]
        for k in range(start, i):
            t = L[i][k] * D[k] * L[i][k]
            D[i] -= t
            exact = exact and _small(t) and _small(D[i])
        exact = exact and _small(D[i])
        if abs(D[i]) <= thr:
            D[i] = Fraction(0)
        if D[i] < 0 or (D[i] == 0 and not semi):
            return False, exact, (start, i + 1)
        if D[i] == 0:
            start = i + 1
    return True, exact, (0, 0)


def is_psd_exact(A):
    """Exact positive semidefiniteness (symmetric elimination; zero pivot needs a zero row)."""
    F = frac(A)
    n = len(F)
    for i in range(n):
        p = F[i][i]
        if p < 0:
            return False
        if p == 0:
            if any(F[i][j] != 0 for j in range(i + 1, n)):
                return False
            continue
        for a in range(i + 1, n):
            f = F[a][i] / p
            if f:
                for b in range(i + 1, n):
                    F[a][b] -= f * F[i][b]
    return True


def lam_min(A):
    return float(np.linalg.eigvalsh(A)[0])


def size(A):
    return float(np.max(np.abs(A))) if A.size else 0.0


def quad_exact(A, v):
    """v'Av in exact arithmetic, as a float."""
    F, w = frac(A), [Fraction(float(x)) for x in v]
    n = len(w)
    return float(sum((w[i] * F[i][j] * w[j] for i in range(n) for j in range(n) if w[i] and w[j]), Fraction(0)))


def quad_slack(A, v, rng):
    """Rounding allowance for v'Av of a witness on the block rng (error of the factors, |v|'|L||D||L'||v|)."""
    s, e = rng
    B = np.array(A[s:e, s:e], dtype=float)
    m = e - s
    L = np.eye(m)
    D = np.zeros(m)
    for i in range(m):
        for j in range(i):
            x = B[i, j] - float(np.sum(L[i, :j] * D[:j] * L[j, :j]))
            L[i, j] = x / D[j] if D[j] else 0.0
        D[i] = B[i, i] - float(np.sum(L[i, :i] ** 2 * D[:i]))
    w = np.abs(np.asarray(v, dtype=float)[s:e])
    M = np.abs(L) @ np.diag(np.abs(D)) @ np.abs(L).T
    return float(w @ M @ w) + float(w @ np.abs(B) @ w)


def as_bool(r, what):
    from vp.core import require

    require(isinstance(r, (bool, np.bool_)), "%s returned %r, not a truth value", what, r)
    return bool(r)
