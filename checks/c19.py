"""C19: matrix-inequality problems are solved end to end."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c18 import make
from vp import gen, mats, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "feasible: coefficient matrices and a constant with a drawn interior point and slack, so that a ball of solutions "
    "of known radius lies in the initial ellipsoid; the search must return a point with positive semidefinite "
    "expression within ln(vol E0/vol ball)*2(n+1) cuts. infeasible: z'F_k z = 0 for all k and z'Bz < 0 for a drawn z, "
    "or contradictory blocks, or <F_k, Z> = 0 for a positive definite Z; none may be returned. optimum: linear objectives whose optimal point "
    "and multiplier are constructed; the value must be within the gap implied by the tolerance. All three oracles, "
    "both search spaces, one or two inequalities. Non-trivial: at least three cuts."
)


@st.composite
def case_(draw, lo=2, hi=4):
    n = draw(st.integers(lo, hi))
    m = draw(st.integers(lo, hi))
    return dict(
        n=n, m=m, kind=draw(st.sampled_from(["lmi", "lmi0", "old"])), space=draw(st.sampled_from(["ell", "stable"])),
        F=[gen.reals(draw, m * (m + 1) // 2, 2.0) for _ in range(n)],
        F2=[gen.reals(draw, m * (m + 1) // 2, 2.0) for _ in range(n)], two=draw(st.booleans()),
        y=gen.reals(draw, n, 1.0), s=draw(st.sampled_from([1e-3, 0.03, 0.3])), G=gen.reals(draw, m * m),
        rank=draw(st.integers(0, m - 1)), Z=gen.reals(draw, m * m), z=gen.vec(draw, m, ("dense", "int")),
        R=1.5 + 5.0 * gen.unit(draw), off=gen.reals(draw, n, 0.5), tol=draw(st.sampled_from([1e-6, 1e-8, 1e-10])),
        defer=draw(st.integers(0, 3)) == 1, far=draw(st.booleans()),
    )


def sym(low, m):
    A = np.zeros((m, m))
    k = 0
    for i in range(m):
        for j in range(i + 1):
            A[i, j] = A[j, i] = low[k]
            k += 1
    return A


def space(case, xc):
    sp = S.classes()[case["space"]](case["R"] ** 2, xc)
    if case["defer"]:
        sp.no_defer_trick = True
    return sp


class Several:
    """Feasible for all the given oracles; asks them in turn."""

    def __init__(self, oms):
        self.oms, self.calls, self.last = oms, 0, None

    def assess_feas(self, x):
        self.calls += 1
        if self.calls > 20000:
            raise script.Runaway("too many oracle calls")
        for om in self.oms:
            cut = om.assess_feas(x)
            if cut:
                self.last = cut
                return cut
        return None


def build_one(case, F, y, slack, S0):
    """(F, B or None, y) such that the expression at y is S0 (lmi0: in homogeneous form, y[0] = 1)."""
    m = case["m"]
    if case["kind"] == "lmi0":
        F = [-M for M in F]
        F[0] = S0 - sum((F[k] * y[k] for k in range(1, len(F))), np.zeros((m, m)))
        return F, None
    return F, S0 + sum((F[k] * y[k] for k in range(len(F))), np.zeros((m, m)))


def value(kind, F, B, x):
    T = sum(Fk * xk for Fk, xk in zip(F, x))
    return T if kind == "lmi0" else B - T


def run_feas(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import Options

    n, m, kind = case["n"], case["m"], case["kind"]
    y = np.array(case["y"])
    if kind == "lmi0":
        y[0] = 1.0
    G = np.array(case["G"]).reshape(m, m)
    G[:, : case["rank"]] = 0.0
    probs = []
    r = math.inf
    for Fs in ([case["F"], case["F2"]] if case["two"] else [case["F"]]):
        S0 = case["s"] * np.eye(m) + G @ G.T
        F, B = build_one(case, [sym(f, m) for f in Fs], y, case["s"], S0)
        tot = math.sqrt(sum(np.linalg.norm(M, 2) ** 2 for M in F))
        r = min(r, case["s"] / max(tot, 1e-3))
        probs.append((F, B))
    xc = y + np.array(case["off"])
    R = case["R"]
    dist = float(np.linalg.norm(y - xc))
    r = min(r, R - dist)
    if r <= 0:
        cov.tag("start too far away")
        return
    oms = [make(kind, F, B) for F, B in probs]
    om = Several(oms)
    bound = math.ceil(2.0 * (n + 1) * n * math.log(R / r)) + 2
    o = Options()
    o.max_iters = bound
    x, it = cutting_plane_feas(om, space(case, xc), o)
    require(x is not None, "%s: no point found within %d cuts although a ball of radius %g is feasible", kind, bound, r)
    x = S.as_vec(x, n, "point")
    for F, B in probs:
        M = value(kind, F, B, x)
        require(mats.lam_min(M) >= -1e-11 * (1 + mats.size(M)), "%s: the point returned has eigenvalue %g", kind,
                mats.lam_min(M))
    cov.tag(kind + " feasible")
    cov.maximum("cuts/bound", it / bound)
    if it >= 3:
        cov.nontrivial()


def run_infeas(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import Options

    n, m, kind = case["n"], case["m"], case["kind"]
    z = np.array(case["z"])
    z = z / np.linalg.norm(z)
    F = [sym(f, m) for f in case["F"]]
    xc = np.array(case["y"])
    B = None
    if kind == "lmi0":
        # <F_k, Z> = 0 for a positive definite Z: no combination is positive definite
        A = np.array(case["G"]).reshape(m, m)
        Z = A @ A.T + 0.3 * np.eye(m)
        F = [M - float(np.sum(M * Z)) / float(np.sum(Z * Z)) * Z for M in F]
        cov.tag("homogeneous")
    elif case["far"]:
        # two inequalities: z'M(x)z = -(a.x + d) and its opposite cannot both be nonnegative
        a = np.array([z @ M @ z for M in F])
        d = case["s"] + 1e-2
        F = [np.block([[M, np.zeros((m, m))], [np.zeros((m, m)), -M]]) for M in F]
        B1, B2 = sym(case["F2"][0], m), sym(case["F2"][1], m)
        e = float(a @ xc)
        B1 = B1 + (e - d - float(z @ B1 @ z)) * np.outer(z, z)
        B2 = B2 + (-e - d - float(z @ B2 @ z)) * np.outer(z, z)
        B = np.block([[B1, np.zeros((m, m))], [np.zeros((m, m)), B2]])
        cov.tag("contradictory blocks")
    else:
        F = [M - float(z @ M @ z) * np.outer(z, z) for M in F]
        B = sym(case["F2"][0], m)
        B = B - (float(z @ B @ z) + case["s"] + 1e-2) * np.outer(z, z)
        cov.tag("direction without any variable")
    om = Several([make(kind, F, B)])
    o = Options()
    o.max_iters = 3000
    try:
        x, it = cutting_plane_feas(om, space(case, xc), o)
    except ValueError:
        if om.last is not None and not np.any(om.last[0]):
            # the certificate does not involve any variable: the search space refuses a zero gradient
            cov.tag("refused: no variable matters")
            return
        raise
    if x is not None and kind == "lmi0":
        M = value(kind, F, B, S.as_vec(x, n, "point"))
        scale = sum(mats.size(Fk) * abs(xk) for Fk, xk in zip(F, x))
        if mats.lam_min(M) >= -1e-12 * scale:
            cov.tag("zero up to rounding")  # the combination vanishes: nothing but rounding errors
            return
    require(x is None, "%s: returned %s although no point satisfies the inequality", kind, x)
    cov.maximum("cuts until infeasibility", it)
    if it >= 3:
        cov.nontrivial()


class Lin:
    def __init__(self, om, c):
        self.om, self.c, self.calls, self.imp = om, c, 0, 0

    def assess_optim(self, x, gamma):
        self.calls += 1
        if self.calls > 20000:
            raise script.Runaway("too many oracle calls")
        cut = self.om.assess_feas(x)
        if cut:
            return cut, None
        f = float(self.c @ x)
        if f < gamma:
            self.imp += 1
            return (self.c.copy(), 0.0), f
        return (self.c.copy(), f - gamma), None


def run_opt(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim
    from ellalgo.ell_config import Options

    n, m = case["n"], case["m"]
    kind = "lmi" if case["kind"] == "lmi0" else case["kind"]
    F = [sym(f, m) for f in case["F"]]
    F[0] = -np.eye(m)
    y = np.array(case["y"])
    G = np.array(case["G"]).reshape(m, m)
    k = max(1, case["rank"])
    Q, _ = np.linalg.qr(G + np.eye(m) * 1.1)
    w = 0.1 + np.abs(np.array(case["Z"][:m]))
    Sy = (Q[:, k:] * w[k:]) @ Q[:, k:].T  # expression at the optimum, k zero eigenvalues
    Z = (Q[:, :k] * w[:k]) @ Q[:, :k].T  # multiplier
    c = -np.array([float(np.sum(M * Z)) for M in F])
    B = Sy + sum(F[j] * y[j] for j in range(n))
    B = (B + B.T) / 2
    xc = y + np.array(case["off"])
    R = case["R"]
    t = 0.3
    r = t / math.sqrt(sum(np.linalg.norm(M, 2) ** 2 for M in F))
    cen = y.copy()
    cen[0] += t
    if np.linalg.norm(cen - xc) + r > R or np.linalg.norm(y - xc) >= R:
        cov.tag("start too far away")
        return
    fs = float(c @ y)
    delta = float(c @ cen) - fs + r * float(np.linalg.norm(c))
    rt = math.sqrt(case["tol"])
    gap = max(rt, rt * delta / r) * 1.01 + 1e-9 * (1 + abs(fs))
    om = Lin(make(kind, F, B), c)
    o = Options()
    o.tolerance, o.max_iters = case["tol"], 6000
    x, gam, it = cutting_plane_optim(om, space(case, xc), 1e9, o)
    require(x is not None, "no point found, optimum %g", fs)
    x = S.as_vec(x, n, "point")
    require(it < 6000, "not converged after %d iterations", it)
    lam = mats.lam_min(value(kind, F, B, x))
    require(lam >= -1e-11 * (1 + mats.size(B)), "the point returned has eigenvalue %g", lam)
    require(abs(float(c @ x) - gam) <= 1e-12 * (1 + abs(gam)), "value %.12g, at the point %.12g", gam, float(c @ x))
    require(gam >= fs - 1e-8 * (1 + abs(fs)), "value %.12g below the optimum %.12g", gam, fs)
    cov.maximum("gap/bound", (gam - fs) / gap)
    require(gam - fs <= gap, "value %.12g, optimum %.12g, allowed gap %g", gam, fs, gap)
    cov.tag("optimum by " + kind)
    if it >= 10:
        cov.nontrivial()


SUBS = [
    Sub("feasible", case_, run_feas, quick=3000, shards=3),
    Sub("large", lambda: case_(lo=5, hi=8), run_feas, quick=80, thorough=2000, shards=8),
    Sub("infeasible", case_, run_infeas, quick=1200, shards=2),
    Sub("optimum", case_, run_opt, quick=800, shards=3),
]
