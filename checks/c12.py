"""C12: optimization reaches the optimum to the stated tolerance."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a convex problem with a known minimiser x* inside the initial ellipsoid: quadratics and maxima of "
    "affine functions with x* at the bottom, or linear objectives over polytopes whose active constraints at x* "
    "satisfy the optimality conditions; single, deep and parallel cuts, both spaces. The driver must return a "
    "feasible point with the value it reports, within the gap implied by the tolerance. too_good: initial value "
    "below the optimum; nothing may be returned. Non-trivial: at least five improvements or ten cuts."
)


@st.composite
def case_(draw, lo=2, hi=5):
    n = draw(st.integers(lo, hi))
    return dict(
        n=n, space=draw(st.sampled_from(["ell", "stable"])), fam=draw(st.sampled_from(["quad", "maxaff", "lp"])),
        xs=gen.reals(draw, n, 1.0), f0=gen.reals(draw, 1, 10.0)[0],
        rows=[gen.vec(draw, n, ("dense", "int", "sparse")) for _ in range(n + 2)],
        lam=[0.1 + abs(t) for t in gen.reals(draw, n + 2)],
        slack=[0.05 + abs(t) for t in gen.reals(draw, 2 * n, 2.0)],
        R=2.0 + 6.0 * gen.unit(draw), off=gen.reals(draw, n, 0.5),
        tol=draw(st.sampled_from([1e-4, 1e-8, 1e-10])), deep=draw(st.booleans()), parallel=draw(st.booleans()),
        margin=draw(st.sampled_from([0.01, 1.0])), defer=draw(st.integers(0, 3)) == 0,
    )


class Problem:
    def __init__(self, case):
        n = case["n"]
        self.n, self.case = n, case
        self.xs = np.array(case["xs"])
        self.f0 = case["f0"]
        A = np.array(case["rows"])
        lam = np.array(case["lam"])
        self.cons = []  # rows (a, lo or None, hi)
        self.r = None
        if case["fam"] == "quad":
            L = A[:n]
            self.H = L.T @ L + 0.2 * np.eye(n)
        elif case["fam"] == "maxaff":
            # zero in the hull of the gradients: close the cone
            last = -(lam[:-1] @ A[:-1]) / lam[-1]
            G = np.vstack([A[:-1], last, np.eye(n) * 0.5, -np.eye(n) * 0.5])
            self.G = G
        else:
            # minimise c.x over {a.x <= b}: active set k rows with -c = sum lam a
            k = n
            act = A[:k] / np.linalg.norm(A[:k], axis=1)[:, None]
            self.c = -(lam[:k] @ act)
            # interior point: x* - t*d with act.d > 0 for all active rows
            for a in act:
                self.cons.append((a, None, float(a @ self.xs)))
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1.0
                self.cons.append((e, float(self.xs[i]) - case["slack"][2 * i], float(self.xs[i]) +
                                  case["slack"][2 * i + 1]))
            self.act = act

    def chebyshev(self):
        """largest ball in the polytope (center, radius)"""
        from scipy.optimize import linprog

        A, b = [], []
        for a, lo, hi in self.cons:
            A.append(list(a) + [1.0])
            b.append(hi)
            if lo is not None:
                A.append(list(-a) + [1.0])
                b.append(-lo)
        c = np.zeros(self.n + 1)
        c[-1] = -1.0
        res = linprog(c, A_ub=A, b_ub=b, bounds=[(None, None)] * self.n + [(0, None)])
        if res.status != 0:
            return None, 0.0
        return res.x[:-1], float(res.x[-1])

    def f(self, x):
        d = x - self.xs
        if self.case["fam"] == "quad":
            return self.f0 + float(d @ self.H @ d)
        if self.case["fam"] == "maxaff":
            return self.f0 + float(np.max(self.G @ d))
        return self.f0 + float(self.c @ d)

    def grad(self, x):
        d = x - self.xs
        if self.case["fam"] == "quad":
            return 2.0 * self.H @ d
        if self.case["fam"] == "maxaff":
            return self.G[int(np.argmax(self.G @ d))].copy()
        return self.c.copy()

    def violated(self, x):
        for a, lo, hi in self.cons:
            v = float(a @ x)
            if v > hi:
                return a.copy(), v - hi, None if lo is None else v - lo
            if lo is not None and v < lo:
                return -a, lo - v, hi - v
        return None


class Oracle:
    def __init__(self, p):
        self.p, self.case, self.log = p, p.case, []

    def assess_optim(self, x, gamma):
        if len(self.log) > 20000:
            raise script.Runaway("too many oracle calls")
        x = np.array(x, dtype=float)
        v = self.p.violated(x)
        if v is not None:
            self.log.append(None)
            g, b0, b1 = v
            if not self.case["deep"]:
                b0 = 0.0
            if b1 is not None and self.case["parallel"]:
                return (g, (b0, b1)), None
            return (g, b0), None
        f = self.p.f(x)
        g = self.p.grad(x)
        if not np.any(np.abs(g) > 1e-13):  # at the bottom: any direction will do
            g = np.zeros(self.p.n)
            g[0] = 1e-13
        if f < gamma:
            self.log.append(f)
            return (g, 0.0), f
        self.log.append(None)
        return (g, f - gamma if self.case["deep"] else 0.0), None


def setup(case):
    from ellalgo.ell_config import Options

    n = case["n"]
    p = Problem(case)
    xc = p.xs + np.array(case["off"])
    R = case["R"]
    sp = S.classes()[case["space"]](R * R, xc)
    if case["defer"]:
        sp.no_defer_trick = True
    o = Options()
    o.tolerance = case["tol"]
    o.max_iters = 6000
    return n, p, sp, xc, R, o


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim

    n, p, sp, xc, R, o = setup(case)
    rt = math.sqrt(case["tol"])
    if case["fam"] == "lp":
        cen, r = p.chebyshev()
        if r < 1e-2:
            cov.tag("polytope too thin")
            return
        r = min(r, 0.5)
        # a ball of that radius inside the initial ellipsoid and the polytope
        if np.linalg.norm(cen - xc) + r > R:
            cov.tag("ball outside the start")
            return
        fmax = p.f(cen) + r * float(np.linalg.norm(p.c))
        gap = rt / r * (fmax - p.f0) + rt
        gap = max(gap, rt * (fmax - p.f0) / r)
        # tsq of an objective cut uses the objective's own gradient: gap <= sqrt(tol) there
    else:
        gap = rt
    om = Oracle(p)
    x, gam, it = cutting_plane_optim(om, sp, 1e9, o)
    gam = S.as_num(gam, "value")
    require(x is not None, "no point found (optimum %g)", p.f0)
    x = S.as_vec(x, n, "point")
    require(it < o.max_iters, "not converged after %d iterations", it)
    require(p.violated(x) is None, "the point returned is not feasible")
    require(abs(p.f(x) - gam) <= 1e-12 * (1 + abs(gam)), "value returned %.12g, value at the point %.12g", gam, p.f(x))
    require(gam >= p.f0 - 1e-9 * (1 + abs(p.f0)), "value %.12g below the optimum %.12g", gam, p.f0)
    slackn = 1e-9 * (1 + abs(p.f0))
    cov.maximum("gap/bound " + case["fam"], (gam - p.f0) / (gap + slackn))
    require(gam - p.f0 <= gap * 1.01 + slackn, "%s: value %.12g, optimum %.12g, allowed gap %g (tolerance %g)",
            case["fam"], gam, p.f0, gap, case["tol"])
    imp = sum(1 for v in om.log if v is not None)
    cov.tag(case["fam"])
    if imp >= 5 or it >= 10:
        cov.nontrivial()


def run_bad(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim

    n, p, sp, xc, R, o = setup(case)
    om = Oracle(p)
    g0 = p.f0 - case["margin"]
    x, gam, it = cutting_plane_optim(om, sp, g0, o)
    require(x is None, "a point was returned although none is better than the initial value")
    require(gam == g0, "value changed from %r to %r without an improvement", g0, gam)
    cov.tag(case["fam"])
    if it >= 1:
        cov.nontrivial()


SUBS = [
    Sub("optimum", case_, run, quick=700, shards=6),
    Sub("large", lambda: case_(lo=6, hi=10), run, quick=48, thorough=1500, shards=8),
    Sub("too_good", case_, run_bad, quick=300, shards=2),
]
