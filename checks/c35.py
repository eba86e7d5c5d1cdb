"""C35: discrete optimisation end to end."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a discrete problem: minimise the largest of several affine functions over the points of a lattice (step 1, 1/2 or 3, "
    "two to four dimensions) that satisfy drawn linear inequalities and strips (parallel cuts), an initial ellipsoid (in one sub-check squeezed by oblique strips, so that rounding leaves it), either search space, parallel cuts on or "
    "off, an initial level and a limit of iterations. The check's own oracle rounds the center, cuts at the rounded point with the "
    "offset moved to the center (often negative), and has an alternative cut for retries. All lattice points of the initial "
    "ellipsoid are enumerated: the driver must return the best point the oracle reported, with its value; when the search ends "
    "with 'no solution', no admissible lattice point of the initial ellipsoid may be better; when it ends otherwise, every better "
    "one must lie in the final ellipsoid. Non-trivial: at least three cuts, and a lattice point of the initial ellipsoid better than "
    "the initial level."
)


@st.composite
def case_(draw, lo=2, hi=3, thin=False):
    n = draw(st.integers(lo, hi))
    # "thin": the search starts from an ellipsoid that oblique strips have squeezed, so the point the
    # center is rounded to often lies outside it, and its cut passes by on either side
    thin = [(gen.vec(draw, n, ("dense", "int")), draw(st.sampled_from([0.3, 0.1, 0.03]))) for _ in range(draw(st.integers(1, n)))] if thin else []
    return dict(
        n=n, space=draw(st.sampled_from(["ell", "stable"])), par=draw(st.booleans()), defer=draw(st.booleans()),
        step=draw(st.sampled_from([1.0, 1.0, 0.5, 3.0])), rows=[gen.vec(draw, n, ("dense", "int", "axis")) for _ in range(draw(st.integers(2, 6)))],
        off=gen.reals(draw, 6, 2.0), cons=[gen.vec(draw, n, ("dense", "int", "axis")) for _ in range(draw(st.integers(0, 3)))],
        slack=[gen.unit(draw) for _ in range(3)],
        strip=[draw(st.sampled_from([None, None, 0.4, 1.1, 2.5])) for _ in range(3)], pair=draw(st.booleans()),
        xc=gen.reals(draw, n, 2.0), r=1.0 + 3.0 * gen.unit(draw), stretch=[abs(v) for v in gen.reals(draw, n)],
        level=draw(st.sampled_from(["inf", "big", "mid", "low"])), lim=draw(st.sampled_from([400, 400, 400, 12, 3])),
        tol=draw(st.sampled_from([1e-10, 1e-10, 1e-3])), thin=thin,
    )


class Problem:
    def __init__(self, c):
        self.h, self.n = c["step"], c["n"]
        self.A = np.array(c["rows"], dtype=float)
        self.A /= np.linalg.norm(self.A, axis=1)[:, None]
        self.b = np.array(c["off"][: len(self.A)]) * self.h
        self.C = np.array(c["cons"], dtype=float).reshape(-1, self.n)
        if len(self.C):
            self.C /= np.linalg.norm(self.C, axis=1)[:, None]
        self.d = np.array([self.h * (2.5 * c["slack"][k] - 0.2) for k in range(len(self.C))])
        # some inequalities are strips d - w <= c.x <= d: their cuts are pairs
        self.w = np.array([math.inf if w is None else w * self.h for w in c["strip"][: len(self.C)]])
        self.pair = c["pair"]
        self.reported, self.calls, self.asked = [], 0, []

    def f(self, x):
        v = self.A @ x + self.b
        k = int(np.argmax(v))
        return float(v[k]), self.A[k]

    def broken(self, x):
        if not len(self.C):
            return None
        v = self.C @ x - self.d
        low = -v - self.w
        k, m = int(np.argmax(v)), int(np.argmax(low))
        if v[k] > 1e-12 and v[k] >= low[m]:
            return self.C[k], float(v[k]), float(self.w[k])
        if low[m] > 1e-12:
            return -self.C[m], float(low[m]), float(self.w[m])
        return None

    def offsets(self, v, w):
        return v if math.isinf(w) else (v, v + w)

    def at(self, xq, xc, gamma):
        """cut from the lattice point xq, expressed at xc"""
        bad = self.broken(xq)
        if bad:
            g, v, w = bad
            return (g.copy(), self.offsets(v + float(g @ (xc - xq)), w)), None
        v, g = self.f(xq)
        shift = float(g @ (xc - xq))
        if v < gamma:
            self.reported.append((v, xq.copy()))
            return (g.copy(), shift), v
        return (g.copy(), v - gamma + shift), None

    def assess_optim_q(self, xc, gamma, retry):
        self.calls += 1
        if self.calls > 5000:
            raise script.Runaway("driver does not stop")
        self.asked.append((gamma, retry))
        xc = np.array(xc, dtype=float)
        xq = np.round(xc / self.h) * self.h
        if not retry:
            bad = self.broken(xc)
            if bad:
                return (bad[0].copy(), self.offsets(bad[1], bad[2])), xc, None, True
            cut, v = self.at(xq, xc, gamma)
            if self.pair and v is None and isinstance(cut[1], float) and cut[1] > 0:
                cut = (cut[0], (cut[1], cut[1] + 1e6 * self.h))  # second plane far away
            return cut, xq, v, True
        v, g = self.f(xc)
        if v >= gamma:  # a cut through the center is as good
            return (g.copy(), v - gamma), xq, None, False
        k = int(np.argmax(np.abs(xc - xq)))  # the second nearest lattice point
        other = xq.copy()
        other[k] += self.h if xc[k] > xq[k] else -self.h
        cut, v = self.at(other, xc, gamma)
        return cut, other, v, False


class Spy:
    """records the statuses of a real search space"""

    def __init__(self, sp):
        self.sp, self.log = sp, []

    def xc(self):
        return self.sp.xc()

    def tsq(self):
        return self.sp.tsq()

    def update_q(self, cut):
        s = self.sp.update_q(cut)
        self.log.append(S.as_status(s))
        return s


def lattice(p, x0, r, n, sh=None):
    """all lattice points of the initial ellipsoid"""
    axes = [np.arange(math.ceil((x0[i] - r[i]) / p.h), math.floor((x0[i] + r[i]) / p.h) + 1) * p.h for i in range(n)]
    if any(len(a) == 0 for a in axes):
        return []
    pts = np.array(list(itertools.product(*axes)))
    rad = np.sqrt(np.sum(((pts - x0) / r) ** 2, axis=1)) if sh is None else np.array([np.linalg.norm(sh.white(y)) for y in pts])
    return pts[rad <= 1.0 - 1e-6]


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.ell_config import Options

    n = case["n"]
    p = Problem(case)
    x0 = np.array(case["xc"]) * p.h
    r = case["r"] * p.h * np.array([1.0 + 0.6 * s for s in case["stretch"]])
    sp = S.classes()[case["space"]](r ** 2, x0.copy())
    sh = None
    if case["thin"]:
        sp.no_defer_trick = case["defer"]
        for g, w in case["thin"]:
            g = np.array(g)
            tau = math.sqrt(S.tsq_along(sp, g))
            S.as_status(sp.update_bias_cut((g, (0.0, w * tau))))
        sp.set_xc(x0.copy())
        sh = S.Shape(*S.probe(sp, n))
        if not sh.ok or sh.tol > 1e-7:
            return cov.tag("initial ellipsoid too flat to observe")
        r = np.sqrt(np.diag(sh.P))
    pts = lattice(p, x0, r, n, sh)
    vals = np.array([p.f(x)[0] for x in pts]) if len(pts) else np.array([])
    okc = np.array([p.broken(x) is None for x in pts], dtype=bool) if len(pts) else np.array([], dtype=bool)
    best = float(np.min(vals[okc])) if np.any(okc) else math.inf
    gamma0 = {"inf": 1e9, "big": 6.0 * p.h, "mid": (best if math.isfinite(best) else 0.0) + 0.7 * p.h,
              "low": (best if math.isfinite(best) else 0.0) - 0.1 * p.h}[case["level"]]
    sp.helper.use_parallel_cut = case["par"]
    sp.no_defer_trick = case["defer"]
    spy = Spy(sp)
    o = Options()
    o.max_iters, o.tolerance = case["lim"], case["tol"] * p.h ** 2
    x, gamma, it = cutting_plane_optim_q(p, spy, gamma0, o)
    tol = 1e-7 * p.h
    # what was returned
    if p.reported:
        v, xb = min(p.reported, key=lambda t: t[0])
        require(x is not None, "the oracle reported %s with value %g, no point was returned", xb, v)
        x = S.as_vec(x, n, "best point")
        require(gamma == v, "value returned %r, best reported %r", gamma, v)
        require(np.array_equal(x, xb), "point returned %s, best reported %s", x, xb)
        require(bool(np.all(x / p.h == np.round(x / p.h))), "point %s is not on the lattice", x)
        require(p.f(x)[0] == gamma and p.broken(x) is None, "point %s has value %g, %g was returned", x, p.f(x)[0], gamma)
        require(gamma < gamma0, "the value got worse: %g from %g", gamma, gamma0)
    else:
        require(x is None and gamma == gamma0, "no better point was reported, but %s with %r was returned", x, gamma)
    require(it <= case["lim"], "%d iterations, limit %d", it, case["lim"])
    # nothing better was lost
    better = pts[okc & (vals < gamma - tol)] if len(pts) else pts
    end = spy.log[-1] if spy.log else "none"
    cov.tag("ended by " + (end if it < case["lim"] else "limit"))
    if end == "NoSoln":
        require(len(better) == 0, "'no solution' although %s has value %g, below %g", better[0] if len(better) else None,
                p.f(better[0])[0] if len(better) else 0.0, gamma)
        cov.tag("optimality established")
    else:
        xf, P = S.probe(sp, n)
        sh = S.Shape(xf, P)
        if sh.ok and sh.tol < 1e-4:
            for y in better:
                rad = float(np.linalg.norm(sh.white(y)))
                cov.maximum("radius of better points", rad)
                require(rad <= 1.0 + 1e-6 + 10 * (sh.tol + sh.xtol), "%s with value %g, below %g, is outside the final ellipsoid (radius %g)",
                        y, p.f(y)[0], gamma, rad)
            if len(better):
                cov.tag("better points kept")
        else:
            cov.tag("final ellipsoid too flat to observe")
    if any(rt for _, rt in p.asked):
        cov.tag("retries")
    if spy.log.count("Success") >= 3 and best < gamma0:
        cov.nontrivial()


SUBS = [
    Sub("lattice", case_, run, quick=1500, shards=8),
    Sub("thin", lambda: case_(thin=True), run, quick=2500, shards=8),
    Sub("space", lambda: case_(lo=3, hi=4), run, quick=300, shards=8),
]
