"""C15: binary search over feasibility problems."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A parametric problem max_i(a_i.x + b_i) <= gamma with known optimal gamma, both spaces. history: a sequence of "
    "drawn parameters is given to the adaptor; each answer is compared with a separate feasibility search, the "
    "stored point with the problem, and the stored space (center, probe widths) must be untouched except for the "
    "center after success; between probes the caller or a second adaptor may use the same oracle, and parameters repeat. search: the binary search over the adaptor must end within the gap implied by the "
    "tolerances, with a stored point feasible for the value. exact: integers up to 2^70 and fractions as parameters reach "
    "the oracle unchanged and the search ends at the exact threshold (non-trivial: beyond 2^53). Non-trivial: both answers occurred."
)


@st.composite
def case_(draw, lo=2, hi=4):
    n = draw(st.integers(lo, hi))
    return dict(
        n=n, space=draw(st.sampled_from(["ell", "stable"])), xs=gen.reals(draw, n, 1.0),
        g0=gen.reals(draw, 1, 5.0)[0], rows=[gen.vec(draw, n, ("dense", "int")) for _ in range(draw(st.integers(0, 4)))],
        off=gen.reals(draw, n, 0.5), width=0.5 + 3 * gen.unit(draw),
        gammas=[gen.reals(draw, 1, 2.0)[0] for _ in range(draw(st.integers(1, 7)))],
        tol=draw(st.sampled_from([1e-6, 1e-8, 1e-10])), btol=draw(st.sampled_from([1e-2, 1e-4, 1e-6])),
        between=[draw(st.integers(0, 4)) for _ in range(8)],
        inner_iters=draw(st.sampled_from([2000, 2000, 2000, 5])),
    )


class Omega:
    """max_i (a_i.(x-xs)) + g0 <= gamma"""

    def __init__(self, case):
        n = case["n"]
        rows = [np.array(r) / np.linalg.norm(r) for r in case["rows"]]
        # +-e_i keep level sets bounded; each extra row comes with slack at xs
        self.A = np.vstack([np.eye(n), -np.eye(n)] + ([np.array(rows)] if rows else []))
        self.xs, self.g0 = np.array(case["xs"]), case["g0"]
        self.gamma = None
        self.calls = 0
        self.updates = []

    def f(self, x):
        return self.g0 + float(np.max(self.A @ (np.array(x) - self.xs)))

    def update(self, gamma):
        self.updates.append(gamma)
        self.gamma = gamma

    def assess_feas(self, x):
        self.calls += 1
        if self.calls > 200000:
            raise script.Runaway("too many oracle calls")
        v = self.A @ (np.array(x) - self.xs) + self.g0 - self.gamma
        k = int(np.argmax(v))
        if v[k] > 0:
            return self.A[k].copy(), float(v[k])
        return None


def make(case):
    n = case["n"]
    om = Omega(case)
    # level set of g0+width lies in |x-xs|_inf <= width
    R = 4.0 * math.sqrt(n) * case["width"] + 3.0
    xc = om.xs + np.array(case["off"]) * case["width"]
    sp = S.classes()[case["space"]](R * R, xc)
    return n, om, sp, xc


def opts(tol, iters):
    from ellalgo.ell_config import Options

    o = Options()
    o.tolerance, o.max_iters = tol, iters
    return o


def fp(sp, n):
    return [S.tsq_along(sp, e) for e in np.eye(n)] + [S.tsq_along(sp, np.ones(n))]


def run_hist(case, cov):
    from ellalgo.cutting_plane import BSearchAdaptor, cutting_plane_feas

    n, om, sp, xc = make(case)
    ad = BSearchAdaptor(om, sp, opts(case["tol"], case["inner_iters"]))
    require(np.array_equal(S.as_vec(ad.x_best, n, "x_best"), xc), "stored point is not the initial center")
    shape0 = fp(sp, n)
    answers = set()
    other = BSearchAdaptor(om, make(case)[2], opts(case["tol"], 50))
    gammas = []
    for d, b in zip(case["gammas"], case.get("between", [0] * 8)):
        gammas += [(d, b)] + ([(d, b - 2)] if b >= 3 else [])  # the same parameter again
    for d, b in gammas:
        gamma = om.g0 + d * case["width"] * 0.5
        if b == 1:  # the caller uses the oracle itself in between
            om.update(gamma + (1.0 if d < 0 else -1.0) * (abs(d) + 1.0) * case["width"])
        elif b == 2:  # another adaptor shares the oracle
            other.assess_bs(gamma + (1.0 if d < 0 else -1.0) * (abs(d) + 1.0) * case["width"])
        before = S.as_vec(ad.x_best, n, "x_best")
        ref_om = Omega(case)
        ref_om.update(gamma)
        ref_x, _ = cutting_plane_feas(ref_om, copy.deepcopy(ad.space), opts(case["tol"], case["inner_iters"]))
        ans = ad.assess_bs(gamma)
        require(isinstance(ans, (bool, np.bool_)), "answer %r is not a truth value", ans)
        require(om.gamma == gamma, "the oracle was not told the parameter")
        require(bool(ans) == (ref_x is not None), "answer %s, a separate search found %s", ans,
                "a point" if ref_x is not None else "none")
        after = S.as_vec(ad.x_best, n, "x_best")
        if ans:
            require(om.f(after) <= gamma + 1e-12, "stored point has %g, parameter is %g", om.f(after), gamma)
        else:
            require(np.array_equal(after, before), "'not feasible' changed the stored point")
        require(fp(ad.space, n) == shape0, "a probe changed the shape of the stored space")
        if d < -1e-3:
            require(not ans, "parameter below the optimum called feasible")
        if d > 0.01 and case["inner_iters"] == 2000:
            require(bool(ans), "parameter %g above the optimum called infeasible", d)
        answers.add(bool(ans))
    cov.tag("both answers" if len(answers) == 2 else "one answer")
    if len(answers) == 2:
        cov.nontrivial()


def run_search(case, cov):
    from ellalgo.cutting_plane import BSearchAdaptor, bsearch

    n, om, sp, xc = make(case)
    ad = BSearchAdaptor(om, sp, opts(case["tol"], 2000))
    lo, hi = om.g0 - 0.7 * case["width"], om.g0 + case["width"]
    v, it = bsearch(ad, (lo, hi), opts(case["btol"], 2000))
    rt = math.sqrt(case["tol"])
    gap = 2 * case["btol"] + 2 * rt
    cov.maximum("gap/bound", (v - om.g0) / gap)
    require(om.g0 - 1e-12 <= v <= om.g0 + gap, "binary search ended at %.12g, optimum %.12g, allowed gap %g", v, om.g0,
            gap)
    x = S.as_vec(ad.x_best, n, "x_best")
    require(om.f(x) <= v + 1e-12, "stored point has value %.12g, search returned %.12g", om.f(x), v)
    if it >= 3:
        cov.nontrivial()


@st.composite
def exact_case(draw):
    e = draw(st.integers(0, 70))
    kind = draw(st.sampled_from(["int", "int", "fraction"]))
    den = draw(st.integers(1, 2 ** 20)) if kind == "fraction" else 1
    return dict(
        n=draw(st.integers(2, 4)), space=draw(st.sampled_from(["ell", "stable"])), kind=kind, den=den,
        t=draw(st.sampled_from([1, -1])) * (2 ** e + draw(st.integers(-5, 5))),
        below=draw(st.integers(1, 2 ** draw(st.integers(1, 40)))), above=draw(st.integers(0, 2 ** draw(st.integers(1, 40)))),
        probes=[draw(st.integers(-9, 9)) for _ in range(draw(st.integers(0, 5)))],
        xc=[float(r % 8) for r in gen.i16s(draw, 4)],
    )


class Threshold:
    """feasible (everywhere) exactly when gamma >= t; otherwise every cut misses the space"""

    def __init__(self, t, n):
        self.t, self.n, self.told = t, n, []

    def update(self, gamma):
        self.told.append(gamma)

    def assess_feas(self, x):
        if self.told[-1] >= self.t:
            return None
        return np.ones(self.n), 1e6


def run_exact(case, cov):
    """Parameters of exact types (large integers, fractions) reach the oracle as they are."""
    from fractions import Fraction

    from ellalgo.cutting_plane import BSearchAdaptor, bsearch

    n = case["n"]

    def val(k):
        return k if case["kind"] == "int" else Fraction(k, case["den"])

    t = val(case["t"])
    om = Threshold(t, n)
    sp = S.classes()[case["space"]](100.0, np.array(case["xc"][:n]))
    ad = BSearchAdaptor(om, sp, opts(1e-8, 200))
    for d in case["probes"]:
        g = val(case["t"] + d)
        ans = ad.assess_bs(g)
        require(om.told[-1] == g, "the oracle was told %r, the parameter is %r", om.told[-1], g)
        require(bool(ans) == (g >= t), "parameter %r called %s, the threshold is %r", g, "feasible" if ans else "infeasible", t)
    lo, hi = val(case["t"] - case["below"]), val(case["t"] + case["above"])
    v, it = bsearch(ad, (lo, hi), opts(0.3 if case["kind"] == "int" else 0.3 / case["den"], 120))
    require(v >= t and v <= hi, "binary search from (%r, %r) ended at %r, threshold %r", lo, hi, v, t)
    if case["kind"] == "int":
        require(v == t, "binary search over integers ended at %r, threshold %r", v, t)
    else:
        require(v - t < Fraction(7, 10) / case["den"], "binary search over fractions ended at %r, threshold %r", v, t)
    for g in om.told:
        require(lo <= g <= hi or abs(g - t) <= val(9), "the oracle was told %r, outside (%r, %r)", g, lo, hi)
    cov.tag(case["kind"])
    if abs(case["t"]) > 2 ** 53:
        cov.tag("beyond doubles")
        cov.nontrivial()


SUBS = [
    Sub("exact", exact_case, run_exact, quick=400, shards=2),
    Sub("history", case_, run_hist, quick=800, shards=5),
    Sub("large", lambda: case_(lo=5, hi=9), run_hist, quick=48, thorough=1000, shards=8),
    Sub("search", case_, run_search, quick=300, shards=3),
]
