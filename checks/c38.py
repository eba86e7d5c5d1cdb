"""C38: a run ended by its limit can be continued."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import c18, c34
from vp import gen
from vp import profit as P
from vp import space as S
from vp.core import Discard, Sub, require

RULE = (
    "A run with a drawn total limit is split into up to eight pieces of drawn lengths (also zero): each piece is a call of the "
    "same driver on the same search space (or on a deep copy of it made between the pieces), started with the value reached so "
    "far. Compared, bit for bit, with one call with the total limit on fresh objects: the points the oracle was asked about, "
    "the answer, the value, the number of cuts and the final center and shape. pieces: oracles over drawn linear inequalities and a "
    "drawn convex objective, the three drivers (the discrete one without alternative cuts), both search spaces and their options, "
    "drawn tolerances. library: the matrix-inequality, filter and (robust) profit oracles of the library. Non-trivial: at least "
    "two pieces made cuts."
)


class Watch:
    """records the points of an oracle"""

    def __init__(self, om):
        self.om, self.seen = om, []

    def _see(self, x):
        self.seen.append(tuple(float(v) for v in x))

    def assess_feas(self, x):
        self._see(x)
        return self.om.assess_feas(x)

    def assess_optim(self, x, gamma):
        self._see(x)
        return self.om.assess_optim(x, gamma)

    def assess_optim_q(self, x, gamma, retry):
        self._see(x)
        require(not retry, "the driver asked for an alternative cut that was never announced")
        return self.om.assess_optim_q(x, gamma, retry)


class Plain(c34.Poly):
    def assess_optim_q(self, x, gamma, retry):
        return super().assess_optim_q(x, gamma, False)[:3] + (False,)


def split(draw, total):
    cuts = sorted(draw(st.lists(st.integers(0, total), min_size=1, max_size=7)))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


@st.composite
def pieces_case(draw):
    c = draw(c34.driver_case())
    c["tol"] = draw(st.sampled_from([0.0, 1e-20, 1e-12, 1e-6, 1e-3, 0.05]))
    c["lim"] = draw(st.sampled_from([6, 20, 60, 150]))
    c["split"] = split(draw, c["lim"])
    c["copy"] = draw(st.lists(st.booleans(), min_size=8, max_size=8))
    u = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-2, 30.0, 1e4]))
    c["diag"] = [u * u * v for v in c["diag"]]
    c["gamma"] = draw(st.sampled_from([3.0, 0.5, float(10 ** 6)]))
    return c


def drive(driver, om, sp, gamma, lim, tol):
    import ellalgo.cutting_plane as cp
    from ellalgo.ell_config import Options

    o = Options()
    o.max_iters, o.tolerance = lim, tol
    if driver == "feas":
        x, k = cp.cutting_plane_feas(om, sp, o)
        return x, gamma, k
    f = cp.cutting_plane_optim if driver == "optim" else cp.cutting_plane_optim_q
    return f(om, sp, gamma, o)


def compare(case, cov, driver, make_om, make_sp, n, gamma0):
    lim, tol = case["lim"], case["tol"]
    om1, sp1 = Watch(make_om()), make_sp()
    try:
        x1, g1, k1 = drive(driver, om1, sp1, gamma0, lim, tol)
    except ValueError:  # a zero cut: degenerate matrices, nothing to compare
        raise Discard()
    om2, sp2 = Watch(make_om()), make_sp()
    x2, g2, total, worked = None, gamma0, 0, 0
    for part, cp_ in zip(case["split"], case["copy"]):
        if cp_:
            sp2 = copy.deepcopy(sp2)
        before = len(om2.seen)
        x, g2, k = drive(driver, om2, sp2, g2, part, tol)
        total += k
        worked += len(om2.seen) > before
        x2 = x if x is not None else x2
        require(k <= part, "%s: %d iterations reported with a limit of %d", driver, k, part)
        if k < part:  # it came to an end of its own
            break
    require(om1.seen == om2.seen, "%s: in pieces %s the oracle is asked about %d points, in one run about %d; they differ from point %d on",
            driver, case["split"], len(om2.seen), len(om1.seen),
            next((i for i, (a, b) in enumerate(zip(om1.seen, om2.seen)) if a != b), min(len(om1.seen), len(om2.seen))))
    require(total == k1, "%s: %d iterations in pieces %s, %d in one run", driver, total, case["split"], k1)
    require((x1 is None) == (x2 is None), "%s: in pieces %s the answer is %s, in one run %s", driver, case["split"], x2, x1)
    if x1 is not None:
        require(np.array_equal(np.asarray(x1, dtype=float), np.asarray(x2, dtype=float)),
                "%s: in pieces %s the answer is %s, in one run %s", driver, case["split"], x2, x1)
    require(g1 == g2, "%s: in pieces %s the value is %r, in one run %r", driver, case["split"], g2, g1)
    (a, A), (b, B) = S.probe(sp1, n), S.probe(sp2, n)
    require(np.array_equal(a, b), "%s: in pieces %s the final center is %s, in one run %s", driver, case["split"], b, a)
    require(np.array_equal(A, B), "%s: in pieces %s the final shape differs from that of one run", driver, case["split"])
    cov.tag("%s %s" % (driver, case["space"]))
    cov.tag("%d working pieces" % worked)
    cov.tag("ended: %s" % ("limit" if k1 == lim else "found" if driver == "feas" and x1 is not None else "tolerance or failed cut"))
    if worked >= 2:
        cov.nontrivial()


def run_pieces(case, cov):
    compare(case, cov, case["driver"], lambda: Plain(case), lambda: c34.build(case), case["n"], case["gamma"])


@st.composite
def library_case(draw):
    kind = draw(st.sampled_from(["lmi", "lmi0", "old", "lowpass", "profit", "robust"]))
    n = 2 if kind in ("profit", "robust") else draw(st.integers(2, 5))
    c = dict(kind=kind, n=n, m=draw(st.integers(2, 5)), space=draw(st.sampled_from(["ell", "stable"])),
             tol=draw(st.sampled_from([0.0, 1e-20, 1e-8, 1e-3])), lim=draw(st.sampled_from([10, 40, 120])),
             copy=draw(st.lists(st.booleans(), min_size=8, max_size=8)), R=draw(st.sampled_from([1.0, 4.0, 40.0] + ([] if kind in ("profit", "robust") else [2000.0]))),
             defer=draw(st.booleans()), par=draw(st.booleans()), xc=gen.reals(draw, n, 1.0))
    c["split"] = split(draw, c["lim"])
    if kind in ("profit", "robust"):
        c["params"] = P.params(draw, False)
        c["e"] = [0.2 * gen.unit(draw) * v for v in (c["params"]["a"][0], c["params"]["a"][1], c["params"]["p"], c["params"]["k"], 1.0)]
    elif kind != "lowpass":
        k = c["m"] * (c["m"] + 1) // 2
        c["F"] = [gen.reals(draw, k, 2.0) for _ in range(n)]
        c["B"] = gen.reals(draw, k, 2.0)
    else:
        c["wp"], c["ws"] = 0.05 + 0.25 * gen.unit(draw), 0.35 + 0.3 * gen.unit(draw)
        c["lp"], c["sp"] = 0.5 + 0.45 * gen.unit(draw), 0.01 + 0.2 * gen.unit(draw)
    return c


def sym(low, m):
    A = np.zeros((m, m))
    A[np.tril_indices(m)] = low
    return A + np.tril(A, -1).T


def library_oracle(c):
    if c["kind"] in ("lmi", "lmi0", "old"):
        return c18.make(c["kind"], [sym(f, c["m"]) for f in c["F"]], sym(c["B"], c["m"]))
    if c["kind"] == "lowpass":
        from ellalgo.oracles.lowpass_oracle import LowpassOracle

        return LowpassOracle(c["n"] + 2, c["wp"], c["ws"], c["lp"] ** 2, 1.0 / c["lp"] ** 2, c["sp"] ** 2)
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle

    p = c["params"]
    a, v = np.array(p["a"], dtype=float), np.array(p["v"], dtype=float)
    if c["kind"] == "profit":
        return ProfitOracle((p["p"], p["A"], p["k"]), a, v)
    return ProfitRbOracle((p["p"], p["A"], p["k"]), a, v, tuple(c["e"]))


def run_library(case, cov):
    n = case["n"] + 2 if case["kind"] == "lowpass" else case["n"]
    xc = np.zeros(n) if case["kind"] == "lowpass" else np.array(case["xc"])

    def space():
        sp = S.classes()[case["space"]](case["R"] ** 2, xc.copy())
        sp.no_defer_trick = case["defer"]
        sp.helper.use_parallel_cut = case["par"]
        return sp

    driver = "feas" if case["kind"] in ("lmi", "lmi0", "old") else "optim"
    gamma0 = {"lowpass": case.get("sp", 0.0) ** 2}.get(case["kind"], 0.0)
    cov.tag(case["kind"])
    compare(case, cov, driver, lambda: library_oracle(case), space, n, gamma0)


SUBS = [
    Sub("pieces", pieces_case, run_pieces, quick=1500, thorough=24000),
    Sub("library", library_case, run_library, quick=900, thorough=12000),
]
