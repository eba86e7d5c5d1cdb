"""C33: profit maximisation end to end."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import profit as P
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a profit problem (plain, or robust with drawn uncertainty intervals), one of the search spaces, an initial "
    "ellipsoid around a drawn centre that contains the optimum, deferred scaling on or off, an initial level (zero, part of "
    "the optimum, or above it) and a tolerance. The optimum is computed separately from the optimality conditions (the "
    "logarithm of the worst-case profit is concave). The driver must return a point within the limit whose worst-case "
    "profit is the value, within the gap implied by the tolerance; with a level above the optimum it must return none and "
    "keep the level. Non-trivial: a point was returned after at least ten iterations, or a level above the optimum."
)


@st.composite
def case_(draw):
    c = P.params(draw, draw(st.booleans()))
    c["robust"] = draw(st.booleans())
    c["e"] = [0.0] * 5
    if c["robust"] and draw(st.integers(0, 4)) != 4:
        c["e"] = [c["a"][0] * 0.5 * gen.unit(draw), c["a"][1] * 0.5 * gen.unit(draw), c["p"] * 0.5 * gen.unit(draw),
                  c["k"] * 0.5 * gen.unit(draw), 3.0 * gen.unit(draw)]
    c["space"] = draw(st.sampled_from(["ell", "stable"]))
    c["c"] = gen.reals(draw, 2, 3.0)
    c["R"] = 1.05 + 3 * gen.unit(draw)
    c["axes"] = draw(st.sampled_from([None, None, gen.unit(draw)]))
    c["g"] = draw(st.sampled_from(["zero", "zero", "part", "part", "near", "above", "huge"]))
    c["u"] = gen.unit(draw)
    c["tol"] = draw(st.sampled_from([1e-8, 1e-12, 1e-20]))
    c["defer"] = draw(st.integers(0, 3)) == 0
    return c


def locate(m):
    """maximiser of the worst-case profit by pattern search (its logarithm is concave), with its profit"""
    x, fx = m.best_point()
    if fx <= 0:
        return x, fx
    # refine: pattern search with rotating directions down to 1e-7
    lim = math.log(m.klim)
    h = 1e-2
    dirs = [(math.cos(t), math.sin(t)) for t in np.linspace(0, 2 * math.pi, 16, endpoint=False)]
    while h > 1e-8:
        moved = False
        for d in dirs:
            y = np.array([min(x[0] + h * d[0], lim), x[1] + h * d[1]])
            fy = m.profit(y)
            if fy > fx:
                x, fx, moved = y, fy, True
        if not moved:
            h /= 2
        else:
            h = min(h * 1.5, 0.1)
    return x, fx


def inner(m, xs):
    """(corner profit, radius) of the best square below the optimum that respects the limit; the profit's logarithm is
    concave, so its minimum over the square is at a corner"""
    best = None
    lim = math.log(m.klim)
    for r in (0.2, 0.1, 0.05, 0.02, 0.01, 0.003):
        cx = np.array([min(xs[0], lim - r * 1.001), xs[1]])
        v = min(m.profit(cx + r * np.array(s)) for s in ((1, 1), (1, -1), (-1, 1), (-1, -1)))
        if v > 0:
            best = (v, r, cx)
            break
    return best


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim
    from ellalgo.ell_config import Options
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle

    m = P.Model(case, case["e"])
    xs, fs = locate(m)
    a, v = np.array(case["a"]), np.array(case["v"])
    pr = (case["p"], case["A"], case["k"])
    om = ProfitRbOracle(pr, a, v, tuple(case["e"])) if case["robust"] else ProfitOracle(pr, a, v)
    where = "%s %s" % ("robust" if case["robust"] else "plain", case["space"])
    box = inner(m, xs) if fs > 0 else None
    if fs > 0 and box is None:
        cov.tag("profit region too small")
        return
    cost = float(np.sum((m.v + m.e[4]) * np.exp(xs)))
    if fs <= 0:
        gamma, above = 0.0, fs < -1e-3 * cost
        if not above:
            return
    elif case["g"] == "zero":
        gamma, above = 0.0, False
    elif case["g"] == "part":
        gamma, above = box[0] * case["u"], False
    elif case["g"] == "near":
        gamma, above = box[0] * (1 - 1e-3), False
    elif case["g"] == "above":
        gamma, above = fs * (1.0 + 1e-5) + 1e-5 * cost, True
    else:
        gamma, above = fs * 2.0 + cost, True
    c = np.array(case["c"])
    r = 0.0 if box is None else box[1]
    reach = max(float(np.linalg.norm(xs - c)), 0.0 if box is None else float(np.linalg.norm(box[2] - c)) + r * 1.5)
    rad = (reach + 0.01) * case["R"]
    if rad > 15:
        cov.tag("too far")
        return
    val = rad ** 2 if case["axes"] is None else np.array([rad ** 2, rad ** 2 * (1 + case["axes"])])
    space = S.classes()[case["space"]](val, c.copy())
    if case["defer"]:
        space.no_defer_trick = True
    o = Options()
    o.max_iters = 2000
    o.tolerance = case["tol"]
    x, got, it = cutting_plane_optim(om, space, gamma, o)
    require(np.array_equal(a, case["a"]) and np.array_equal(v, case["v"]), "%s: the data were modified", where)
    if above:
        require(x is None and got == gamma, "%s: returned %r with value %r although no profit reaches %g (optimum %g)", where, x,
                got, gamma, fs)
        cov.tag("level above the optimum")
        cov.nontrivial()
        return
    require(x is not None, "%s: nothing found after %d iterations, optimum %g at %s, level %g", where, it, fs, xs, gamma)
    x = np.array(S.as_vec(x, 2, "point"), dtype=float)
    got = S.as_num(got, "profit")
    f, rev, cst = m.parts(x)
    tol = 1e-9 * (abs(f) + cst)
    require(x[0] <= math.log(m.klim) + 1e-12, "%s: point %s beyond the limit %g", where, x, math.log(m.klim))
    require(abs(got - f) <= tol, "%s: value %.12g, worst-case profit at the point %.12g", where, got, f)
    require(got >= gamma - tol, "%s: value %g below the initial %g", where, got, gamma)
    require(got <= fs + 1e-6 * (fs + cost), "%s: value %.10g above the optimum %.10g", where, got, fs)
    if it < o.max_iters:
        # stopped at a profit cut: no better point gains more than the width in log((profit + cost)/revenue); stopped at a
        # limit cut: the better points lie in a strip of that width, but contain the shrunk square
        width = math.sqrt(o.tolerance)
        loss = min(1.0, width / r) * max(0.0, math.log(fs / box[0]))
        low = fs * math.exp(-1.05 * loss) - (1.05 * math.expm1(width) + 1e-6) * (fs + cost)
        require(got >= low, "%s: value %.10g after %d iterations, optimum %.10g, at least %.10g expected", where, got, it, fs, low)
        cov.maximum("relative gap", (fs - got) / (fs + cost))
        cov.tag("optimal")
    else:
        cov.tag("stopped by the limit")
    if it >= 10:
        cov.nontrivial()
    cov.tag(where)


SUBS = [Sub("maximise", case_, run, quick=1500, shards=8)]
