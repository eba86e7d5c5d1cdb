"""C24: the discrete profit oracle reports integer points with their exact profit."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import profit as P
from vp import space as S
from vp.core import Buffer, Sub, load_known, require

RULE = (
    "histories: drawn problems, up to six centers (around the optimum, the limit and small quantities that round to "
    "zero) with levels, each queried first and, after a rounded answer, often as a retry at the same center. The point, "
    "value and flag are checked against direct formulas; every cut is tested against points of higher profit just "
    "beyond it and integer neighbours. A cut that excludes one is a violation unless its depth is exactly the recorded "
    "wrong-sign shift. driver: whole runs; the result must be an integer point with its exact profit. Non-trivial: a "
    "rounded point was evaluated."
)
ASSUMPTIONS = ["The recorded defect (wrong sign of the shift between rounded point and center) is excepted."]
KNOWN = "C24-shift"


@st.composite
def case_(draw, **kw):
    c = draw(P.queries(big=draw(st.integers(0, 3)) != 3, **kw))
    for q in c["q"]:
        q["retry"] = draw(st.integers(0, 2))
    return c


def known():
    return any(k["id"] == KNOWN for k in load_known("C24"))


def integers_near(y):
    out = []
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            z = np.round(y) + np.array([a, b], dtype=float)
            if np.all(z >= 1):
                out.append(np.log(z))
    return out


def is_int_point(xd, where):
    y = np.exp(xd)
    r = np.round(y)
    require(np.all(r >= 1) and np.max(np.abs(y - r) / r) <= 1e-9, "%s: point %s is not a positive integer point", where, y)
    return r


def run(case, cov):
    from ellalgo.oracles.profit_oracle import ProfitQOracle

    m = P.Model(case)
    om = ProfitQOracle((case["p"], case["A"], case["k"]), np.array(case["a"]), np.array(case["v"]))
    opt, fbest = m.best_point()
    buf = Buffer(case.get("buf"))
    ext = integers_near(np.exp(opt))
    lim = math.log(m.klim)
    prev = None
    held = []
    for k, q in enumerate(case["q"]):
        x = buf.put(P.point(m, q, prev, opt))
        prev = x.copy()
        if np.max(np.abs(x)) > 18:
            continue
        gamma = P.gamma_of(m, q, x, fbest)
        rounded = False
        for retry in [False] + [True] * q["retry"]:
            if retry and not rounded:
                break
            x0 = x.copy()
            where = "query %d at %s, level %.6g%s" % (k + 1, x, gamma, ", retry" if retry else "")
            out = om.assess_optim_q(x, gamma, retry)
            require(isinstance(out, tuple) and len(out) == 4, "%s: result %r", where, out)
            cut, pt, val, more = out
            require(np.array_equal(x, x0), "%s modified the center", where)
            require(bool(more) == (not retry), "%s: alternative announced: %r", where, more)
            for old, was in held:
                require(np.array_equal(old, was), "%s changed a point or gradient returned earlier", where)
            if not np.shares_memory(np.asarray(pt), x):
                held.append((pt, np.array(pt, copy=True)))
            g, b = P.decode(cut, where)
            held.append((cut[0], np.array(cut[0], copy=True)))
            pt = np.array(S.as_vec(pt, 2, "evaluation point"), dtype=float)
            v1, v2 = P.fns(m, x, gamma)
            feas_c = v1 <= 0 and v2 <= 0
            clear = abs(v1) > 1e-10 and abs(v2) > 1e-10
            rounded = val is not None or retry or not np.array_equal(pt, x)
            if not retry and clear:
                if not feas_c:
                    require(val is None, "%s: value %r for a center that is not feasible (%g, %g)", where, val, v1, v2)
                    rounded = False
                else:
                    rounded = True
            if not rounded:
                if clear and not feas_c:
                    P.check_cut(m, x, gamma, None, cut, where, cov, ext, opt)
                continue
            cov.nontrivial()
            cov.tag("rounded point")
            r = is_int_point(pt, where)
            y = np.exp(x)
            for i in (0, 1):
                near = abs(r[i] - y[i]) <= 0.5 + 1e-9 or (r[i] == 1.0 and y[i] < 1.0)
                require(near, "%s: rounded to %s, center is at %s", where, r, y)
            if np.any(np.exp(x) < 0.5):
                cov.tag("rounds to zero")
            xd = np.log(r)
            f = m.profit(xd)
            w1, w2 = P.fns(m, xd, gamma)
            level = gamma
            clear2 = abs(w1) > 1e-10 and abs(w2) > 1e-10
            if clear2:
                require((val is not None) == (w1 <= 0 and w2 <= 0),
                        "%s: value %r, rounded point %s has limit violation %g, profit shortfall %g", where, val, r, w1, w2)
            if val is not None:
                val = S.as_num(val, "value")
                cost = float(np.sum(m.v * r))
                require(abs(val - f) <= 1e-9 * (abs(f) + cost), "%s: value %.12g, profit of the point %s is %.12g", where,
                        val, r, f)
                require(val >= gamma - 1e-9 * (abs(gamma) + cost), "%s: value %g below the best %g", where, val, gamma)
                require(xd[0] <= lim + 1e-12, "%s: point %s beyond the limit", where, r)
                level = max(f, gamma)
                cov.tag("value reported")
            # validity of the cut, relative to the center
            bad = None
            for z in P.better_points(m, xd, g, level, ext, opt) + P.better_points(m, x, g, level, [], opt):
                d = float(g @ (z - x)) + b
                cov.count("better points tested")
                if d > 1e-7 * (1 + float(np.max(np.abs(z - x)))):
                    bad = (z, d)
                    break
            if bad is not None:
                gg = P.grad2(m, xd, f if val is not None else gamma)
                forms = []
                if val is not None:
                    forms.append((gg, 0.0))
                else:
                    if w1 > -1e-10:
                        forms.append((np.array([1.0, 0.0]), w1))
                    if w2 > -1e-10:
                        forms.append((gg, w2))
                recorded = any(np.max(np.abs(g - g1)) <= 1e-8 and abs(b - (b1 + float(g1 @ (xd - x)))) <= 1e-8
                               for g1, b1 in forms)
                if recorded and known():
                    cov.known_finding(KNOWN)
                    cov.count("cut excludes a better point through the recorded shift")
                else:
                    require(False, "%s: cut (%s, %g) excludes %s with profit %.10g > %.10g", where, g, b, bad[0],
                            m.profit(bad[0]), level)
            # the next attempt of the driver sees the new level
            if val is not None:
                gamma = level


@st.composite
def driver_case(draw):
    c = P.params(draw, True)
    c["space"] = draw(st.sampled_from(["ell", "stable"]))
    c["x0"] = gen.reals(draw, 2, 4.0)
    c["R"] = draw(st.sampled_from([100.0, 30.0, 10.0]))
    c["gamma"] = draw(st.sampled_from([0.0, 0.0, 10.0]))
    return c


def run_driver(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.ell_config import Options
    from ellalgo.oracles.profit_oracle import ProfitQOracle

    m = P.Model(case)
    om = ProfitQOracle((case["p"], case["A"], case["k"]), np.array(case["a"]), np.array(case["v"]))
    sp = S.classes()[case["space"]](case["R"], np.array(case["x0"]))
    o = Options()
    o.max_iters = 300
    x, gam, it = cutting_plane_optim_q(om, sp, case["gamma"], o)
    if x is None:
        require(gam == case["gamma"], "no point but value %r", gam)
        cov.tag("nothing found")
        return
    x = np.array(S.as_vec(x, 2, "point"), dtype=float)
    r = is_int_point(x, "driver")
    f = m.profit(np.log(r))
    require(r[0] <= m.klim * (1 + 1e-12), "driver: point %s beyond the limit %g", r, m.klim)
    require(abs(gam - f) <= 1e-9 * (abs(f) + float(np.sum(m.v * r))), "driver: value %.12g, profit of %s is %.12g", gam, r, f)
    require(gam >= case["gamma"], "driver: value %g below the initial one", gam)
    cov.tag("integer point found")
    cov.nontrivial()


def run_recorded(case, cov):
    """the repository's own example, every run"""
    from ellalgo.oracles.profit_oracle import ProfitQOracle

    c = dict(p=20.0, A=40.0, k=30.5, a=[0.1, 0.4], v=[10.0, 35.0])
    m = P.Model(c)
    om = ProfitQOracle((c["p"], c["A"], c["k"]), np.array(c["a"]), np.array(c["v"]))
    x = np.log(np.array([29.6, 70.4]))
    (g, b), pt, val, _ = om.assess_optim_q(x, 0.0, False)
    xd = np.log(np.round(np.exp(x)))
    ref = float(g @ (x - xd))
    wrong = float(g @ (xd - x))
    for z in P.better_points(m, xd, g, m.profit(xd), [], xd):
        if float(g @ (z - x)) + b > 1e-12:
            require(known() and abs(b - wrong) < 1e-12, "the cut at (29.6, 70.4) excludes better points: depth %g, exact %g",
                    b, ref)
            cov.known_finding(KNOWN)
            return


SUBS = [
    Sub("histories", case_, run, quick=2500, shards=6),
    Sub("wide", lambda: case_(wide=True), run, quick=800, shards=4),
    Sub("long", lambda: case_(k=30), run, quick=150, shards=4),
    Sub("driver", driver_case, run_driver, quick=600, shards=1),
    Sub("recorded", lambda: st.just({}), run_recorded, quick=1, thorough=1, shards=1),
]
