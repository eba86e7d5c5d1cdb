"""Direct formulas for the profit oracles."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import require


def params(draw, big=False, wide=False):
    if wide:  # other currencies and units
        return dict(
            p=gen.log_uniform(draw, -2, 4), A=gen.log_uniform(draw, -2, 4), k=gen.log_uniform(draw, -2, 7),
            a=[0.01 + 0.59 * gen.unit(draw), 0.01 + 0.38 * gen.unit(draw)],
            v=[gen.log_uniform(draw, -2, 3), gen.log_uniform(draw, -2, 3)],
        )
    if big:  # optimal quantities well above one
        return dict(
            p=gen.log_uniform(draw, 1, 2.3), A=gen.log_uniform(draw, 1, 2), k=gen.log_uniform(draw, 0.5, 2.3),
            a=[0.05 + 0.4 * gen.unit(draw), 0.1 + 0.4 * gen.unit(draw)],
            v=[gen.log_uniform(draw, 0, 1.5), gen.log_uniform(draw, 0, 1.5)],
        )
    return dict(
        p=gen.log_uniform(draw, 0, 2), A=gen.log_uniform(draw, 0, 2), k=gen.log_uniform(draw, -0.3, 2),
        a=[0.05 + 0.55 * gen.unit(draw), 0.05 + 0.4 * gen.unit(draw)],
        v=[gen.log_uniform(draw, 0, 1.7), gen.log_uniform(draw, 0, 1.7)],
    )


@st.composite
def queries(draw, robust=False, k=6, big=False, wide=False):
    c = params(draw, big, wide)
    if robust:
        z = draw(st.integers(0, 4)) == 3
        big_e = draw(st.sampled_from([1.0, 1.0, 1.0, 1.5]))  # sometimes the elasticity itself may turn negative
        c["e"] = [0.0] * 5 if z else [
            big_e * c["a"][0] * gen.unit(draw), big_e * c["a"][1] * gen.unit(draw), c["p"] * 0.7 * gen.unit(draw),
            c["k"] * 0.7 * gen.unit(draw), (draw(st.sampled_from([min(c["v"]), max(c["v"])])) if wide else 5.0) * gen.unit(draw)]
        c["elist"] = draw(st.booleans())
    c["q"] = []
    for _ in range(draw(st.integers(1 if k <= 6 else 10, k))):
        c["q"].append(dict(
            feas=draw(st.integers(0, 5)) == 4,
            t=draw(st.sampled_from(["wide" if wide else "any", "any", "opt", "opt", "limit", "neg", "same", "axis"])), d=gen.reals(draw, 2, 1.0),
            g=draw(st.sampled_from(["zero", "own", "own", "frac", "frac", "above", "max", "best"])), u=gen.unit(draw),
            e=draw(st.sampled_from([0, 0, 2, 4, 6]))))
    c["buf"] = draw(st.booleans())
    return c


class Model:
    """Worst-case profit over the uncertainty set (a single scenario when e = 0)."""

    def __init__(self, c, e=(0, 0, 0, 0, 0)):
        self.p, self.A, self.k = c["p"], c["A"], c["k"]
        self.a, self.v, self.e = np.array(c["a"]), np.array(c["v"]), list(e)
        self.klim = self.k - self.e[3]

    def scenario(self, x, s):
        """profit for the corner s of the uncertainty box, signs in {-1, 0, 1}"""
        a0, a1 = self.a[0] + s[0] * self.e[0], self.a[1] + s[1] * self.e[1]
        rev = (self.p + s[2] * self.e[2]) * self.A * math.exp(a0 * x[0] + a1 * x[1])
        cost = (self.v[0] + s[3] * self.e[4]) * math.exp(x[0]) + (self.v[1] + s[4] * self.e[4]) * math.exp(x[1])
        return rev - cost, rev, cost

    def worst(self, x):
        """revenue and cost depend on different parameters: smallest revenue less largest cost over the corners"""
        pm = (-1, 1)
        rev = min(self.scenario(x, (s0, s1, s2, 0, 0))[1] for s0 in pm for s1 in pm for s2 in pm)
        cost = max(self.scenario(x, (0, 0, 0, s3, s4))[2] for s3 in pm for s4 in pm)
        return rev - cost, rev, cost

    def profit(self, x):
        return (self.worst(x) if any(self.e) else self.scenario(x, (0,) * 5))[0]

    def parts(self, x):
        return self.worst(x) if any(self.e) else self.scenario(x, (0,) * 5)

    def best_point(self):
        """approximate maximiser (coordinate search in log space), only used to place points"""
        x = np.array([min(math.log(self.klim), 1.0), 1.0])
        f = self.profit(x)
        h = 1.0
        lim = math.log(self.klim)
        while h > 1e-3:
            moved = False
            for d in ((h, 0), (-h, 0), (0, h), (0, -h)):
                y = x + np.array(d)
                y[0] = min(y[0], lim)
                if abs(y[1]) > 20 or abs(y[0]) > 20:
                    continue
                fy = self.profit(y)
                if fy > f:
                    x, f, moved = y, fy, True
            if not moved:
                h /= 2
        return x, f


def point(m, q, prev, opt):
    d = np.array(q["d"])
    if q["t"] == "any":
        return d * 4.0
    if q["t"] == "wide":
        return d * 14.0
    if q["t"] == "opt":
        return opt + d * (1.0 if q["u"] < 0.5 else 0.05)
    if q["t"] == "axis":  # a quantity next to one: the sign of its logarithm decides
        x = opt + d
        x[0 if q["u"] < 0.5 else 1] = math.copysign(10.0 ** -(1 + 11 * abs(q["d"][0])), q["d"][1])
        return x
    if q["t"] == "limit":
        return np.array([math.log(m.klim) + d[0] * 0.01 * 10.0 ** -q.get("e", 0), opt[1] + d[1]])
    if q["t"] == "neg":
        return -np.abs(d) * 3.0
    return prev.copy() if prev is not None else d


def gamma_of(m, q, x, fbest):
    f = m.profit(x)
    if q["g"] == "zero":
        return 0.0
    if q["g"] == "own":
        return max(0.0, f * (1.0 + (q["u"] - 0.5) * 1e-3 * 10.0 ** -q.get("e", 0)))
    if q["g"] == "frac":
        return max(0.0, fbest * q["u"])
    if q["g"] == "above":
        return max(0.0, fbest) * 1.05 + 1.0
    if q["g"] == "max":
        return max(0.0, fbest * 0.999)
    return max(0.0, f * q["u"])


def fns(m, x, g):
    """violations of the two requirements in log space, with gradients"""
    f, rev, cost = m.parts(x)
    return x[0] - math.log(m.klim), math.log(g + cost) - math.log(rev)


def decode(cut, where):
    require(isinstance(cut, tuple) and len(cut) == 2, "%s: cut %r is not a pair", where, cut)
    return np.array(S.as_vec(cut[0], 2, "gradient"), dtype=float), S.as_num(cut[1], "depth")


def grad2(m, x, g):
    """gradient of log(g + cost) - log(revenue) in the worst scenario at x, by its own formula"""
    sg = [-1.0 if xi > 0 else 1.0 for xi in x]
    a = m.a + np.array([sg[0] * m.e[0], sg[1] * m.e[1]])
    w = (m.v + m.e[4]) * np.exp(x)
    return w / (g + float(np.sum(w))) - a


def gdiff(m, x, g, want):
    """difference of gradients; at a zero coordinate any elasticity of the interval is a worst case"""
    d = 0.0
    for i in (0, 1):
        t = abs(float(g[i] - want[i]))
        if x[i] == 0.0:
            lo = want[i] + (m.e[i] if x[i] <= 0 else -m.e[i])  # elasticity a_i
            t = max(0.0, abs(float(g[i] - lo)) - m.e[i])
        d = max(d, t)
    return d


def better_points(m, x, g, level, extra, opt):
    """points that respect the limit and have (worst-case) profit above level"""
    out = []
    lim = math.log(m.klim)
    cand = [opt, *extra]
    ng = float(np.linalg.norm(g))
    if ng > 0:
        for t in (1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1.0):
            cand.append(x - g / ng * t)
            for s in (-1.0, 1.0):
                cand.append(x - g / ng * t + np.array([-g[1], g[0]]) / ng * s * t)
    for y in list(cand):
        cand.append((np.asarray(y) + opt) / 2)
    for y in cand:
        y = np.array(y, dtype=float)
        if np.max(np.abs(y)) > 30:
            continue
        if y[0] <= lim and m.profit(y) > level * (1 + 1e-9) + 1e-9:
            out.append(y)
    return out


def check_cut(m, x, gamma, val, cut, where, cov, extra, opt):
    """claims of C22/C23 about one answer"""
    g, b = decode(cut, where)
    f, rev, cost = m.parts(x)
    v1, v2 = fns(m, x, gamma)
    tol = 1e-10
    ok = v1 <= 0 and v2 <= 0
    if abs(v1) > tol and abs(v2) > tol:
        require((val is not None) == ok, "%s: value %r reported, limit violation %g, profit shortfall %g", where, val, v1, v2)
    level = gamma
    if val is not None:
        val = S.as_num(val, "profit")
        require(abs(val - f) <= 1e-9 * (abs(f) + cost), "%s: reported profit %.12g, profit at the point %.12g", where, val, f)
        require(abs(b) <= tol, "%s: improving cut with depth %g", where, b)
        want = grad2(m, x, f)
        require(gdiff(m, x, g, want) <= 1e-8, "%s: improving cut with gradient %s, expected %s", where, g, want)
        level = f
        cov.tag("improvement")
    else:
        require(b >= 0.0, "%s: negative depth %g", where, b)
        c1 = v1 > -tol and abs(b - v1) <= 1e-9 and np.max(np.abs(g - np.array([1.0, 0.0]))) <= 1e-12
        c2 = v2 > -tol and abs(b - v2) <= 1e-9 and gdiff(m, x, g, grad2(m, x, gamma)) <= 1e-8
        require(c1 or c2, "%s: cut (%s, %g) is not that of a violated requirement (limit %g, profit %g)", where, g, b, v1, v2)
        cov.tag("limit cut" if c1 else "profit cut")
        if v1 > tol and v2 > tol:
            cov.tag("both violated")
    for y in better_points(m, x, g, level, extra, opt):
        d = float(g @ (y - x)) + b
        require(d <= 1e-9 * (1 + float(np.max(np.abs(y - x)))), "%s: cut excludes %s with profit %.10g > %.10g", where, y,
                m.profit(y), level)
        cov.count("better points tested")
    return g, b, level
