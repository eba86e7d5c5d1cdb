"""C10: feasibility search finds a point whenever a ball of them exists."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a convex set with a known inner ball (intersection of half-spaces, slabs, balls and ellipsoids around "
    "a drawn point) placed inside a drawn initial ellipsoid, and a separation oracle that picks among violated "
    "constraints in a drawn order and returns central, deep or parallel cuts. The search must return a point the "
    "oracle accepts within ln(vol E0/vol ball)*2(n+1) cuts. empty: contradictory constraints; none may be returned. "
    "Non-trivial: at least three cuts were needed."
)


@st.composite
def case_(draw, lo=2, hi=6):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(["scalar", "diag"]))
    R = gen.log_uniform(draw, -1, 2)
    val = R * R if kind == "scalar" else [R * R * 10.0 ** (0.7 * t) for t in gen.reals(draw, n)]
    r = draw(st.sampled_from([0.1, 0.03, 0.01, 1e-3, 1e-4]))
    cons = []
    for _ in range(draw(st.integers(3, 10))):
        cons.append(dict(t=draw(st.sampled_from(["half", "half", "slab", "ball", "ell"])), g=gen.vec(draw, n),
                         slack=draw(st.sampled_from([0.0, 0.0, 0.0, 0.2, 1.0])), off=gen.reals(draw, n)))
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable"])), val=val, xc=gen.reals(draw, n, 2.0),
                r=r, dir=gen.vec(draw, n), frac=gen.unit(draw) ** 0.5, cons=cons, mode=draw(st.sampled_from(
                    ["deep", "deep", "central", "mixed"])), pick=draw(st.sampled_from(["first", "worst", "round"])),
                parallel=draw(st.booleans()), defer=draw(st.integers(0, 3)) == 0)


class Oracle:
    """separation oracle of the set {c_i(x) <= 0}; every constraint contains ball(c, r)"""

    def __init__(self, case, c, r):
        self.case, self.cons, self.k, self.calls = case, [], 0, 0
        for d in case["cons"]:
            g = np.array(d["g"])
            g = g / np.linalg.norm(g)
            s = r * (1.0 + d["slack"])
            if d["t"] == "half":
                self.cons.append(("half", g, float(g @ c) + s, None))
            elif d["t"] == "slab":
                self.cons.append(("slab", g, float(g @ c) + s, float(g @ c) - s * (1 + d["slack"])))
            elif d["t"] == "ball":
                off = np.array(d["off"]) * s
                self.cons.append(("ball", c + off, r + float(np.linalg.norm(off)) + s * d["slack"], None))
            else:
                # |L(x-c)| <= 1 with L = diag, smallest semi-axis r
                ax = r * (1.0 + 4.0 * np.abs(np.array(d["off"])))
                self.cons.append(("ell", c, 1.0 / ax, None))

    def viol(self, x):
        out = []
        for t, p, q, q2 in self.cons:
            if t == "half":
                out.append((float(p @ x) - q, p, None))
            elif t == "slab":
                v = float(p @ x)
                if v > q:
                    out.append((v - q, p, v - q2))
                else:
                    out.append((q2 - v, -p, q - v))
            elif t == "ball":
                d = x - p
                nd = float(np.linalg.norm(d))
                out.append((nd - q, d / nd if nd > 0 else d, None))
            else:
                y = (x - p) * q
                ny = float(np.linalg.norm(y))
                out.append((ny - 1.0, (y * q) / ny if ny > 0 else y, None))
        return out

    def assess_feas(self, x):
        self.calls += 1
        if self.calls > 20000:
            raise script.Runaway("too many oracle calls")
        vs = self.viol(np.array(x, dtype=float))
        bad = [i for i, v in enumerate(vs) if v[0] > 0]
        if not bad:
            return None
        if self.case["pick"] == "worst":
            i = max(bad, key=lambda j: vs[j][0])
        elif self.case["pick"] == "round":
            self.k += 1
            i = bad[self.k % len(bad)]
        else:
            i = bad[0]
        f, g, f2 = vs[i]
        deep = self.case["mode"] == "deep" or (self.case["mode"] == "mixed" and self.calls % 2 == 0)
        if f2 is not None and self.case["parallel"]:
            return g.copy(), (f if deep else 0.0, f2)
        return g.copy(), (f if deep else 0.0)


def build(case):
    n = case["n"]
    xc = np.array(case["xc"])
    val = case["val"] if np.isscalar(case["val"]) else np.array(case["val"])
    ax = np.sqrt(np.full(n, val) if np.isscalar(case["val"]) else val)
    r = case["r"] * float(np.min(ax))
    d = np.array(case["dir"])
    d = d / np.linalg.norm(d)
    # ball(c, r) inside the ellipsoid: shrink the offset accordingly
    c = xc + ax * d * case["frac"] * (1.0 - case["r"]) * 0.999
    sp = S.classes()[case["space"]](val, xc)
    if case["defer"]:
        sp.no_defer_trick = True
    return n, sp, ax, c, r


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import Options

    n, sp, ax, c, r = build(case)
    om = Oracle(case, c, r)
    bound = math.ceil(2.0 * (n + 1) * (float(np.sum(np.log(ax))) - n * math.log(r))) + 2
    o = Options()
    o.max_iters = bound
    x, it = cutting_plane_feas(om, sp, o)
    require(x is not None, "no point found within %d cuts although a ball of radius %g is feasible (dimension %d)",
            bound, r, n)
    x = S.as_vec(x, n, "point")
    require(all(v[0] <= 0 for v in om.viol(x)), "the point returned is not feasible")
    cov.tag("cuts: %s" % ("<3" if it < 3 else "3-20" if it <= 20 else ">20"))
    cov.maximum("cuts/bound", it / bound)
    if it >= 3:
        cov.nontrivial()


def run_empty(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas
    from ellalgo.ell_config import Options

    n, sp, ax, c, r = build(case)
    om = Oracle(case, c, r)
    g = np.array(case["cons"][0]["g"])
    g = g / np.linalg.norm(g)
    gap = r
    om.cons.append(("half", g, float(g @ c), None))
    om.cons.append(("half", -g, -float(g @ c) - gap, None))
    o = Options()
    o.max_iters = 2000
    x, it = cutting_plane_feas(om, sp, o)
    require(x is None, "a point was returned for an empty set: %s", x)
    if it >= 3:
        cov.nontrivial()
    cov.maximum("cuts to detect emptiness", it)


SUBS = [
    Sub("ball", case_, run, quick=3000, shards=6),
    Sub("large", lambda: case_(lo=8, hi=16), run, quick=120, thorough=3000, shards=8),
    Sub("empty", case_, run_empty, quick=400, shards=2),
]
