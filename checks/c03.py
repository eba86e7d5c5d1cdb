"""C03: plain and stable search spaces are interchangeable."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is an initial ellipsoid and a history of cuts given to a plain and to a stable space; statuses, "
    "centers (in units of the ellipsoid) and reported widths are compared after every cut, final shapes at the "
    "end. Non-trivial: at least two successful cuts were compared."
)


def run(case, cov):
    cl = S.classes()
    a = S.make_space(cl["ell"], case["init"], case["n"])[0]
    b = S.make_space(cl["stable"], case["init"], case["n"])[0]
    if case["defer"]:
        a.no_defer_trick = True
    if case.get("defer_b"):
        b.no_defer_trick = True
    done = S.lockstep(case, cov, a, b, lambda c, g, beta: (g.copy(), beta), lambda x: x, lambda c: 1.0,
                      "plain against stable")
    S.compare_shapes(case, cov, a, b, "plain against stable")
    cov.tag("successful cuts: %s" % ("5+" if done >= 5 else str(done)))
    if done >= 2:
        cov.nontrivial()


@st.composite
def long_case(draw):
    """long histories that keep the ellipsoid round: cycling axis-like cuts"""
    n = draw(st.integers(2, 5))
    init = draw(S.init_case(n, wide=False, spread=1.0))
    ln = draw(st.integers(10, 40))
    cuts = []
    for k in range(ln):
        g = [x * 0.3 for x in gen.reals(draw, n)]
        g[k % n] += 1.0 if draw(st.booleans()) else -1.0
        u = gen.unit(draw)
        pair = draw(st.booleans())
        kind = draw(st.sampled_from(["bias", "central", "q"]))
        cuts.append(dict(kind=kind, g=g, a=[0.3 * u] if not pair else [0.3 * u, 0.3 * u + 0.3 + 0.3 * u],
                         gscale=1.0, gtype="f8", form=draw(st.sampled_from(["plain", "list", "array"]))))
    return dict(n=n, init=init, defer=draw(st.booleans()), defer_b=draw(st.booleans()), cuts=cuts)


def run_ultra(case, cov):
    n = case["n"]
    d = case["base"] * (np.arange(1, n + 1) if case["diag"] else np.ones(n))
    other = S.classes()["stable" if case["space"] == "ell" else "ell"]
    twin = other(d.copy() if case["diag"] else float(case["base"]), np.zeros(n))
    twin.no_defer_trick = case["other_defer"]

    def see(sp, k, cut, tau, status, ref):
        ta, tb = S.as_num(sp.tsq(), "tsq"), S.as_num(twin.tsq(), "tsq")
        what = "plain against stable: call %d (%s %s, %s)" % (k, cut["kind"], cut["a"], status)
        require(abs(ta - tb) <= 1e-9 * tau * tau, "%s: tsq %.12g against %.12g", what, ta, tb)
        xa, xb = S.as_vec(sp.xc(), n), S.as_vec(twin.xc(), n)
        for e in (cut["g"], np.eye(n)[k % n]):
            w = float(e @ ref[1] @ e)
            cov.maximum("ultra width difference", abs(ta - tb) / tau ** 2)
            require(abs(float(e @ (xa - xb))) <= 1e-9 * np.sqrt(w), "%s: centers %s against %s", what, xa, xb)

    S.ultra(case, cov, see, twin)


def run_giant(case, cov):
    other = S.classes()["stable" if case["space"] == "ell" else "ell"]
    S.giant_twins(case, cov, other, lambda g: g, lambda x: x, "plain against stable", nmax=80)


SUBS = [
    Sub("giant", S.giant_case, run_giant, quick=24, thorough=600, shards=8),
    Sub("ultra", S.ultra_case, run_ultra, quick=24, thorough=600, shards=8),
    Sub("histories", lambda: S.history_case(hi=7, big=16, maxlen=10), run, quick=3500, shards=5),
    Sub("long", long_case, run, quick=600, shards=3),
    Sub("huge", lambda: S.history_case(lo=17, hi=32, maxlen=3), run, quick=24, thorough=600, shards=8),
    Sub("marathon", lambda: S.marathon_case(hi=200), run, quick=64, thorough=1600, shards=8),
]
