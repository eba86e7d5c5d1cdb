"""C23: robust profit oracle guards against the worst case."""
import numpy as np

from hypothesis import strategies as st

from vp import profit as P
from vp.core import Buffer, Sub, require

RULE = (
    "The problems of C22 with drawn uncertainty intervals (sometimes all zero), and query points of every sign "
    "pattern. The worst-case profit is the smallest revenue less the largest cost over the corners of the uncertainty box. Each answer "
    "is checked as in C22 against it and, with zero uncertainty, against the plain oracle. Non-trivial: non-zero "
    "uncertainty and an improvement, or a second query."
)


@st.composite
def case_(draw, **kw):
    return draw(P.queries(robust=True, **kw))


def run(case, cov):
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle

    e = case["e"]
    m = P.Model(case, e)
    a, v = np.array(case["a"]), np.array(case["v"])
    vp_ = list(e) if case["elist"] else tuple(e)
    om = ProfitRbOracle((case["p"], case["A"], case["k"]), a, v, vp_)
    plain = ProfitOracle((case["p"], case["A"], case["k"]), np.array(case["a"]), np.array(case["v"]))
    opt, fbest = m.best_point()
    buf = Buffer(case.get("buf"))
    prev, seen, held = None, [], []
    for k, q in enumerate(case["q"]):
        x = buf.put(P.point(m, q, prev, opt))
        prev = x.copy()
        g = P.gamma_of(m, q, x, fbest)
        x0 = x.copy()
        where = "query %d at %s, level %.6g, uncertainty %s" % (k + 1, x, g, e)
        out = om.assess_optim(x, g)
        require(isinstance(out, tuple) and len(out) == 2, "%s: result %r", where, out)
        cut, val = out
        require(np.array_equal(x, x0), "%s modified the point", where)
        require(np.array_equal(a, case["a"]) and np.array_equal(v, case["v"]), "%s modified the parameters", where)
        P.check_cut(m, x, g, val, cut, where, cov, seen, opt)
        for old, was in held:
            require(np.array_equal(old, was), "%s changed a gradient returned earlier", where)
        held.append((cut[0], np.array(cut[0], copy=True)))
        if not any(e):
            (g1, b1), v1 = plain.assess_optim(x0.copy(), g)
            require((v1 is None) == (val is None), "%s: differs from the plain oracle without uncertainty", where)
            if v1 is not None:
                require(abs(v1 - val) <= 1e-9 * (1 + abs(v1)), "%s: %r, plain oracle %r", where, val, v1)
            cov.tag("compared with the plain oracle")
        cov.tag("signs %s%s" % tuple("+" if t > 0 else "-" for t in x))
        seen.append(x0)
        if any(e) and (val is not None or k):
            cov.nontrivial()


SUBS = [
    Sub("queries", case_, run, quick=2500, shards=8),
    Sub("wide", lambda: case_(wide=True), run, quick=800, shards=4),
    Sub("long", lambda: case_(k=40), run, quick=120, shards=4),
]
