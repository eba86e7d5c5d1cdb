"""C22: profit oracle: exact profit, valid cuts."""
import numpy as np

from vp import profit as P
from vp.core import Buffer, Sub, require

RULE = (
    "Drawn prices, scale, limit and elasticities, and up to six queries (feasibility and optimality) at points around "
    "the optimum, the limit and elsewhere, with levels at, below and above the attainable profit. The reference is the "
    "profit formula evaluated directly; each cut must be that of a violated requirement and is tested against points "
    "with higher profit placed just beyond it. Non-trivial: an improvement, or a query at which only one requirement "
    "is violated, after an earlier query."
)


def run(case, cov):
    from ellalgo.oracles.profit_oracle import ProfitOracle

    m = P.Model(case)
    a, v = np.array(case["a"]), np.array(case["v"])
    om = ProfitOracle((case["p"], case["A"], case["k"]), a, v)
    opt, fbest = m.best_point()
    buf = Buffer(case.get("buf"))
    prev = None
    seen = []
    held = []
    for k, q in enumerate(case["q"]):
        x = buf.put(P.point(m, q, prev, opt))
        prev = x.copy()
        g = P.gamma_of(m, q, x, fbest)
        x0 = x.copy()
        where = "query %d at %s, level %.6g" % (k + 1, x, g)
        if q["feas"]:
            cut = om.assess_feas(x, g)
            require(np.array_equal(x, x0), "%s modified the point", where)
            if cut is None:
                v1, v2 = P.fns(m, x, g)
                require(v1 <= 1e-10 and v2 <= 1e-10, "%s: accepted with violations %g, %g", where, v1, v2)
                cov.tag("accepted by assess_feas")
                seen.append(x0)
                continue
            val = None
        else:
            out = om.assess_optim(x, g)
            require(isinstance(out, tuple) and len(out) == 2, "%s: result %r", where, out)
            cut, val = out
        require(np.array_equal(x, x0), "%s modified the point", where)
        require(np.array_equal(a, case["a"]) and np.array_equal(v, case["v"]), "%s modified the parameters", where)
        P.check_cut(m, x, g, val, cut, where, cov, seen, opt)
        for old, was in held:
            require(np.array_equal(old, was), "%s changed a gradient returned earlier", where)
        held.append((cut[0], np.array(cut[0], copy=True)))
        seen.append(x0)
        if val is not None or k:
            cov.nontrivial()


SUBS = [
    Sub("queries", P.queries, run, quick=3000, shards=8),
    Sub("wide", lambda: P.queries(wide=True), run, quick=1200, shards=4),
    Sub("long", lambda: P.queries(k=40), run, quick=150, shards=4),
]
