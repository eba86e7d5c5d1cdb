"""C20: the filter feasibility oracle checks every frequency in every band."""
import numpy as np

from vp import filt
from vp.core import Buffer, Sub, require

RULE = (
    "A filter size (2 to 12; large: to 64), band edges anywhere on the grid or next to the extreme value of the response, up to three coefficient vectors (mostly "
    "autocorrelations) and bounds fitted so that the first vector meets everything, or misses exactly one frequency of "
    "one band by a small amount; a sequence of up to eight queries (long: sixty) that moves the oracle's position, including scaled "
    "vectors, in any units of the response. The reference evaluates every requirement on the documented grid at once. Non-trivial: a "
    "vector with exactly one violated requirement was queried, or the oracle was queried after a cut."
)


def run(case, cov):
    spec, ref, vecs = filt.build(case)
    om = filt.oracle(case, spec)
    buf = Buffer(case.get("buf"))
    sp = spec[4]
    cuts = 0
    for k, q in enumerate(case["q"]):
        j = q["v"] % len(vecs)
        x = buf.put(vecs[j] * q["sc"])
        exact = case["target"] == "flat" and j == 0  # no rounding anywhere
        x0 = x.copy()
        where = "query %d (n=%d, target %s)" % (k + 1, case["n"], case["target"])
        ans = om.assess_feas(x)
        require(np.array_equal(x, x0), "%s modified the coefficients", where)
        tol = filt.tol_of(ref, x) + 1e-11 * abs(sp)
        bad = [r for r in ref.violated(x, sp) if r[0] > (0.0 if exact else tol)]
        worst = max([r[0] for r in ref.violated(x, sp)])
        if bad:
            require(ans is not None, "%s: accepted although %d requirements are violated (%s by %g)", where, len(bad),
                    bad[0][3], bad[0][0])
            if len(bad) == 1:
                cov.tag("single violation: " + bad[0][3])
                cov.nontrivial()
        elif worst < -tol or exact:
            require(ans is None, "%s: rejected coefficients that meet every requirement (margin %g)", where, -worst)
            cov.tag("accepted, a bound attained" if exact and worst == 0.0 else "accepted")
        if ans is not None:
            filt.match(ref, x, sp, ans, tol, where, cov)
            if cuts:
                cov.nontrivial()
            cuts += 1


SUBS = [
    Sub("queries", filt.filt_case, run, quick=4000, shards=8),
    Sub("large", lambda: filt.filt_case(13, 64), run, quick=300, shards=4),
    Sub("long", lambda: filt.filt_case(2, 12, 60), run, quick=200, shards=4),
]
