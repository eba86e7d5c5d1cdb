"""C21: the filter optimization oracle reports the true worst stopband response."""
import numpy as np

from vp import filt
from vp import space as S
from vp.core import Buffer, Sub, require

RULE = (
    "The specifications, vectors and units of C20, queried for optimality with sequences of levels above, at, just below and "
    "far below the true worst stopband response. An improved level must be reported exactly when every requirement "
    "holds with the given level; it must be the largest stopband response on the grid, and the cut must be the "
    "inequality of a frequency that attains it. Other vectors that meet the specification with a level no larger are "
    "tested against every cut. Non-trivial: an improvement was reported, or a single requirement was violated."
)


def run(case, cov):
    spec, ref, vecs = filt.build(case)
    om = filt.oracle(case, spec)
    buf = Buffer(case.get("buf"))
    n = case["n"]
    for k, q in enumerate(case["q"]):
        j = q["v"] % len(vecs)
        x = buf.put(vecs[j] * q["sc"])
        exact = case["target"] == "flat" and j == 0  # no rounding anywhere
        x0 = x.copy()
        R = ref.resp(x)
        top = float(np.max(R[ref.ns:]))
        lev = {"fit": max(top, 0.0) * 1.2 + 1e-3, "tight": top if exact else top + 1e-6 * (1 + abs(top)), "loose": 1e3 + abs(top),
               "below": top - 1e-3 * 10.0 ** -case.get("e", 0) * (1e-3 + abs(top)), "zero": 0.0}[q["lev"]]
        where = "query %d (n=%d, level %g)" % (k + 1, n, lev)
        out = om.assess_optim(x, lev)
        require(isinstance(out, tuple) and len(out) == 2, "%s: result %r", where, out)
        cut, val = out
        require(np.array_equal(x, x0), "%s modified the coefficients", where)
        tol = filt.tol_of(ref, x) + 1e-11 * abs(lev)
        reqs = ref.violated(x, lev)
        bad = [r for r in reqs if r[0] > (0.0 if exact else tol)]
        worst = max(r[0] for r in reqs)
        if bad:
            require(val is None, "%s: reported level %r although %d requirements are violated (%s by %g)", where, val,
                    len(bad), bad[0][3], bad[0][0])
            cov.tag("no improvement")
            if len(bad) == 1:
                cov.nontrivial()
        elif worst < -tol or exact:
            require(val is not None, "%s: no level reported although all requirements hold (margin %g)", where, -worst)
        if val is None:
            filt.match(ref, x, lev, cut, tol, where, cov)
            g, b = filt.decode(cut, n, where)
        else:
            val = S.as_num(val, "level")
            require(abs(val - top) <= tol, "%s: reported level %.12g, largest stopband response %.12g", where, val, top)
            require(val <= lev + tol, "%s: reported level %g is worse than the given one", where, val)
            g, b = filt.decode(cut, n, where)
            hit = [j for j in range(ref.ns, ref.m) if np.max(np.abs(ref.rows[j] - g)) <= 1e-9 and abs(R[j] - top) <= tol]
            require(hit, "%s: the cut is not that of a frequency with the largest response", where)
            require(isinstance(b, tuple) and abs(b[0]) <= tol and abs(b[1] - top) <= tol or
                    not isinstance(b, tuple) and abs(b) <= tol,
                    "%s: offsets %s, expected (0, %g)", where, b, top)
            cov.tag("improvement, level " + q["lev"])
            cov.nontrivial()
        # any vector that meets the specification with a level no larger satisfies the cut
        limit = lev if val is None else val
        for z in vecs:
            for sc in (1.0, 0.5):
                y = z * sc
                ty = filt.tol_of(ref, y) + tol
                if max(r[0] for r in ref.violated(y, limit)) < 0.0:
                    d = float(g @ (y - x))
                    b0 = b[0] if isinstance(b, tuple) else b
                    require(d + b0 <= ty, "%s: a vector meeting the specification violates the cut by %g", where, d + b0)
                    if isinstance(b, tuple):
                        require(d + b[1] >= -ty, "%s: a vector meeting the specification violates the second half of "
                                "the cut by %g", where, -d - b[1])
                    cov.tag("feasible vector against the cut")


SUBS = [
    Sub("queries", filt.filt_case, run, quick=4000, shards=8),
    Sub("large", lambda: filt.filt_case(13, 64), run, quick=300, shards=4),
    Sub("long", lambda: filt.filt_case(2, 12, 60), run, quick=200, shards=4),
]
