"""C02: an applied cut gives the minimum-volume enclosing ellipsoid."""
import math

import numpy as np

from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is an initial ellipsoid and a history of cuts on a plain or stable space, depths drawn in units of "
    "the current half-width. After each successful cut whose planes meet the ellipsoid, center and shape (observed "
    "in coordinates where the old ellipsoid is the unit ball) are compared with the minimum-volume ellipsoid "
    "computed with 50 digits from its optimality conditions, and the volume ratio with the classical bound. "
    "Non-trivial: at least one successful cut was compared."
)
ASSUMPTIONS = ["shape observed through tsq() of probe cuts on deep copies"]


def run(case, cov):
    for s in S.walk(case, cov):
        if s.status != "Success" or not s.exact or "Success" not in s.ok or s.hi < s.lo or s.lo > 1.0 \
                or 1.0 + s.n * s.lo * s.hi < 0:
            continue
        z, Q = S.ref_shape(s.n, s.lo, s.hi, s.v)
        dz = float(np.max(np.abs(z - s.z)))
        dQ = float(np.max(np.abs(Q - s.Q)))
        tz, tq = 1e-7 + 10 * s.ztol, 1e-7 + 30 * s.tol
        cov.maximum("center error/tol", dz / tz)
        cov.maximum("shape error/tol", dQ / tq)
        what = "%s cut at depths %s in dimension %d" % (s.cut["kind"], s.cut["a"], s.n)
        require(dz <= tz, "%s: center is off the minimum-volume one by %g (whitened)", what, dz)
        require(dQ <= tq, "%s: shape is off the minimum-volume one by %g (whitened)", what, dQ)
        if s.lo >= 0.0:
            w = np.linalg.eigvalsh(s.Q)
            vol = float(np.prod(np.sqrt(np.maximum(w, 0.0))))
            bound = math.exp(-1.0 / (2.0 * (s.n + 1.0)))
            require(vol <= bound * (1 + 1e-6 + 30 * s.n * s.tol), "%s: volume ratio %g above %g", what, vol, bound)
            cov.tag("deep or central cut: volume bound checked")
        cov.nontrivial()
        S.tag_depth(cov, s)


def run_giant(case, cov):
    n = case["n"]
    for sp, cut, g, tau, old, (x, P), dirs, _ in S.giant_walk(case, cov):
        what = "%s cut at depths %s in dimension %d" % (cut["kind"], cut["a"], n)
        xc = S.as_vec(sp.xc(), n)
        for d in dirs:
            w = float(d @ P @ d)
            t = S.tsq_along(sp, d)
            require(abs(t - w) <= 1e-7 * w, "%s: squared width %.12g along a direction, minimum-volume %.12g", what, t, w)
            dx = float(d @ (xc - x))
            require(abs(dx) <= 1e-7 * math.sqrt(w), "%s: center is off the minimum-volume one by %g half-widths", what, dx / math.sqrt(w))
        cov.nontrivial()


def run_ultra(case, cov):
    n = case["n"]

    def see(sp, k, cut, tau, status, ref):
        x, P = ref
        xc = S.as_vec(sp.xc(), n)
        what = "call %d, %s cut at depths %s (%s)" % (k, cut["kind"], cut["a"], status)
        for d in (cut["g"], np.eye(n)[k % n]):
            w, t = float(d @ P @ d), S.tsq_along(sp, d)
            cov.maximum("ultra width error", abs(t / w - 1))
            require(abs(t - w) <= 1e-9 * w, "%s: squared width %.12g along a direction, minimum-volume %.12g", what, t, w)
            dx = float(d @ (xc - x))
            require(abs(dx) <= 1e-9 * math.sqrt(w), "%s: center is off the minimum-volume one by %g half-widths", what, dx / math.sqrt(w))

    S.ultra(case, cov, see)


SUBS = [
    Sub("ultra", S.ultra_case, run_ultra, quick=24, thorough=600, shards=8),
    Sub("giant", S.giant_case, run_giant, quick=80, thorough=1200, shards=8),
    Sub("histories", lambda: S.history_case(hi=6, maxlen=8), run, quick=5000, shards=6),
    Sub("large", lambda: S.history_case(hi=14, maxlen=3), run, quick=600, shards=2),
    Sub("huge", lambda: S.history_case(lo=15, hi=30, maxlen=2), run, quick=24, thorough=600, shards=8),
    Sub("marathon", S.marathon_case, run, quick=48, thorough=1600, shards=8),
]
