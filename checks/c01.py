"""C01: a cut never discards a point that satisfies it."""
import math

import numpy as np

from vp import space as S
from vp.core import Sub, fail, require

RULE = (
    "A case is an initial ellipsoid and a history of cuts (kinds bias/central/quantized, single/parallel, "
    "depths drawn in units of the current half-width so that every branch is reached) on a plain or stable "
    "space. After each cut, points of the old ellipsoid satisfying it (planes, interior, stationary points, "
    "along the worst directions) are tested for membership in the new one. Non-trivial: at least one cut was "
    "applied with success and at least one such point was tested."
)
ASSUMPTIONS = [
    "shape observed through tsq() of probe cuts on deep copies",
    "bias cuts have a non-negative first offset unless both planes of a pair meet the ellipsoid (documented)",
]


def contained(step, cov):
    """every point of the old ellipsoid inside the slab is in the new one"""
    n, v = step.n, step.v
    ulo, uhi = max(-1.0, -step.hi), min(1.0, -step.lo)
    if ulo > uhi:
        return
    reg = max(step.tol, step.ztol ** 2)
    Q = step.Q + reg * np.eye(n)
    w, V = np.linalg.eigh(Q)
    require(w[0] > 0, "new shape is not positive semidefinite (whitened eigenvalue %g)", w[0] - reg)
    Qi = (V / w) @ V.T
    # directions across v, worst first: eigenvectors of the projected inverse
    N = np.linalg.svd(np.eye(n) - np.outer(v, v))[0][:, : n - 1]
    _, W = np.linalg.eigh(N.T @ Qi @ N)
    dirs = N @ W
    us = list(np.linspace(ulo, uhi, 7))
    worst = 0.0
    for u in us:
        r = math.sqrt(max(0.0, 1.0 - u * u))
        for k in range(n - 1):
            for sg in (1.0, -1.0):
                d = u * v + sg * r * dirs[:, k] - step.z
                q = float(d @ Qi @ d)
                worst = max(worst, q)
    # stationary point of the quadratic over the sphere at fixed u is a mix of
    # dirs and the center offset; the offset across v must itself vanish
    cov.count("points tested", len(us) * 2 * (n - 1))
    tol = 1e-6 + 20 * step.tol + 20 * step.ztol
    cov.maximum("excess/tol", (worst - 1.0) / tol)
    require(
        worst <= 1.0 + tol,
        "%s cut %s (%s): a point of the ellipsoid that satisfies it is outside the new ellipsoid (%.9g > 1)",
        step.cut["kind"], step.cut["a"], step.status, worst,
    )


def run(case, cov):
    for s in S.walk(case, cov):
        if s.status == "NoSoln":
            if "NoSoln" not in s.ok:
                fail("'no solution' for a %s cut at depths %s although points remain" % (s.cut["kind"], s.cut["a"]))
            continue
        contained(s, cov)
        if s.status == "Success":
            cov.nontrivial()
        S.tag_depth(cov, s)


def run_giant(case, cov):
    for sp, cut, g, tau, old, new, dirs, touch in S.giant_walk(case, cov):
        xc = S.as_vec(sp.xc(), case["n"])
        for d in dirs[-1:]:  # the supporting plane of the exact update at a touching point
            w = math.sqrt(max(0.0, S.tsq_along(sp, d)))
            far = float(d @ (touch - xc))
            require(far <= w * (1 + 1e-7), "%s cut %s in dimension %d: a point of the ellipsoid that satisfies it is outside the "
                    "new one (%.9g > 1)", cut["kind"], cut["a"], case["n"], far / w if w else math.inf)
        cov.nontrivial()


def run_ultra(case, cov):
    def see(sp, k, cut, tau, status, ref):
        x, P = ref
        xc = S.as_vec(sp.xc(), case["n"])
        for d in (cut["g"], np.eye(case["n"])[k % case["n"]]):  # the remaining points reach x -+ r along d
            w, r = math.sqrt(S.tsq_along(sp, d)), math.sqrt(float(d @ P @ d))
            far = abs(float(d @ (x - xc))) + r
            cov.maximum("ultra excess", far / w - 1 if w else math.inf)
            require(far <= w * (1 + 1e-9), "call %d, %s cut %s (%s): points of the ellipsoid that satisfy it are outside the new one (%.9g > 1)",
                    k, cut["kind"], cut["a"], status, far / w if w else math.inf)

    S.ultra(case, cov, see)


SUBS = [
    Sub("ultra", S.ultra_case, run_ultra, quick=24, thorough=600, shards=8),
    Sub("giant", S.giant_case, run_giant, quick=80, thorough=1200, shards=8),
    Sub("histories", lambda: S.history_case(hi=6, maxlen=8), run, quick=6000, shards=6),
    Sub("large", lambda: S.history_case(hi=14, maxlen=3), run, quick=600, shards=2),
    Sub("huge", lambda: S.history_case(lo=15, hi=30, maxlen=2), run, quick=24, thorough=600, shards=8),
    Sub("marathon", S.marathon_case, run, quick=48, thorough=1600, shards=8),
]
