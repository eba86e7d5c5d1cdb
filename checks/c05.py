"""C05: the reported squared width is the true one."""
import numpy as np

from vp import space as S
from vp.core import Sub, require

RULE = (
    "Histories of cuts on a plain or stable space. The reported width is compared with g'Pg after every call, "
    "where P is the shape before it: the shape given to the constructor at first, and afterwards the probed one, "
    "which itself is compared with the minimum-volume update of its predecessor, so the chain starts at a known "
    "matrix. Before the first call it must be zero. Non-trivial: a width was compared after a failed call or "
    "after at least one successful cut."
)


def run(case, cov):
    def init(sp, xc, P, xc0, P0):
        require(S.as_num(sp.tsq(), "tsq") == 0.0, "tsq is %r before the first cut", sp.tsq())
        require(np.max(np.abs(P - P0)) <= 1e-9 * np.max(P0), "initial shape observed %s, given %s", P.tolist(),
                P0.tolist())
        require(np.array_equal(xc, xc0), "initial center %s, given %s", xc, xc0)
        cov.tag("initial " + case["init"]["kind"])

    n_ok = 0
    for s in S.walk(case, cov, on_init=init):
        want = float(s.gf @ s.before.P @ s.gf)
        rel = abs(s.tsq - want) / (s.tau ** 2)
        cov.maximum("relative error/tol", rel / (1e-8 + 10 * s.tol))
        require(rel <= 1e-8 + 10 * s.tol, "%s cut %s (%s): tsq %.12g, g'Pg is %.12g", s.cut["kind"], s.cut["a"],
                s.status, s.tsq, want)
        if s.status != "Success" or n_ok:
            cov.nontrivial()
        if s.status == "Success":
            n_ok += 1
            # distance from the old center to remaining points along g is at most sqrt(tsq)
            if s.exact and s.lo <= 1.0 and s.hi >= s.lo and 1.0 + s.n * s.lo * s.hi >= 0:
                z, Q = S.ref_shape(s.n, s.lo, s.hi, s.v)
                dQ = float(np.max(np.abs(Q - s.Q)))
                require(dQ <= 1e-6 + 30 * s.tol, "width after a %s cut %s is off: whitened difference %g",
                        s.cut["kind"], s.cut["a"], dQ)


def run_giant(case, cov):
    for sp, cut, g, tau, (x, P), new, dirs, _ in S.giant_walk(case, cov):
        t = S.as_num(sp.tsq(), "tsq")
        require(abs(t - tau * tau) <= 1e-7 * tau * tau, "%s cut %s in dimension %d: tsq %.12g, g'Pg is %.12g", cut["kind"], cut["a"],
                case["n"], t, tau * tau)
        cov.nontrivial()


def run_ultra(case, cov):
    def see(sp, k, cut, tau, status, ref):
        t = S.as_num(sp.tsq(), "tsq")
        cov.maximum("ultra width error", abs(t / tau / tau - 1))
        require(abs(t - tau * tau) <= 1e-9 * tau * tau, "call %d, %s cut %s (%s): tsq %.12g, g'Pg is %.12g", k, cut["kind"], cut["a"], status,
                t, tau * tau)

    S.ultra(case, cov, see)


SUBS = [
    Sub("ultra", S.ultra_case, run_ultra, quick=24, thorough=600, shards=8),
    Sub("giant", S.giant_case, run_giant, quick=80, thorough=1200, shards=8),
    Sub("histories", lambda: S.history_case(hi=6, maxlen=8), run, quick=5000, shards=6),
    Sub("large", lambda: S.history_case(hi=14, maxlen=3), run, quick=500, shards=2),
    Sub("huge", lambda: S.history_case(lo=15, hi=30, maxlen=2), run, quick=24, thorough=600, shards=8),
    Sub("marathon", S.marathon_case, run, quick=48, thorough=1600, shards=8),
]
