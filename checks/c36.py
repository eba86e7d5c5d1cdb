"""C36: the stable space stays accurate where rounding ruins the plain one."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a history of 20 to 90 cuts whose gradients are clustered around directions that change now and then (spread 1e-1 "
    "down to 1e-8), on an initial ellipsoid whose axes differ by up to 1e6, in any units: bias, central and discrete single cuts "
    "and pairs no thinner than a thousandth of the width, depths given in the width the space itself reports. The reference "
    "applies the minimum-volume updates in 60-digit arithmetic. Every cut must succeed, the width reported at every cut must agree "
    "with the reference within 1e-4 (observed: 1e-6); a history is left when the exact ellipsoid is flatter than 1e22. The factored space only. Non-trivial: the exact shape reaches a condition number of 1e12."
)


@st.composite
def case_(draw, lo=20, hi=60, nmax=5):
    n = draw(st.integers(2, nmax))
    ln = draw(st.integers(lo, hi))
    return dict(n=n, eps=draw(st.sampled_from([-1, -2, -3, -4, -6, -8])), every=draw(st.sampled_from([6, 11, 17, 25, 1000])),
                stretch=draw(st.sampled_from([0.0, 0.0, 1.0, 3.0])), unit=draw(st.sampled_from([0, 0, -30, 30, -8, 8])),
                defer=draw(st.booleans()), mode=draw(st.sampled_from(["single", "pair", "mixed", "central", "q"])),
                d=gen.reals(draw, n), blob=gen.i16s(draw, ln * (2 * n + 3)))


def steps(case):
    n, w = case["n"], 2 * case["n"] + 3
    b = case["blob"]
    base = None
    for k in range(len(b) // w):
        r = b[k * w:(k + 1) * w]
        if base is None or k % case["every"] == case["every"] - 1:
            base = np.array([v / 8192.0 for v in r[:n]])
            if not np.linalg.norm(base) > 1e-3:
                base = np.ones(n)
            base /= np.linalg.norm(base)
        g = base + 10.0 ** case["eps"] * np.array([v / 16384.0 for v in r[n:2 * n]])
        u, v, sel = abs(r[2 * n]) / 32768.0, abs(r[2 * n + 1]) / 32768.0, r[2 * n + 2]
        mode = case["mode"]
        if mode == "mixed":
            mode = ("single", "pair", "central", "q")[sel % 4]
        if mode == "central":
            yield "central", g, [0.0]
        elif mode == "single":
            yield "bias", g, [0.9 * u]
        elif mode == "q":
            yield "q", g, [0.9 * u if sel % 3 else -0.8 * u / n]
        else:
            a0 = 0.5 * u
            yield ("bias", "q")[(sel >> 4) % 2], g, [a0, a0 + 10.0 ** (-3 + 2.5 * v)]


def run(case, cov):
    import mpmath as mp

    n = case["n"]
    d = np.array([10.0 ** (case["unit"] + case["stretch"] * t) for t in case["d"]])
    sp = S.classes()["stable"](d.copy(), np.zeros(n))
    sp.no_defer_trick = case["defer"]
    C = S.statuses()
    with mp.workdps(60):
        P = mp.diag([mp.mpf(float(t)) for t in d])
        done = 0
        for kind, g, a in steps(case):
            G = mp.matrix([mp.mpf(float(t)) for t in g])
            Pg = P * G
            w = (G.T * Pg)[0]
            if sum(P[i, i] for i in range(n)) * sum(v * v for v in G) > mp.mpf(10) ** 22 * w:
                cov.tag("stopped: flatter than 1e22")
                break
            if w < 1e-100:  # products of widths would leave the number range
                break
            t = S.tsq_along(sp, g)
            require(t > 0, "after %d cuts the width along a gradient is reported as zero, it is %s", done, mp.nstr(mp.sqrt(w), 5))
            tau = math.sqrt(t)
            beta = a[0] * tau if len(a) == 1 else (a[0] * tau, a[1] * tau)
            call = dict(bias=sp.update_bias_cut, central=sp.update_central_cut, q=sp.update_q)[kind]
            st_ = call((g.copy(), beta))
            require(st_ == C.Success, "%s cut at depth %s after %d cuts answered %s", kind, a, done, st_)
            err = float(abs(mp.mpf(float(sp.tsq())) - w) / w)
            cov.maximum("width error", err)
            require(err <= 1e-4, "after %d cuts the squared width is %.12g, exactly %s", done, sp.tsq(), mp.nstr(w, 12))
            a1 = min(a[1], 1.0) if len(a) > 1 else 1.0
            _, al, ac = S.ref_params(n, a[0], a1)
            P = mp.mpf(ac) * P + (mp.mpf(al) - mp.mpf(ac)) * (Pg * Pg.T) / w
            done += 1
        ev = [float(v) for v in mp.eigsy(P, eigvals_only=True)]
        cond = max(ev) / min(ev) if min(ev) > 0 else math.inf
    for lim in (1e6, 1e12, 1e18, 1e24):
        if cond >= lim:
            cov.tag("condition number above %.0e" % lim)
    cov.tag(case["mode"])
    if cond >= 1e12:
        cov.nontrivial()


SUBS = [
    Sub("clustered", case_, run, quick=500, thorough=8000, shards=8),
    Sub("long", lambda: case_(lo=60, hi=90, nmax=3), run, quick=150, thorough=3000, shards=8),
]
