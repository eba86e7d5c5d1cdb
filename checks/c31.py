"""C31: filter design end to end."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import filt, gen, spec
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a specification that a drawn autocorrelation meets with margin (2 to 7 coefficients, band edges anywhere "
    "on the grid, lower and upper passband bounds, initial stopband level), one of the search spaces, parallel cuts on or "
    "off, a starting centre, a tolerance, units of the response, a new or a used oracle. The driver must return coefficients; all requirements are re-evaluated at "
    "once, the value must be their largest stopband response, and (runs that ended by themselves) lie within the gap "
    "implied by the tolerance above the optimum of the linear program solved by scipy. The spectral factor's magnitude "
    "response is compared with the coefficients'. Non-trivial: at least 20 iterations."
)


@st.composite
def case_(draw, lo=2, hi=7):
    n = draw(st.one_of(st.integers(lo, min(hi, lo + 2)), st.integers(lo, hi)))
    m = 15 * n
    a = draw(st.integers(0, m - 3))
    b = draw(st.integers(a, m - 2))
    return dict(
        n=n, a=a, b=b, h=gen.reals(draw, n), low=draw(st.booleans()), sl=[abs(t) for t in gen.reals(draw, 4)],
        gain=gen.log_uniform(draw, -1, 1) if draw(st.integers(0, 3)) else gen.log_uniform(draw, -8, 8),
        warm=draw(st.integers(0, 3)) == 0, space=draw(st.sampled_from(["ell", "stable"])), par=draw(st.booleans()),
        c=draw(st.sampled_from(["zero", "zero", "off"])), off=gen.reals(draw, n), R=1.1 + 3 * gen.unit(draw),
        tol=draw(st.sampled_from([1e-6, 1e-9, 1e-12])), lim=draw(st.sampled_from([None, None, None, 60])),
        axes=draw(st.booleans()),
    )


def problem(case):
    n = case["n"]
    m = 15 * n
    h = np.array(case["h"])
    if case["low"]:
        h = 0.2 * h + np.hanning(n + 2)[1:-1]
    if float(h @ h) < 1e-6:
        h[0] = 1.0
    r = spec.autocorr(h)
    r = r * case["gain"] / r[0]
    wpass, wstop = (case["a"] + 0.4) / (m - 1), (case["b"] + 0.7) / (m - 1)
    ref = filt.Ref(n, wpass, wstop, 0.0, 0.0)
    s = [0.02 + 0.3 * v for v in case["sl"]]
    r[0] += s[3] * case["gain"]
    R = ref.resp(r)
    P, T = R[: ref.np_], R[ref.ns:]
    lp = float(np.min(P)) * (1 - s[0])
    up = float(np.max(P)) * (1 + s[1])
    sp = float(np.max(T)) * (1 + s[2])
    ref.lp, ref.up = lp, up
    return n, r, ref, (wpass, wstop, lp, up, sp)


def optimum(ref, sp, u):
    from scipy.optimize import linprog

    n = ref.n
    A, b = [], []
    for k in range(ref.m):
        row = list(ref.rows[k])
        neg = [-t for t in row]
        if k < ref.np_:
            A += [row + [0.0], neg + [0.0]]
            b += [ref.up / u, -ref.lp / u]
        elif k >= ref.ns:
            A += [row + [-1.0], neg + [0.0]]
            b += [0.0, 0.0]
        else:
            A += [neg + [0.0]]
            b += [0.0]
    bounds = [(0, None)] + [(None, None)] * (n - 1) + [(0.0, sp / u)]
    res = linprog([0.0] * n + [1.0], A_ub=np.array(A), b_ub=np.array(b), bounds=bounds)
    if res.status != 0:
        return None, None
    return float(res.fun) * u, np.array(res.x[:-1]) * u


def run(case, cov):
    from ellalgo.cutting_plane import Options, cutting_plane_optim
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable
    from ellalgo.oracles.lowpass_oracle import LowpassOracle
    from ellalgo.oracles.spectral_fact import spectral_fact

    n, r, ref, sp_ = problem(case)
    sp = sp_[4]
    slack = -max(q[0] for q in ref.violated(r, sp))
    rad = slack / math.sqrt(4 * n - 3)
    if rad < 1e-4 * case["gain"]:
        cov.tag("margin too small")
        return
    best, xb = optimum(ref, sp, case["gain"])
    c = np.zeros(n) if case["c"] == "zero" else np.array(case["off"]) * case["gain"]
    reach = float(np.linalg.norm(r - c)) + rad
    if xb is not None:
        reach = max(reach, float(np.linalg.norm(xb - c)) * 1.001)
    radius = reach * case["R"]
    val = np.full(n, radius ** 2) if case["axes"] else radius ** 2
    ell = (Ell if case["space"] == "ell" else EllStable)(val, c.copy())
    ell.helper.use_parallel_cut = case["par"]
    om = LowpassOracle(n, *sp_)
    if case["warm"]:  # the oracle object has been used before
        o2 = Options()
        o2.max_iters = 40
        cutting_plane_optim(om, Ell(radius ** 2, c.copy()), sp, o2)
        cov.tag("used oracle")
    opt = Options()
    opt.tolerance = case["tol"] * case["gain"] ** 2
    # volume argument: enough steps to shrink below the ball of solutions
    need = int(2 * (n + 1) * n * math.log(2 * radius / rad)) + 10
    opt.max_iters = 20000 if case["lim"] is None else case["lim"]
    x, level, it = cutting_plane_optim(om, ell, sp, opt)
    where = "%d coefficients, %s, parallel %s" % (n, case["space"], case["par"])
    if x is None:
        if opt.max_iters < need or case["tol"] > 1e-6:
            cov.tag("limit")
            return
        # the tolerance may stop the search only when the ellipsoid is thinner than the ball
        require(math.sqrt(opt.tolerance) >= rad * 0.9, "%s: nothing found after %d iterations although a ball of radius %g of "
                "coefficients meets the specification", where, it, rad)
        return
    x = np.array(S.as_vec(x, n, "coefficients"), dtype=float)
    level = S.as_num(level, "level")
    tol = filt.tol_of(ref, x) + 1e-11 * sp
    bad = [q for q in ref.violated(x, level) if q[0] > tol]
    require(not bad, "%s: the returned coefficients miss %d requirements (%s by %g)", where, len(bad),
            bad and bad[0][3], bad and bad[0][0])
    top = float(np.max(ref.resp(x)[ref.ns:]))
    require(abs(top - level) <= tol, "%s: value %.12g, largest stopband response %.12g", where, level, top)
    require(level <= sp + tol, "%s: value %g above the initial level %g", where, level, sp)
    if best is not None:
        require(level >= best - 1e-6 * (sp + best), "%s: value %g below the optimum %g", where, level, best)
    if best is not None and it < opt.max_iters:
        theta = min(1.0, math.sqrt(opt.tolerance) / rad)
        gap = 1.05 * theta * (sp - best) + 1e-6 * sp
        cov.maximum("gap/allowed", (level - best) / gap)
        require(level <= best + gap, "%s: value %.9g after %d iterations, optimum %.9g, allowed gap %g", where, level, it, best,
                gap)
        cov.tag("optimal")
    elif it >= opt.max_iters:
        cov.tag("stopped by the limit")
    if it >= 20:
        cov.nontrivial()
    cov.tag("%s%s" % (case["space"], " parallel" if case["par"] else ""))
    if 0.1 <= case["gain"] <= 10.0:  # the factorization clips at absolute levels
        factor(x, n, spectral_fact, where, cov)


def factor(x, n, spectral_fact, where, cov):
    W = spec.spectrum(x)
    low, hi = float(np.min(W)), float(np.max(W))
    R = spec.spectrum(x, 50 * n + 1)  # the sampling grid of the factorization, half of it
    low = min(low, float(np.min(R)))
    x0 = x.copy()
    try:
        h = spectral_fact(x)
    except RuntimeError:
        require(low <= -0.9e-4, "%s: the factorization refused coefficients with smallest response %g", where, low)
        cov.tag("negative between the grid points")
        return
    require(np.array_equal(x, x0), "spectral_fact modified its input")
    h = np.array(S.as_vec(h, n, "impulse response"), dtype=float)
    r = spec.autocorr(h)
    if low > 1e-6 * hi:
        full = np.concatenate([x[:0:-1], x])
        z = np.abs(np.roots(full)) if n > 1 and np.any(full[1:]) else np.zeros(0)
        rho = float(np.max(z[z < 1.0])) if np.any(z < 1.0) else 0.0
        tol = 1e-9 + 1e-12 * n * hi / low + 4 * n * rho ** (50 * n)
        cov.tag("factored, strictly positive")
    else:
        tol = 0.15
        cov.tag("factored, touching zero")
    if tol > 0.15:
        tol = 0.15
    err = float(np.max(np.abs(spec.spectrum(r) - np.maximum(W, 0.0)))) / hi
    cov.maximum("response error/tolerance", err / tol)
    require(err <= tol, "%s: the impulse response's squared magnitude is off by %g of its maximum (tolerance %g)", where, err,
            tol)


SUBS = [
    Sub("design", case_, run, quick=1600, thorough=16000, shards=8),
    Sub("large", lambda: case_(8, 14), run, quick=32, thorough=800, shards=8),
]
