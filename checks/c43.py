"""C43: quantized filter design end to end."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vp import filt, gen, script, spec
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a filter specification that a drawn impulse response with coefficients on a lattice meets (2 to 4 coefficients), a "
    "step of the lattice, either search space, parallel cuts on or off, an initial ellipsoid of autocorrelations, a limit. The check's "
    "oracle is the one users write for multiplierless filters: the library's filter oracle at the center, spectral factorization, "
    "rounding of the impulse response, the autocorrelation of the rounded response from the library, the filter oracle there, its cut "
    "moved to the center; neighbouring lattice points on retries. All lattice responses whose autocorrelation lies in the initial ellipsoid are "
    "enumerated: the result must be the best one reported, meet every requirement, and no better one may have been lost. "
    "Non-trivial: at least five cuts, and a lattice response reported or known to be admissible."
)


@st.composite
def case_(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    m = 15 * n
    a = draw(st.integers(0, m - 3))
    b = draw(st.integers(a, m - 2))
    k = {2: 16, 3: 6, 4: 3}[n]
    return dict(n=n, a=a, b=b, h=draw(st.lists(st.integers(-k, k), min_size=n, max_size=n)), k=k, step=draw(st.sampled_from([0.25, 0.5, 0.1, 3.0])),
                low=draw(st.booleans()), sl=[abs(t) for t in gen.reals(draw, 3)], space=draw(st.sampled_from(["ell", "stable"])),
                par=draw(st.booleans()), defer=draw(st.booleans()), R=0.3 + 1.5 * gen.unit(draw), off=gen.reals(draw, n),
                c=draw(st.sampled_from(["zero", "near"])), lim=draw(st.sampled_from([600, 600, 600, 8, 25])),
                level=draw(st.sampled_from(["spec", "spec", "big", "tight"])))


def lowest(x):
    """Frequency row and value where the spectrum of autocorrelation x is least."""
    n = len(x)
    f = np.vectorize(lambda w: x[0] + 2.0 * sum(x[j] * math.cos(j * w) for j in range(1, n)))
    w = np.linspace(0, math.pi, 40 * n + 1)
    v = f(w)
    best = (float(np.min(v)), float(w[int(np.argmin(v))]))
    for i in range(1, len(w) - 1):
        if v[i] <= v[i - 1] and v[i] <= v[i + 1]:
            z = np.linspace(w[i - 1], w[i + 1], 401)
            u = f(z)
            best = min(best, (float(np.min(u)), float(z[int(np.argmin(u))])))
    return np.array([1.0] + [2.0 * math.cos(j * best[1]) for j in range(1, n)]), best[0]


class Oracle:
    def __init__(self, om, h, n, ref):
        self.om, self.h, self.n, self.ref = om, h, n, ref
        self.calls, self.reported, self.k, self.base, self.refused = 0, [], 0, None, 0

    def shifted(self, cut, xq, x):
        g, b = cut
        g = np.array(g, dtype=float)
        d = float(g @ (x - xq))
        if isinstance(b, (tuple, list, np.ndarray)):
            return g, tuple(float(v) + d for v in b)
        return g, float(b) + d

    def assess_optim_q(self, x, gamma, retry):
        from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

        self.calls += 1
        if self.calls > 3000:
            raise script.Runaway("driver does not stop")
        x = np.array(x, dtype=float)
        if not retry:
            cut, val = self.om.assess_optim(x.copy(), gamma)
            if val is None:
                return (np.array(cut[0]), cut[1]), x, None, False
            try:
                hc = spectral_fact(x.copy())
            except RuntimeError:  # negative between the points of the grid: cut there
                self.refused += 1
                row, v = lowest(x)
                require(v < 1e-9 * abs(x[0]), "the spectrum is positive (least value %g), yet spectral factorization refused it", v)
                return (-row, float(max(-v, 0.0))), x, None, False
            self.base, self.k = np.round(S.as_vec(hc, self.n, "impulse response") / self.h), 0
            pt = self.base
        else:
            self.k += 1
            pt = self.base.copy()
            i = (self.k - 1) // 2 % self.n
            pt[i] += 1 if self.k % 2 else -1
        if not np.any(pt):
            pt = pt.copy()
            pt[0] = 1.0
        r = np.array(inverse_spectral_fact(pt * self.h), dtype=float)
        want = spec.autocorr(pt * self.h)
        require(r.shape == want.shape and np.max(np.abs(r - want)) <= 1e-12 * want[0], "autocorrelation of %s is given as %s", pt * self.h, r)
        cut, val = self.om.assess_optim(r.copy(), gamma)
        if val is not None:
            self.reported.append((float(val), r.copy()))
        return self.shifted(cut, r, x), r, val, self.k < 2 * self.n


def all_points(n, k, step):
    out = []
    for t in itertools.product(range(-k, k + 1), repeat=n):
        if t[0] > 0 or (t[0] == 0 and any(t)):  # r does not depend on the sign
            out.append(t)
    H = np.array(out, dtype=float) * step
    return np.column_stack([np.sum(H[:, : n - j] * H[:, j:], axis=1) for j in range(n)])


def run(case, cov):
    from ellalgo.cutting_plane import Options, cutting_plane_optim_q
    from ellalgo.oracles.lowpass_oracle import LowpassOracle

    n, step, m = case["n"], case["step"], 15 * case["n"]
    h = np.array(case["h"], dtype=float)
    if case["low"]:
        h = np.abs(h)
    if not np.any(h):
        h[0] = 1.0
    r = spec.autocorr(h * step)
    wpass, wstop = (case["a"] + 0.4) / (m - 1), (case["b"] + 0.7) / (m - 1)
    ref = filt.Ref(n, wpass, wstop, 0.0, 0.0)
    R = ref.resp(r)
    s = [0.02 + 0.4 * v for v in case["sl"]]
    ref.lp, ref.up = float(np.min(R[: ref.np_])) * (1 - s[0]) - 1e-3 * step ** 2, float(np.max(R[: ref.np_])) * (1 + s[1]) + 1e-3 * step ** 2
    top = float(np.max(R[ref.ns:]))
    gamma0 = {"spec": top * (1 + s[2]) + 1e-3 * step ** 2, "big": 100.0 * float(r[0]), "tight": top * 0.7 + 1e-4 * step ** 2}[case["level"]]
    c = np.zeros(n) if case["c"] == "zero" else r + np.array(case["off"]) * step ** 2
    rad = max(float(np.linalg.norm(r - c)) * (0.9 + case["R"]), step ** 2)
    # keep the ellipsoid inside what is enumerated: r[0] = |h|^2 <= (k + 1)^2 step^2
    rad = min(rad, ((case["k"] + 1) * step) ** 2 * 0.999 - c[0])
    if rad <= 0.1 * step ** 2:
        cov.tag("too small")
        return
    pts = all_points(n, case["k"], step)
    pts = pts[np.linalg.norm(pts - c, axis=1) <= rad * (1 - 1e-6)]
    Rp = pts @ ref.rows.T
    eps = 1e-9 * max(ref.up, gamma0, float(r[0]))
    okp = np.all((Rp[:, : ref.np_] <= ref.up - eps) & (Rp[:, : ref.np_] >= ref.lp + eps), axis=1) if len(pts) else np.zeros(0, bool)
    val = np.max(Rp[:, ref.ns:], axis=1) if len(pts) else np.zeros(0)

    sp = S.classes()[case["space"]](rad ** 2, c.copy())
    sp.helper.use_parallel_cut, sp.no_defer_trick = case["par"], case["defer"]
    log = []

    class Spy:
        def xc(self):
            return sp.xc()

        def tsq(self):
            return sp.tsq()

        def update_q(self, cut):
            st_ = sp.update_q(cut)
            log.append(S.as_status(st_))
            return st_

    om = Oracle(LowpassOracle(n, wpass, wstop, ref.lp, ref.up, gamma0), step, n, ref)
    o = Options()
    o.max_iters, o.tolerance = case["lim"], 1e-14 * step ** 4
    x, gamma, it = cutting_plane_optim_q(om, Spy(), gamma0, o)
    where = "%d coefficients, %s" % (n, case["space"])
    tol = 1e-10 * max(ref.up, gamma0, float(r[0]))
    if om.reported:
        v, xb = om.reported[-1]
        require(x is not None and np.array_equal(np.array(x, dtype=float), xb) and gamma == v, "%s: returned %s with %r, last reported %s with %r",
                where, x, gamma, xb, v)
        require(v <= min(t[0] for t in om.reported) + tol, "%s: a later report is worse: %s", where, [t[0] for t in om.reported])
        bad = [q for q in ref.violated(xb, gamma) if q[0] > tol]
        require(not bad, "%s: the result misses %d requirements (%s by %g)", where, len(bad), bad and bad[0][3], bad and bad[0][0])
        require(abs(float(np.max(ref.resp(xb)[ref.ns:])) - gamma) <= tol, "%s: value %r, largest stopband response %r", where, gamma,
                float(np.max(ref.resp(xb)[ref.ns:])))
        require(gamma <= gamma0 + tol, "%s: the level got worse", where)
        cov.tag("design found")
    else:
        require(x is None and gamma == gamma0, "%s: nothing reported, %s with %r returned", where, x, gamma)
    better = pts[okp & (val < gamma - 10 * eps)]
    end = log[-1] if log else "none"
    cov.tag("ended by " + (end if it < case["lim"] else "limit"))
    if end == "NoSoln" and it < case["lim"]:
        require(len(better) == 0, "%s: 'no solution' although the lattice design %s has level %g, below %g", where,
                better[0] if len(better) else None, float(np.max(ref.resp(better[0])[ref.ns:])) if len(better) else 0, gamma)
    else:
        xf, P = S.probe(sp, n)
        sh = S.Shape(xf, P)
        if sh.ok and sh.tol < 1e-4:
            for y in better[:50]:
                q = float(np.linalg.norm(sh.white(y)))
                require(q <= 1.0 + 1e-5 + 10 * (sh.tol + sh.xtol), "%s: the better lattice design %s is outside the final ellipsoid (radius %g)",
                        where, y, q)
            if len(better):
                cov.tag("better designs kept")
    if om.refused:
        cov.tag("refused by the factorization")
    if "NoEffect" in log:
        cov.tag("retries")
    if log.count("Success") >= 5 and (om.reported or np.any(okp & (val < gamma0))):
        cov.nontrivial()


SUBS = [Sub("designs", case_, run, quick=1200, shards=8)]
