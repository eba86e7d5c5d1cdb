"""C40: the ready-made filter case states the documented specification."""
import numpy as np
from hypothesis import strategies as st

from vp import filt, gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is one to three ready-made filter cases created one after another (2 to 96 coefficients, the default length, the same "
    "length twice, some created between the queries of others) and up to ten queries: coefficient vectors with a response close "
    "to constant, at, just inside and just outside the documented bounds, with a narrow dip in the transition band, or crossing a bound between two grid points at the edge of a band, asked for feasibility or for optimality with the "
    "documented level, a large one or one near the response. The answer must be that of the check's own evaluation of the "
    "documented specification on the grid; a cut must be one violated requirement with exact offsets. Non-trivial: an accepted "
    "vector, a vector with less than a tenth of the requirements violated, or a stopband or transition cut."
)

D = 1.025
LP, UP, SP = 1.0 / D ** 2, D ** 2, 0.125 ** 2


@st.composite
def case_(draw, hi=24):
    k = draw(st.integers(1, 3))
    first = draw(st.one_of(st.integers(2, 8), st.integers(2, hi)))
    if hi >= 64:
        first = draw(st.sampled_from([first, first, 64, 80, 96]))
    ns = [first] + [draw(st.one_of(st.just(first), st.integers(2, hi), st.just(48 if hi > 24 else 2))) for _ in range(k - 1)]
    q = [dict(o=draw(st.integers(0, k - 1)), base=draw(st.sampled_from([1.0, LP, UP, SP, 0.0, 0.5, 2.0])),
              rel=draw(st.sampled_from([0.0, 1e-9, -1e-9, 1e-4, -1e-4, 0.01, -0.01])), amp=draw(st.sampled_from([0.0, 1e-6, 1e-3, 0.02, 0.3])),
              v=gen.reals(draw, 4), dip=draw(st.sampled_from([0.0] * 3 + [0.9, 1.0001, 1.1])) if hi >= 64 else 0.0, at=draw(st.integers(0, hi)), lev=draw(st.sampled_from([None, None, "doc", "big", "fit"])),
              edge=draw(st.sampled_from([None] * 4 + ["stop in", "stop out", "pass in", "pass out"])))
         for _ in range(draw(st.integers(1, 10)))]
    return dict(ns=ns, q=q, late=draw(st.booleans()), default=draw(st.booleans()))


def run(case, cov):
    from ellalgo.oracles.lowpass_oracle import create_lowpass_case

    def make(n):
        return create_lowpass_case() if n == 48 and case["default"] else create_lowpass_case(n)

    refs = [filt.Ref(n, 0.12, 0.20, LP, UP) for n in case["ns"]]
    oms = [None if case["late"] else make(n) for n in case["ns"]]
    level = [SP] * len(oms)
    for k, q in enumerate(case["q"]):
        o = q["o"]
        n, ref = case["ns"][o], refs[o]
        if oms[o] is None:
            oms[o] = make(n)
        om = oms[o]
        x = np.zeros(n)
        for i, v in enumerate(q["v"]):
            x[(q["at"] + i) % n] += v * q["amp"]
        x[0] += q["base"] * (1.0 + q["rel"])
        if q["dip"]:  # a narrow dip inside the transition band, below zero where it is deep enough
            x *= 0.02
            j = np.arange(n)
            win = 0.42 + 0.5 * np.cos(np.pi * j / n) + 0.08 * np.cos(2 * np.pi * j / n)
            c = win * np.cos(0.16 * np.pi * j)
            x[0] += 1.0
            x -= q["dip"] * c / float(np.max(np.abs(ref.resp(c))))
        sp_edge = None
        if q["edge"]:  # a monotone response that crosses a bound at the edge of a band
            x = np.zeros(n)
            x[0], x[1] = 1.0, 0.01 if q["edge"].startswith("stop") else -0.01
            R = ref.resp(x)
            j = {"stop in": ref.ns, "stop out": ref.ns - 1, "pass in": ref.np_ - 2, "pass out": ref.np_ - 1}[q["edge"]]
            if j < 0:
                j = 0
            if q["edge"].startswith("stop"):
                sp_edge = 0.5 * float(R[j] + R[j + 1])
            else:
                sp_edge = 10.0
                x[0] += UP - 0.5 * float(R[j] + R[j + 1])
            cov.tag("edge: " + q["edge"])
        R = ref.resp(x)
        top = float(np.max(R[ref.ns:]))
        where = "query %d (%d coefficients)" % (k + 1, n)
        x0 = x.copy()
        if q["lev"] is None and sp_edge is None:
            sp, val = level[o], None
            cut = om.assess_feas(x)
            ok = cut is None
        else:
            sp = sp_edge or {"doc": SP, "big": 10.0, "fit": max(top, 0.0) + 1e-3}[q["lev"]]
            level[o] = sp
            cut, val = om.assess_optim(x, sp)
            ok = val is not None
        require(np.array_equal(x, x0), "%s modified the coefficients", where)
        tol = filt.tol_of(ref, x) + 1e-11 * sp
        reqs = ref.violated(x, sp)
        bad = [r for r in reqs if r[0] > tol]
        worst = max(r[0] for r in reqs)
        if bad:
            require(not ok, "%s: accepted although %d requirements are violated (%s by %g)", where, len(bad), bad[0][3], bad[0][0])
            if len(bad) * 10 < len(reqs):
                cov.nontrivial()
                cov.tag("few violations")
        elif worst < -tol:
            require(ok, "%s: rejected coefficients that meet every requirement (margin %g)", where, -worst)
        if ok:
            cov.nontrivial()
            cov.tag("accepted")
            if val is not None:
                require(abs(S.as_num(val, "level") - top) <= tol, "%s: level %r, largest stopband response %.12g", where, val, top)
        else:
            filt.match(ref, x, sp, cut, tol, where, cov)
            if R[: ref.np_].max() <= UP and R[: ref.np_].min() >= LP:
                cov.nontrivial()
                cov.tag("passband met, cut")


SUBS = [
    Sub("cases", case_, run, quick=1200, shards=8),
    Sub("large", lambda: case_(hi=96), run, quick=250, shards=8),
]
