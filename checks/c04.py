"""C04: cut verdicts are exact and failed cuts change nothing."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, fail, require

RULE = (
    "histories: cuts at depths drawn in units of the current half-width; the status must be the one the geometry "
    "dictates (both sides of every boundary, boundary itself excluded by 1e-9), and after any failed cut the "
    "probed center and shape must be unchanged. boundary: power-of-two axis-aligned ellipsoids and offsets where "
    "every number is exact, with cuts exactly on and just off each boundary. Non-trivial: the status differs from "
    "success, or the cut lies within 5% of a verdict boundary."
)
ASSUMPTIONS = ["the ellipsoid has positive width along the gradient"]


def unchanged(s, cov):
    dz = float(np.max(np.abs(s.z)))
    dQ = float(np.max(np.abs(s.Q - np.eye(s.n))))
    require(
        dz <= 1e-9 + s.ztol and dQ <= 1e-7 + 10 * s.tol,
        "%s cut %s returned %s but changed the ellipsoid (center %g, shape %g)",
        s.cut["kind"], s.cut["a"], s.status, dz, dQ,
    )


def run(case, cov):
    for s in S.walk(case, cov):
        require(
            s.status in s.ok,
            "%s cut at depths %s (dimension %d): status %s, expected %s",
            s.cut["kind"], s.cut["a"], s.n, s.status, sorted(s.ok),
        )
        if s.status != "Success":
            unchanged(s, cov)
            cov.nontrivial()
        near = min(abs(s.lo - 1), abs(1 + s.n * s.lo * s.hi), abs(s.hi - s.lo), abs(s.hi))
        if near < 0.05:
            cov.tag("within 5% of a verdict boundary")
            cov.nontrivial()


# ------------------------------------------------------------- exact boundary

KINDS = [
    "tangent", "just miss", "equal pair", "crossed by a hair", "pair touching far side", "pair past far side",
    "central pair at zero", "central pair below zero", "central pair at tau", "q no effect", "q just effective",
    "pair ending at tau", "q tangent", "q pair crossed", "pair no effect", "pair just effective", "twice flat",
    "q equal pair", "q pair touching far side", "q pair past far side", "q pair ending at tau", "q just miss", "q exactly no effect",
]


@st.composite
def exact_case(draw):
    n = draw(st.sampled_from([2, 2, 4, 8, 3, 5]))
    return dict(
        n=n,
        space=draw(st.sampled_from(["ell", "stable"])),
        k=draw(st.integers(-8, 8)),
        diag=[draw(st.integers(-4, 4)) for _ in range(n)] if draw(st.booleans()) else None,
        axis=draw(st.integers(0, n - 1)),
        j=draw(st.integers(-6, 6)),
        sign=draw(st.sampled_from([1.0, -1.0])),
        what=draw(st.sampled_from(KINDS)),
        frac=draw(st.integers(1, 15)),
        form=draw(st.sampled_from(["tuple", "list", "array"])), h=draw(st.sampled_from([20, 40])),
        prior=draw(st.integers(0, 2)),
        xc=[float(r % 8) for r in gen.i16s(draw, n)],
    )


def run_exact(case, cov):
    n = case["n"]
    cls = S.classes()[case["space"]]
    if case["diag"] is None:
        val = 4.0 ** case["k"]
        p = val
    else:
        val = [4.0 ** d for d in case["diag"]]
        p = val[case["axis"]]
    sp = cls(val, np.array(case["xc"]))
    g = np.zeros(n)
    g[case["axis"]] = case["sign"] * 2.0 ** case["j"]
    tau = (p ** 0.5) * 2.0 ** case["j"]
    f = case["frac"] / 16.0 * tau  # exact
    hair = tau * 2.0 ** -case.get("h", 20)
    # earlier failed cuts must not matter
    for _ in range(case["prior"]):
        require(S.as_status(sp.update_bias_cut((g.copy(), 3.0 * tau))) == "NoSoln", "a far cut is not 'NoSoln'")

    def pair(b0, b1):
        return {"tuple": (b0, b1), "list": [b0, b1], "array": np.array([b0, b1])}[case["form"]]

    w = case["what"]
    eff = tau * (1.0 + 2.0 ** -20) / n
    table = {
        "tangent": ("bias", tau, {"Success"}),
        "just miss": ("bias", tau + hair, {"NoSoln"}),
        "equal pair": ("bias", pair(f, f), {"Success"}),
        "crossed by a hair": ("bias", pair(f, f - hair), {"NoSoln"}),
        "pair touching far side": ("bias", pair(-tau, -tau), {"Success"}),
        "pair past far side": ("bias", pair(-tau - 2 * hair, -tau - hair), {"NoSoln"}),
        "central pair at zero": ("central", pair(0.0, 0.0), {"Success"}),
        "central pair below zero": ("central", pair(0.0, -hair), {"NoSoln"}),
        "central pair at tau": ("central", pair(0.0, tau), {"Success"}),
        "q no effect": ("q", -eff, {"NoEffect"}),
        "q exactly no effect": ("q", -tau / n, {"NoEffect"} if n & (n - 1) == 0 else {"NoEffect", "Success"}),
        "q just effective": ("q", -tau * (1 - 2.0 ** -20) / n, {"Success"}),
        "pair ending at tau": ("bias", pair(f, tau), {"Success"}),
        "q tangent": ("q", tau, {"Success"}),
        "q equal pair": ("q", pair(f, f), {"Success"}),
        "q pair touching far side": ("q", pair(-tau, -tau), {"Success"}),
        "q pair past far side": ("q", pair(-tau - 2 * hair, -tau - hair), {"NoSoln"}),
        "q pair ending at tau": ("q", pair(f, tau), {"Success"}),
        "q just miss": ("q", tau + hair, {"NoSoln"}),
        "q pair crossed": ("q", pair(f, f - hair), {"NoSoln"}),
        # 1 + n*a0*a1 with a1 = 3/4: a0 = -4/(3n)
        "pair no effect": ("bias", pair(-tau * (4.0 / (3.0 * n)) * (1 + 2.0 ** -20), 0.75 * tau), {"NoEffect"}),
        "pair just effective": ("q", pair(-tau * (4.0 / (3.0 * n)) * (1 - 2.0 ** -20), 0.75 * tau), {"Success"}),
        "twice flat": ("bias", pair(f, f), {"Success"}),
    }
    kind, beta, want = table[w]
    x0, P0 = S.probe(sp, n)
    got = S.apply_cut(sp, dict(kind=kind), g, beta)
    cov.tag(w)
    cov.nontrivial()
    require(got in want, "%s (dimension %d, half-width %g): status %s, expected %s", w, n, tau, got, sorted(want))
    if got != "Success":
        x1, P1 = S.probe(sp, n)
        scale = np.max(np.abs(P0))
        require(np.max(np.abs(x1 - x0)) <= 1e-12 * (1 + np.max(np.abs(x0))) and
                np.max(np.abs(P1 - P0)) <= 1e-12 * scale,
                "%s: failed cut changed the ellipsoid", w)
    if w == "twice flat":
        # the ellipsoid is flat along g: whatever the answer, no crash and no change across g
        before = S.probe(sp, n)[1]
        got = S.apply_cut(sp, dict(kind="bias"), g, 0.0)
        require(got != "NoSoln", "flat ellipsoid: a cut through it has no solution")
        x2, P2 = S.probe(sp, n)
        require(np.max(np.abs(P2 - before)) <= 1e-9 * (np.max(np.abs(before)) + 1e-300) or got == "Success",
                "flat ellipsoid changed by a failed cut")
    # planes really at the right place
    if got == "Success" and w in ("tangent", "q tangent", "equal pair", "pair touching far side", "q equal pair",
                                   "q pair touching far side"):
        b0 = beta if np.isscalar(beta) else beta[0]
        x2 = S.as_vec(sp.xc(), n)
        want_x = x0[case["axis"]] - float(b0) / g[case["axis"]]
        require(abs(x2[case["axis"]] - want_x) <= 1e-9 * (abs(x0[case["axis"]]) + p ** 0.5),
                "%s: center %g along the gradient, expected %g", w, x2[case["axis"]], want_x)


@st.composite
def giant_case(draw):
    c = draw(S.giant_case())
    c["probe"] = [dict(kind=draw(st.sampled_from(["bias", "central", "q"])), pair=draw(st.booleans()), lo=draw(st.sampled_from(
        ["miss", "deep", "shallow", "barely"])), u=gen.unit(draw), hi=draw(st.sampled_from(["in", "out", "below", "far"]))) for _ in range(3)]
    return c


def run_giant(case, cov):
    """The verdict of further cuts on the object that a giant history leaves behind."""
    n = case["n"]
    for sp, cut, g, tau, old, (x, P), dirs, _ in S.giant_walk(case, cov):
        for q, d in zip(case["probe"], dirs):
            t = float(np.sqrt(d @ P @ d))
            lo = {"miss": 1.001 + q["u"], "deep": 0.999 * q["u"], "shallow": -1.001 / n - q["u"], "barely": -0.999 / n * q["u"]}[q["lo"]]
            if q["kind"] == "bias":
                lo = abs(lo)
            if q["kind"] == "central":
                lo = 0.0
            hi = None
            if q["pair"]:
                hi = {"in": lo + 0.01 + 0.5 * q["u"], "out": 1.5, "below": lo - 0.01, "far": -1.5}[q["hi"]]
            if lo <= -1.0 or (hi is not None and lo < 0 and abs(1 + n * lo * hi) < 1e-3):
                continue
            want = S.ref_verdict(q["kind"], lo, hi, n)[0]
            before = [S.as_vec(sp.xc(), n).copy()] + [S.tsq_along(sp, e) for e in dirs]
            c = copy.deepcopy(sp)
            b = (lo * t,) if hi is None else (lo * t, hi * t)
            got = S.apply_cut(c, dict(q, form="plain", a=[lo] if hi is None else [lo, hi]), d, b[0] if hi is None else b)
            require(got in want, "%s cut at depths %s, %s in dimension %d: status %s, expected %s", q["kind"], lo, hi, n, got, sorted(want))
            cov.tag(got)
            if got != "Success":
                after = [S.as_vec(c.xc(), n)] + [S.tsq_along(c, e) for e in dirs]
                require(np.array_equal(before[0], after[0]) and before[1:] == after[1:],
                        "%s cut at depths %s, %s in dimension %d failed (%s) and changed the space", q["kind"], lo, hi, n, got)
                cov.nontrivial()


SUBS = [
    Sub("giant", giant_case, run_giant, quick=48, thorough=800, shards=8),
    Sub("histories", lambda: S.history_case(hi=6, maxlen=8), run, quick=5000, shards=6),
    Sub("large", lambda: S.history_case(hi=14, maxlen=3), run, quick=500, shards=2),
    Sub("huge", lambda: S.history_case(lo=15, hi=30, maxlen=2), run, quick=24, thorough=600, shards=8),
    Sub("marathon", S.marathon_case, run, quick=48, thorough=1600, shards=8),
    Sub("boundary", exact_case, run_exact, quick=3000, shards=2),
]
