"""C25: spectral factorization inverts autocorrelation."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vp import gen, spec
from vp import space as S
from vp.core import Sub, require

RULE = (
    "fact: impulse responses of length 1 to 10 built from drawn zeros (radius up to 0.93, some moved to their mirror "
    "image outside the circle) and gains over eight orders of magnitude; the factorization of the autocorrelation must "
    "be the minimum-phase response with those zeros, to an accuracy set by the dynamic range of the spectrum. inverse: "
    "arbitrary real and integer sequences, symmetric, antisymmetric, constant, alternating and sparse ones; the autocorrelation is compared with exact sums. Long ones (up to about 270) are short ones with multiplied delays and zeros appended. Non-trivial: length at "
    "least 3."
)


@st.composite
def case_(draw, **kw):
    return dict(roots=spec.roots_case(draw, **kw), gain=gen.log_uniform(draw, -4, 4), c=gen.log_uniform(draw, -3, 3),
                flip=draw(st.booleans()), rev=draw(st.booleans()))


def run(case, cov):
    from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

    want = spec.poly(case["roots"])
    h = spec.poly(case["roots"], case["flip"])
    k, pad = case.get("up", 1), case.get("pad", 0)
    if k > 1 or pad:  # h(z^k), followed by zeros
        def widen(v):
            out = np.zeros((len(v) - 1) * k + 1 + pad)
            out[: len(out) - pad: k] = v
            return out

        want, h = widen(want), widen(h)
    n = len(h)
    h = h * case["gain"] / np.sqrt(float(h @ h))
    r = spec.autocorr(h)
    want = want * np.sqrt(r[0] / float(want @ want))
    W = spec.spectrum(r)
    rng = float(np.max(W) / max(np.min(W), 1e-300))
    if not (np.min(W) > 0 and rng < 1e10):
        cov.tag("dynamic range too large")
        return
    rho = max([abs(t[0]) for t in case["roots"]] + [0.0]) ** (1.0 / k)
    tol = 2e-12 + 5e-16 * n * rng + 2 * n * rho ** (50 * n)  # last: aliasing of the documented oversampling
    r0 = r.copy()
    got = S.as_vec(spectral_fact(r), n, "impulse response")
    require(np.array_equal(r, r0), "spectral_fact modified its input")
    scale = float(np.sqrt(r[0]))
    err = float(np.max(np.abs(got - want))) / scale
    cov.maximum("error/tolerance", err / tol)
    back = spec.autocorr(got)
    require(np.max(np.abs(back - r)) <= 4 * tol * r[0] * n, "autocorrelation of the result is off by %g relative",
            float(np.max(np.abs(back - r))) / r[0])
    require(err <= tol * 4, "result %s, minimum-phase response %s (relative error %g)", got, want, err)
    require(got[0] > 0, "leading coefficient %g", got[0])
    sut = S.as_vec(inverse_spectral_fact(got.copy()), n, "autocorrelation")
    require(np.max(np.abs(sut - r)) <= 4 * tol * r[0] * n, "round trip is off by %g", float(np.max(np.abs(sut - r))))
    c = case["c"]
    got2 = S.as_vec(spectral_fact(r * c), n, "impulse response")
    require(np.max(np.abs(got2 - got * np.sqrt(c))) <= 4 * tol * scale * np.sqrt(c),
            "scaling the input by %g does not scale the result by its root", c)
    cov.tag("length %d" % n)
    if n >= 3:
        cov.nontrivial()


@st.composite
def peaked_case(draw):
    """many harmless zeros and one or two close to the unit circle"""
    c = draw(case_(mindeg=4, maxdeg=40, rmax=0.45))
    for _ in range(draw(st.integers(1, 2))):
        ang = None if draw(st.booleans()) else float(np.pi * (0.02 + 0.96 * gen.unit(draw)))
        rad = 0.9 + 0.085 * gen.unit(draw)
        c["roots"].append([float(rad if ang or draw(st.booleans()) else -rad), ang, bool(draw(st.booleans()))])
    return c


@st.composite
def cluster_case(draw):
    """several zeros close together: the spectrum dips to a tiny part of its maximum"""
    c = draw(case_(mindeg=0, maxdeg=3, rmax=0.3))
    ang = None if draw(st.booleans()) else float(np.pi * (0.05 + 0.9 * gen.unit(draw)))
    rad = (0.5 + 0.4 * gen.unit(draw)) * (-1.0 if ang is None and draw(st.booleans()) else 1.0)
    for _ in range(draw(st.integers(2, 6))):
        c["roots"].append([float(rad * (1.0 - 0.1 * gen.unit(draw))), ang, bool(draw(st.booleans()))])
    return c


@st.composite
def wide_case(draw):
    """long responses: a short one with its delays multiplied, and zeros appended"""
    c = draw(case_(mindeg=2, maxdeg=6, rmax=0.6))
    c["up"] = draw(st.integers(1, 25))
    c["pad"] = draw(st.integers(0, 120))
    return c


@st.composite
def inv_case(draw, lo=1, hi=40):
    n = draw(st.integers(lo, hi))
    v = gen.i16s(draw, n)
    form = draw(st.sampled_from(["any", "any", "even", "odd", "zeros", "equal", "alternating", "small"]))
    if form in ("even", "odd"):  # linear phase
        for i in range((n + 1) // 2):
            v[n - 1 - i] = v[i] if form == "even" else -v[i]
        if form == "odd" and n % 2:
            v[n // 2] = 0
    elif form == "zeros":
        a, b = draw(st.integers(0, n)), draw(st.integers(0, n))
        v = [0 if i < a or i >= n - b or (i % 2 and a % 2) else t for i, t in enumerate(v)]
    elif form in ("equal", "alternating"):
        v = [v[0] * (-1 if form == "alternating" and i % 2 else 1) for i in range(n)]
    elif form == "small":
        v = [t % 3 - 1 for t in v]
    return dict(t=draw(st.sampled_from(["int", "real", "intarr"])), v=v, form=form)


def run_inv(case, cov):
    from ellalgo.oracles.spectral_fact import inverse_spectral_fact

    v = case["v"]
    if case["t"] == "int":
        h = np.array([float(t) for t in v])
    elif case["t"] == "intarr":
        h = np.array(v, dtype=np.int64)
    else:
        h = np.array([t / 32768.0 * 1.37 for t in v])
    h0 = h.copy()
    n = len(h)
    r = S.as_vec(inverse_spectral_fact(h), n, "autocorrelation")
    require(np.array_equal(h, h0), "inverse_spectral_fact modified its input")
    f = [Fraction(float(t)) for t in h0] if n <= 40 else [float(t) for t in h0]
    tot = float(sum(t * t for t in f))
    for k in range(n):
        if n <= 40:
            ex = float(sum((f[i] * f[i + k] for i in range(n - k)), Fraction(0)))
        else:
            ex = math.fsum(f[i] * f[i + k] for i in range(n - k))
        require(abs(float(r[k]) - ex) <= 1e-13 * tot, "autocorrelation at lag %d is %.17g, exact %.17g", k, r[k], ex)
    cov.tag(case["t"] + " " + case["form"])
    if n >= 3:
        cov.nontrivial()


SUBS = [
    Sub("fact", case_, run, quick=2500, shards=6),
    Sub("large", lambda: case_(mindeg=10, maxdeg=50, rmax=0.75), run, quick=120, thorough=3000, shards=8),
    Sub("peaked", peaked_case, run, quick=160, thorough=3000, shards=8),
    Sub("cluster", cluster_case, run, quick=400, shards=4),
    Sub("wide", wide_case, run, quick=60, thorough=1500, shards=8),
    Sub("inverse_long", lambda: inv_case(41, 300), run_inv, quick=60, thorough=1500, shards=4),
    Sub("inverse", inv_case, run_inv, quick=800, shards=2),
]
