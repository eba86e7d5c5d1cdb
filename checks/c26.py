"""C26: spectral factorization refuses invalid input."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, spec
from vp import space as S
from vp.core import Sub, fail, require

RULE = (
    "Empty input; valid autocorrelations with a NaN or infinity at a drawn index; valid ones lowered so that their "
    "spectrum dips at least 2e-4 below zero (sometimes over a narrow band only) on the sampling grid; spectra touching "
    "zero on and off the grid or dipping by less than 5e-5. Refusals must be of the documented kind, the touching ones "
    "must be answered with a finite response whose autocorrelation is within 15 percent. Non-trivial: all but the "
    "empty input and inputs of length one."
)


@st.composite
def case_(draw, lo=0, hi=9):
    return dict(
        t=draw(st.sampled_from(["empty", "nonfinite", "nonfinite", "negative", "negative", "negative", "touch", "touch",
                                "dip"])),
        roots=spec.roots_case(draw, maxdeg=hi, mindeg=lo, circle=draw(st.booleans())), rootsc=spec.roots_case(draw, circle=True, maxdeg=8),
        gain=gen.log_uniform(draw, -0.5, 1), idx=draw(st.integers(0, 40)),
        bad=draw(st.sampled_from(["nan", "inf", "-inf"])), depth=gen.log_uniform(draw, -3.6, 1), u=gen.unit(draw))


def run(case, cov):
    from ellalgo.oracles.spectral_fact import spectral_fact

    t = case["t"]
    cov.tag(t)
    if t == "empty":
        try:
            spectral_fact(np.array([]))
        except ValueError:
            return
        except Exception as e:
            fail("empty input refused with %s" % type(e).__name__)
        fail("empty input was answered")
    h = spec.poly(case["rootsc"] if t in ("touch", "dip") else case["roots"])
    n = len(h)
    h = h * case["gain"] / np.sqrt(float(h @ h))
    r = spec.autocorr(h)
    if n > 1:
        cov.nontrivial()
    if t == "nonfinite":
        r[case["idx"] % n] = float(case["bad"])
        r0 = r.copy()
        try:
            out = spectral_fact(r)
        except ValueError:
            require(np.array_equal(r, r0, equal_nan=True), "input modified")
            return
        except Exception as e:
            fail("non-finite input refused with %s" % type(e).__name__)
        fail("input %s was answered with %s" % (r0, out))
    m = 100 * n
    w = np.arange(m) * (2 * np.pi / m)
    R = r[0] + 2.0 * sum((r[k] * np.cos(k * w) for k in range(1, n)), np.zeros(m))
    low = float(np.min(R))
    if t == "negative":
        r[0] -= low + case["depth"] + 2e-4 if case["u"] < 0.5 else low + 2e-4
        r0 = r.copy()
        try:
            out = spectral_fact(r)
        except RuntimeError:
            require(np.array_equal(r, r0), "input modified")
            return
        except Exception as e:
            fail("negative spectrum refused with %s: %s" % (type(e).__name__, e))
        fail("input %s with a spectrum down to %g was answered with %s" % (r0.tolist(), low - (low + 2e-4), out))
    if t == "dip":
        r[0] -= low + 5e-5 * case["u"]
    got = S.as_vec(spectral_fact(r.copy()), n, "impulse response")
    err = float(np.max(np.abs(spec.autocorr(got) - r))) / r[0] if r[0] > 0 else 0.0
    cov.maximum("reproduction error (%s)" % t, err)
    require(err <= 0.15, "spectrum touching zero: autocorrelation reproduced with relative error %g", err)


SUBS = [
    Sub("inputs", case_, run, quick=4000, shards=8),
    Sub("large", lambda: case_(10, 50).filter(lambda c: c["t"] in ("nonfinite", "negative")), run, quick=400, shards=4),
]
