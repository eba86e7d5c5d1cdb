"""C14: binary search brackets the threshold."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp.core import Sub, require

RULE = (
    "Intervals of ints, floats, fractions and NumPy numbers (negative, straddling zero, wide, reversed, degenerate), thresholds inside, at "
    "and outside the ends, tolerances and limits from 0; monotone oracles, and arbitrary ones for the claims that "
    "hold for any oracle. Probes are recorded. Non-trivial: at least three probes with both answers."
)


ASSUMPTIONS = ["the length of the interval is representable; NumPy integers below 2^53"]


@st.composite
def case_(draw):
    typ = draw(st.sampled_from(["float", "float", "int", "int", "mixed", "np", "npint", "frac"]))
    inside = draw(st.integers(0, 3)) != 0
    if typ in ("int", "npint", "frac"):
        big = draw(st.sampled_from([20, 1000, 10 ** 6, 2 ** 48, 2 ** 62, 2 ** 80][: 4 if typ == "npint" else 6]))
        lo = draw(st.integers(-big, big))
        hi = lo + draw(st.one_of(st.integers(0, big), st.integers(big // 2, big), st.integers(1, 1000)))
        t = draw(st.integers(lo - 2, hi + 2))
        if inside:
            t = lo + (hi - lo) * draw(st.integers(1, 999)) // 1000
    else:
        sc = 10.0 ** (draw(st.integers(0, 9)) * 7 % 10 - 3)
        lo = gen.reals(draw, 1, sc)[0]
        hi = lo + (0.0 if draw(st.integers(0, 14)) == 7 else sc * (gen.unit(draw) * 2 + 0.01))
        t = lo + (hi - lo) * (draw(st.integers(1, 99999)) / 100000.0 if inside else gen.unit(draw) * 1.1 - 0.05)
        if typ != "mixed" and draw(st.integers(0, 7)) == 5:  # far from one, the length still representable
            f = 2.0 ** draw(st.sampled_from([-200, -60, 60, 200, 900, 985]))
            lo, hi, t = abs(lo) * f, (abs(lo) + abs(hi - lo)) * f, (abs(lo) + (t - lo)) * f
            if draw(st.integers(0, 2)) == 1:  # near the largest numbers
                f = 0.97 * float(np.finfo(float).max) / max(hi, lo, t, 1e-300)
                if math.isfinite(f):
                    lo, hi, t = lo * f, hi * f, t * f
        if typ == "mixed":
            lo = int(math.floor(lo))
    if draw(st.integers(0, 40)) == 23:
        lo, hi = hi, lo
    return dict(
        typ=typ, lo=lo, hi=hi, t=t, strict=draw(st.booleans()),
        tol=draw(st.sampled_from([1e-20] * 5 + [1e-9, 1e-3, 0.4, 0.5])),
        max_iters=draw(st.sampled_from([2000] * 9 + [100, 30, 12, 5, 2, 1, 0])),
        default=draw(st.integers(0, 9)) == 7,
        arbitrary=draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.booleans(), max_size=30))),
        monotone=True,
    )


def run(case, cov):
    from ellalgo.cutting_plane import bsearch
    from ellalgo.ell_config import Options

    lo, hi, t = case["lo"], case["hi"], case["t"]
    if case["typ"] == "np":
        lo, hi = np.float64(lo), np.float64(hi)
    elif case["typ"] == "npint":  # below 2^53, where its arithmetic with floats is exact
        lo, hi = np.int64(lo), np.int64(hi)
    elif case["typ"] == "frac":
        lo, hi, t = Fraction(lo, 7), Fraction(hi, 7), Fraction(t, 7)
    probes = []

    class Oracle:
        def assess_bs(self, g):
            if len(probes) > 3000:
                raise script.Runaway("too many probes")
            if case["arbitrary"] is not None:
                a = case["arbitrary"]
                ans = a[len(probes) % len(a)] if a else True
            else:
                ans = g > t if case["strict"] else g >= t
            probes.append((g, bool(ans)))
            return ans

    o = Options()
    o.tolerance, o.max_iters = case["tol"], case["max_iters"]
    tol, lim = case["tol"], case["max_iters"]
    if case["default"]:
        out = bsearch(Oracle(), (lo, hi))
        tol, lim = 1e-20, 2000
    else:
        out = bsearch(Oracle(), (lo, hi), o)
    require(isinstance(out, tuple) and len(out) == 2, "result is not a pair: %r", out)
    v, it = out
    is_int = case["typ"] in ("int", "npint")
    require(type(v) is type(hi), "value of type %s for an interval of type %s", type(v).__name__, type(hi).__name__)
    require(isinstance(it, (int, np.integer)) and 0 <= it <= lim, "reported %r iterations with a limit of %d", it, lim)
    require(len(probes) == it, "%d probes but %d iterations reported", len(probes), it)
    for g, _ in probes:
        require(min(lo, hi) <= g <= max(lo, hi), "probe %r outside the interval [%r, %r]", g, lo, hi)
        require(type(g) is type(hi), "probe of type %s", type(g).__name__)
    require(v == hi or (v, True) in [(g, a) for g, a in probes], "value %r was never accepted", v)
    yes = [g for g, a in probes if a]
    if yes:
        require(v == min(yes), "value %r although %r was accepted", v, min(yes))
    if lo > hi:
        cov.tag("reversed interval")
        return
    # bracket: everything left untested below v lies within the final gap
    nos = [g for g, a in probes if not a]
    if case["arbitrary"] is None:
        below = max([lo] + nos)
        if it < lim:
            require((v - below) / 2 < tol, "stopped with a bracket of %r, tolerance %r", v - below, tol)
            cov.tag("stopped by tolerance")
        else:
            cov.tag("stopped by limit")
            if not is_int:
                require(v - below <= float(hi - lo) / 2.0 ** min(lim, 900) * (1 + 1e-9) + 4 * np.spacing(float(max(abs(hi), abs(lo)))),
                        "bracket %r after %d halvings of %r", v - below, lim, hi - lo)
        feas = (lambda g: g > t) if case["strict"] else (lambda g: g >= t)
        if is_int and lim >= 2000 and tol <= 0.4:
            want = t + 1 if case["strict"] else t
            if want > hi:
                require(v == hi, "nothing is feasible, got %r instead of the upper end %r", v, hi)
            elif want > lo:
                require(v == want, "integer search returned %r, smallest feasible value is %r", v, want)
            else:
                require(v in (lo, lo + 1), "integer search returned %r, everything above %r is feasible", v, lo)
            cov.tag("integer search to the end")
        if not is_int and lim >= 2000 and lo < t < hi:
            require(v >= t and v - t <= 2 * tol + 8 * np.spacing(float(max(abs(hi), abs(lo)))),
                    "value %.17g, threshold %.17g, tolerance %g", v, t, tol)
            cov.tag("float search to the end")
    else:
        cov.tag("arbitrary oracle")
    if yes and nos and len(probes) >= 3:
        cov.nontrivial()


SUBS = [Sub("bsearch", case_, run, quick=16000, shards=8)]
