"""C07: space options change cost only."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub

RULE = (
    "defer: the same history on two spaces of one class, one with deferred scaling off from a drawn step on (or "
    "switched back and forth); statuses, centers, widths and final shapes must agree. parallel_off: a space with "
    "parallel cuts off given pairs against a normal one given only the first offset; switched: the same with the switch changed during the history. Non-trivial: at least two "
    "successful cuts compared (and, for parallel_off, at least one pair among them)."
)


@st.composite
def defer_case(draw):
    c = draw(S.history_case(hi=6, maxlen=10))
    c["toggles"] = [draw(st.integers(0, 3)) for _ in c["cuts"]]
    c["start"] = draw(st.booleans())
    return c


def run_defer(case, cov):
    cl = S.classes()[case["space"]]
    a = S.make_space(cl, case["init"], case["n"])[0]
    b = S.make_space(cl, case["init"], case["n"])[0]
    b.no_defer_trick = bool(case.get("start", case.get("defer_b")))
    for cut, t in zip(case["cuts"], case["toggles"]):
        cut["toggle"] = t

    def mc(cut, g, beta):
        if cut["toggle"] == 0:
            b.no_defer_trick = not b.no_defer_trick
        return g.copy(), beta

    done = S.lockstep(case, cov, a, b, mc, lambda x: x, lambda cut: 1.0, "deferred scaling off")
    S.compare_shapes(case, cov, a, b, "deferred scaling off")
    cov.tag("switched during the history" if 0 in case["toggles"] else "fixed")
    if done >= 2:
        cov.nontrivial()


@st.composite
def always_case(draw):
    c = draw(S.history_case(hi=6, maxlen=10))
    for cut in c["cuts"]:
        if draw(st.booleans()) and len(cut["a"]) == 1:
            cut["a"].append(gen.reals(draw, 1, 1.5)[0])
        if cut["kind"] == "bias":
            cut["a"][0] = abs(cut["a"][0])
        cut["par"] = False
    return c


@st.composite
def switch_case(draw):
    """the parallel-cut switch changes during the history; cuts are also repeated with it in the other position"""
    c = draw(S.history_case(hi=6, maxlen=8))
    cuts, on = [], draw(st.booleans())
    for cut in c["cuts"]:
        if draw(st.booleans()) and len(cut["a"]) == 1:
            cut["a"].append(gen.reals(draw, 1, 1.5)[0])
        on = on != draw(st.booleans())
        if cut["kind"] == "bias" and not on:
            cut["a"][0] = abs(cut["a"][0])
        cuts.append(dict(cut, par=on))
        if draw(st.integers(0, 3)) == 0 and (on or cut["kind"] != "bias"):
            cuts.append(dict(cut, a=[abs(v) if cut["kind"] == "bias" else v for v in cut["a"]], par=not on))
    c["cuts"] = cuts
    return c


def run_par(case, cov):
    cl = S.classes()[case["space"]]
    a = S.make_space(cl, case["init"], case["n"])[0]
    b = S.make_space(cl, case["init"], case["n"])[0]
    a.helper.use_parallel_cut = False
    if case["defer"]:
        b.no_defer_trick = True
    pairs = [0]

    def mc(cut, g, beta):
        a.helper.use_parallel_cut = cut["par"]
        if np.ndim(beta) and len(beta) > 1 and not cut["par"]:
            pairs[0] += 1
            return g.copy(), float(beta[0])
        return g.copy(), beta

    done = S.lockstep(case, cov, a, b, mc, lambda x: x, lambda cut: 1.0, "parallel cuts off", par_of=lambda cut: cut["par"])
    S.compare_shapes(case, cov, a, b, "parallel cuts off")
    if done >= 2 and pairs[0]:
        cov.nontrivial()


@st.composite
def large_case(draw):
    c = draw(S.history_case(lo=9, hi=24, maxlen=3))
    c["toggles"] = [draw(st.integers(0, 3)) for _ in c["cuts"]]
    c["start"] = True
    return c


def run_marathon(case, cov):
    case = dict(case, cuts=S.cuts_of(case))
    case["toggles"] = [abs(t) % 9 for t in case["blob"][: len(case["cuts"])]]
    run_defer(case, cov)


def run_giant(case, cov):
    def flip(sp, k):
        sp.no_defer_trick = bool((case["seed"] >> k) & 1) if case["seed"] % 3 else not case["defer"]

    S.giant_twins(case, cov, S.classes()[case["space"]], lambda g: g, lambda x: x, "deferred against immediate scaling", before=flip)


SUBS = [
    Sub("giant", S.giant_case, run_giant, quick=32, thorough=800, shards=8),
    Sub("defer", defer_case, run_defer, quick=2500, shards=4),
    Sub("parallel_off", always_case, run_par, quick=2000, shards=4),
    Sub("switched", switch_case, run_par, quick=1200, shards=4),
    Sub("large", large_case, run_defer, quick=60, thorough=1200, shards=8),
    Sub("marathon", S.marathon_case, run_marathon, quick=48, thorough=1600, shards=8),
]
