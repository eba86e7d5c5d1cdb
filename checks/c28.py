"""C28: all formulations of a cut give the same update parameters."""
import math

from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, fail, require

RULE = (
    "Dimensions 2 to 40 (some up to 5000), scales over ten orders of magnitude, depths of every range (deep, central, shallow, near the "
    "boundary; pairs inside, symmetric, thin, one plane beyond the ellipsoid). Every formulation whose domain contains "
    "the cut is called, with the dispatching layer (plain and quantized, number, one-element and two-element offsets), "
    "and compared with the minimum-volume ellipsoid computed with 50 digits. Formulations with a documented division by "
    "the sum or difference of the offsets get an allowance for it. Non-trivial: a pair, or a single cut with "
    "non-zero depth."
)


@st.composite
def case_(draw):
    n = draw(st.one_of(st.integers(2, 6), st.integers(2, 40), st.sampled_from([64, 99, 128, 200, 256, 333, 500, 1000, 2000, 5000])))
    tau = gen.log_uniform(draw, -5, 5)
    t = draw(st.sampled_from(["single", "single", "pair", "pair", "pair", "cpair", "thin", "sym", "beyond"]))
    u, v = gen.unit(draw), gen.unit(draw)
    a0, a1 = 0.0, None
    if t == "single":
        a0 = draw(st.sampled_from([u, u, -u / n, 0.0, 1.0 - 1e-3 * u]))
    elif t == "pair":
        a0 = draw(st.sampled_from([u, -u, -u / n]))
        a1 = a0 + (1.0 - a0) * v
    elif t == "cpair":
        a1 = max(u, 1e-3)
    elif t == "thin":
        a0 = 1.8 * u - 0.9
        a1 = a0 + 1e-3 * v
    elif t == "sym":
        a0, a1 = -u, u * (1.0 + 1e-3 * (v - 0.5))
    else:
        a0, a1 = draw(st.sampled_from([u, -u / n])), 1.0 + v * 3.0
    return dict(n=n, tau=tau, t=t, a0=a0, a1=a1)


def want(n, a0, a1, tau):
    c, along, across = S.ref_params(n, a0, 1.0 if a1 is None else a1)
    return c * tau, (1.0 - along / across) if across > 0 else 1.0, across


def cmp3(got, w, tau, tol, name, case):
    require(isinstance(got, tuple) and len(got) == 3, "%s returned %r", name, got)
    r, s, d = (S.as_num(x, name) for x in got)
    err = max(abs(r - w[0]) / tau, abs(s - w[1]), abs(d - w[2]))
    require(err <= tol, "%s (n=%d, offsets %.17g, %s, scale %g): (%.12g, %.12g, %.12g), minimum-volume (%.12g, %.12g, %.12g)",
            name, case["n"], case["a0"], case["a1"], tau, r, s, d, *w)
    return err


def run(case, cov):
    from ellalgo.ell_calc import EllCalc
    from ellalgo.ell_calc_core import EllCalcCore

    n, tau, t = case["n"], case["tau"], case["t"]
    a0, a1 = case["a0"], case["a1"]
    if a1 is not None and (not a0 <= a1):
        return
    core, calc = EllCalcCore(n), EllCalc(n)
    if n % 2:
        core = EllCalcCore(float(n))
    b0 = a0 * tau
    tsq = tau * tau
    if not math.isclose(math.sqrt(tsq), tau, rel_tol=1e-15):
        tau = math.sqrt(tsq)
    base = 1e-10
    done = []

    def chk(name, got, w, tol=base):
        e = cmp3(got, w, tau, tol, name, case)
        cov.maximum("error/allowance " + name, e / tol)
        done.append(name)

    def via(name, out, w, tol=base, status="Success"):
        require(isinstance(out, tuple) and len(out) == 2, "%s returned %r", name, out)
        st_ = S.as_status(out[0])
        require(st_ == status, "%s: status %s, expected %s (n=%d, offsets %.17g, %s)", name, st_, status, n, a0, a1)
        if status == "Success":
            chk(name, out[1], w, tol)

    cw = want(n, 0.0, None, tau)
    chk("central", core.calc_central_cut(tau), cw)
    if t == "single" or (t == "beyond" and 1.0 + n * a0 > 1e-6):
        if 1.0 + n * a0 > 1e-6 and a0 < 1.0:
            w = want(n, a0, None, tau)
            chk("bias", core.calc_bias_cut(b0, tau), w)
            chk("bias_fast", core.calc_bias_cut_fast(b0, tau, tau + n * b0), w)
            if a0 >= 0:
                via("EllCalc.bias", calc.calc_bias_cut(b0, tsq), w)
                via("EllCalc number", calc.calc_single_or_parallel(b0, tsq), w)
                via("EllCalc one-element", calc.calc_single_or_parallel([b0], tsq), w)
            via("EllCalc.bias_q", calc.calc_bias_cut_q(b0, tsq), w)
            via("EllCalc number q", calc.calc_single_or_parallel_q(b0, tsq), w)
            if t == "beyond":
                b1 = a1 * tau
                if a0 >= 0:
                    via("EllCalc.parallel beyond", calc.calc_parallel(b0, b1, tsq), w)
                    via("EllCalc pair beyond", calc.calc_single_or_parallel((b0, b1), tsq), w)
                via("EllCalc.parallel_q beyond", calc.calc_parallel_q(b0, b1, tsq), w)
                via("EllCalc central pair beyond", calc.calc_single_or_parallel_central_cut((0.0, b1), tsq), cw)
                cov.tag("pair ending beyond the ellipsoid")
            via("EllCalc central", calc.calc_single_or_parallel_central_cut(b0, tsq), cw)
            cov.tag("single, " + ("shallow" if a0 < 0 else "deep" if a0 > 0 else "central"))
            if a0 != 0.0:
                cov.nontrivial()
        return
    if t == "beyond":
        return
    b1 = a1 * tau
    eta = 1.0 + n * a0 * a1
    if eta < 1e-6 or a1 > 1.0 - 1e-9 or a0 < -1.0 + 1e-9:
        cov.tag("outside the domain of the pair formulas")
        return
    w = want(n, a0, a1, tau)
    thin = a1 - a0
    bsum = abs(a0 + a1)
    b0b1, et = b0 * b1, tsq + n * b0 * b1
    # the square root of a difference of squares loses accuracy near a thin slab at the boundary
    near = 1e-15 / max(1e-12, min(1.0 - abs(a0), 1.0 - abs(a1)))
    lim = base + near
    chk("parallel", core.calc_parallel_bias_cut(b0, b1, tsq), w, lim)
    chk("parallel_fast", core.calc_parallel_bias_cut_fast(b0, b1, tsq, b0b1, et), w, lim)
    if bsum > 0.02:
        al = lim + 1e-13 * n / (bsum * bsum)
        chk("parallel_fast2", core.calc_parallel_bias_cut_fast2(b0, b1, tsq, b0b1, et), w, al)
        chk("parallel_old", core.calc_parallel_bias_cut_old(b0, b1, tsq), w, al)
    if thin > 1e-3:
        # its discriminant vanishes where both square roots do
        chk("parallel_fast_old", core.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0b1, et), w,
            lim + 1e-13 * n / (thin * thin) + 2e-7 * (1.0 if w[1] > 0.99 else 0.0) + 1e-12 * n)
    via("EllCalc.parallel", calc.calc_parallel(b0, b1, tsq), w, lim)
    via("EllCalc pair", calc.calc_single_or_parallel([b0, b1], tsq), w, lim)
    via("EllCalc.parallel_q", calc.calc_parallel_q(b0, b1, tsq), w, lim)
    via("EllCalc pair q", calc.calc_single_or_parallel_q((b0, b1), tsq), w, lim)
    if t == "cpair":
        chk("parallel_central", core.calc_parallel_central_cut(b1, tsq), w, lim)
        if a1 > 0.02:
            chk("parallel_central_old", core.calc_parallel_central_cut_old(b1, tsq), w, lim + 1e-13 * n / (a1 * a1))
        via("EllCalc central pair", calc.calc_single_or_parallel_central_cut((0.0, b1), tsq), w, lim)
        cov.tag("pair starting at zero")
    calc.use_parallel_cut = False
    if a0 >= 0:
        via("EllCalc pair, switch off", calc.calc_single_or_parallel((b0, b1), tsq), want(n, a0, None, tau), base)
    cov.tag("pair " + t)
    cov.nontrivial()


SUBS = [Sub("formulas", case_, run, quick=6000, shards=8)]
