"""Reference for the low-pass filter oracle: all requirements, evaluated at once."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import require

TARGETS = ("feasible", "feasible", "pass_up", "pass_low", "stop_up", "neg", "x0", "std", "loose", "flat")


@st.composite
def filt_case(draw, lo=2, hi=12, max_q=8):
    n = draw(st.one_of(st.integers(lo, min(hi, lo + 3)), st.integers(lo, hi)))
    m = 15 * n
    # band edges off the grid points: j + fraction, in grid steps
    a = draw(st.integers(0, m - 3))
    b = draw(st.integers(a, m - 2))
    fr = draw(st.integers(0, 2))
    c = dict(n=n, a=a, b=b, fa=(0.3, 0.5, 0.9)[fr], fb=(0.9, 0.5, 0.95)[fr] if a < b else 0.95)
    c["target"] = draw(st.sampled_from(TARGETS))
    c["vecs"] = [dict(t=draw(st.sampled_from(["auto", "auto", "auto", "raw"])), v=gen.reals(draw, n, 2.0))
                 for _ in range(draw(st.integers(1, 3)))]
    k = draw(st.integers(1 if max_q <= 8 else 12, max_q))
    c["q"] = [dict(v=draw(st.sampled_from([0, 0, 1, 2])), sc=draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 0.5, 2.0, -1.0])),
                   lev=draw(st.sampled_from(["fit", "fit", "fit", "tight", "loose", "below", "zero"]))) for _ in range(k)]
    c["sl"] = [abs(t) for t in gen.reals(draw, 3)]
    c["e"] = draw(st.sampled_from([0, 0, 3, 6]))
    c["buf"] = draw(st.booleans())
    c["u"] = draw(st.sampled_from([0] * 6 + [30, -30, 60, -60, 200, -200]))
    c["tie"] = [draw(st.booleans()) for _ in range(3)]
    c["c0"] = draw(st.integers(0, 8)) / 8.0
    c["at"] = draw(st.sampled_from([None, None, None, "pass_last", "trans_first", "trans_last", "stop_first"]))
    return c


def place(case, R):
    """band edges moved so that the extreme value of the response lies at an end of a band"""
    a, b, m = case["a"], case["b"], len(R)
    low = case["target"] in ("neg", "pass_low")
    k = min(max(int(np.argmin(R) if low else np.argmax(R)), 1), m - 3)
    at = case.get("at")
    if at == "pass_last":
        a, b = k, max(b, k)
    elif at == "trans_first":
        a, b = k - 1, max(b, k)
    elif at == "trans_last":
        a, b = min(a, k - 1), k
    elif at == "stop_first":
        a, b = min(a, k - 1), k - 1
    return a, b, case["fb"] if a < b else 0.95


class Ref:
    """Every requirement of the specification on the documented grid."""

    def __init__(self, n, wpass, wstop, lp, up):
        m = 15 * n
        self.n, self.m = n, m
        w = np.linspace(0, math.pi, m)
        self.rows = np.column_stack([np.ones(m)] + [2.0 * np.cos(k * w) for k in range(1, n)])
        self.np_ = math.floor(wpass * (m - 1)) + 1
        self.ns = math.floor(wstop * (m - 1)) + 1
        self.lp, self.up = lp, up

    def resp(self, x):
        return self.rows @ x

    def violated(self, x, sp):
        """[(amount, gradient, offset or (o0, o1))] for every requirement, violated or not"""
        R = self.resp(x)
        out = []
        for k in range(self.m):
            v, row = float(R[k]), self.rows[k]
            if k < self.np_:
                out.append((v - self.up, row, (v - self.up, v - self.lp), "pass"))
                out.append((self.lp - v, -row, (self.lp - v, self.up - v), "pass"))
            elif k >= self.ns:
                out.append((v - sp, row, (v - sp, v), "stop"))
                out.append((-v, -row, (-v, sp - v), "stop"))
            else:
                out.append((-v, -row, -v, "transition"))
        e = np.zeros(self.n)
        e[0] = -1.0
        out.append((-float(x[0]), e, -float(x[0]), "first"))
        return out


def build(case):
    """(spec tuple, Ref, vectors); spec = (wpass, wstop, lp, up, sp)"""
    n = case["n"]
    m = 15 * n
    vecs = []
    for d in case["vecs"]:
        h = np.array(d["v"])
        if d["t"] == "auto":
            if not np.any(h):
                h[0] = 1.0
            x = np.array([float(h[: n - k] @ h[k:]) for k in range(n)])
        else:
            x = h.copy()
        vecs.append(x)
    t = case["target"]
    a, b, fb = place(case, Ref(n, 0.0, 0.0, 0.0, 0.0).resp(vecs[0]))
    wpass, wstop = (a + case["fa"]) / (m - 1), (b + fb) / (m - 1)
    ref = Ref(n, wpass, wstop, 0.0, 0.0)
    x = vecs[0]
    R = ref.resp(x)
    span = float(np.max(R) - np.min(R)) + 1e-3
    small = 10.0 ** -case.get("e", 0)
    s = [span * (1e-3 + 0.5 * v ** 3) * small for v in case["sl"]]
    if t == "flat":  # constant response: every comparison is exact
        x = np.zeros(n)
        x[0] = case["c0"]
        vecs[0] = x
        lp, up, sp = [x[0] if tie else x[0] + d * 0.25 for tie, d in zip(case["tie"], (-1, 1, 1))]
        ref.lp, ref.up = lp, up
        return (wpass, wstop, lp, up, sp), ref, vecs
    if t == "std":
        d = 1.025
        wpass, wstop = 0.12, 0.20
        spec = (wpass, wstop, 1.0 / d ** 2, d ** 2, 0.125 ** 2)
        ref = Ref(n, wpass, wstop, spec[2], spec[3])
        return spec, ref, vecs
    npas, ns = ref.np_, ref.ns
    if t in ("neg", "feasible", "pass_up", "pass_low", "stop_up", "loose"):
        rest = np.sort(R[npas:])
        low = float(rest[0])
        if t == "neg" and len(rest) > 1:
            gap = float(rest[1] - rest[0])
            x[0] += -low - (0.5 * gap if gap > 1e-9 * span else 1e-3 * span) * small
        else:
            x[0] += max(0.0, -low) + s[2]
        x[0] = float(x[0])
        R = ref.resp(x)
    Pb, Sb = np.sort(R[:npas]), np.sort(R[ns:])
    lp, up, sp = float(Pb[0]) - s[0], float(Pb[-1]) + s[1], max(float(Sb[-1]), 0.0) + s[2]
    if t == "x0":
        lp = min(lp, -4.0 * span)
        x[0] = -abs(x[0]) * small - 1e-3 * small
        R = ref.resp(x)
    elif t == "pass_up" and len(Pb) > 1:
        up = float(Pb[-1]) - float(Pb[-1] - Pb[-2]) / 2 * small
        lp = min(lp, up - 1e-3 * span)
    elif t == "pass_low" and len(Pb) > 1:
        lp = float(Pb[0]) + float(Pb[1] - Pb[0]) / 2 * small
        up = max(up, lp + 1e-3 * span)
    elif t == "stop_up" and len(Sb) > 1:
        sp = float(Sb[-1]) - float(Sb[-1] - Sb[-2]) / 2 * small
    elif t == "loose":
        lp, up, sp = lp - span, up + span, sp + span
    ref.lp, ref.up = lp, up
    return (wpass, wstop, lp, up, sp), ref, vecs


def oracle(case, spec):
    from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case

    if case["target"] == "std":
        return Gain(create_lowpass_case(case["n"]), 0)
    wpass, wstop, lp, up, sp = spec
    u = case.get("u", 0)
    return Gain(LowpassOracle(case["n"], wpass, wstop, *[math.ldexp(v, u) for v in (lp, up, sp)]), u)


class Gain:
    """The oracle in other units of the response (an exact factor 2^u), seen in the reference's units."""

    def __init__(self, om, u):
        self.om, self.u = om, u

    def back(self, b):
        if isinstance(b, (tuple, list, np.ndarray)):
            return tuple(math.ldexp(v, -self.u) for v in b)
        return math.ldexp(b, -self.u)

    def cut(self, cut):
        if self.u and isinstance(cut, tuple) and len(cut) == 2:
            return cut[0], self.back(cut[1])
        return cut

    def scaled(self, x, call):
        if not self.u:
            return call(x)
        y = np.ldexp(x, self.u)
        y0 = y.copy()
        out = call(y)
        require(np.array_equal(y, y0), "a query modified the coefficients")
        return out

    def assess_feas(self, x):
        ans = self.scaled(x, self.om.assess_feas)
        return ans if ans is None else self.cut(ans)

    def assess_optim(self, x, lev):
        out = self.scaled(x, lambda y: self.om.assess_optim(y, math.ldexp(lev, self.u)))
        if self.u and isinstance(out, tuple) and len(out) == 2:
            return self.cut(out[0]), out[1] if out[1] is None else math.ldexp(out[1], -self.u)
        return out


def tol_of(ref, x):
    return 1e-11 * (float(np.sum(np.abs(x))) * 2 + abs(ref.lp) + abs(ref.up))


def decode(cut, n, where):
    require(isinstance(cut, tuple) and len(cut) == 2, "%s: cut %r is not a pair", where, cut)
    g = np.array(S.as_vec(cut[0], n, "gradient"), dtype=float)
    b = cut[1]
    if isinstance(b, (tuple, list, np.ndarray)):
        require(len(b) in (1, 2), "%s: offsets %r", where, b)
        b = tuple(S.as_num(v, "offset") for v in b)
        if len(b) == 1:
            b = b[0]
    else:
        b = S.as_num(b, "offset")
    return g, b


def match(ref, x, sp, cut, tol, where, cov):
    """the cut is the exact inequality (pair) of one violated requirement"""
    g, b = decode(cut, ref.n, where)
    reqs = ref.violated(x, sp)
    near = [r for r in reqs if np.max(np.abs(r[1] - g)) <= 1e-9]
    require(near, "%s: gradient %s is not that of any requirement", where, g)
    ok = [r for r in near if r[0] > -tol and same(r[2], b, tol)]
    if not ok:
        require(False, "%s: offsets %s do not match the requirement (%s: %s)", where, b, near[0][3], near[0][2])
    cov.tag("cut in " + ok[0][3])


def same(want, b, tol):
    if isinstance(want, tuple) != isinstance(b, tuple):
        return False
    if isinstance(b, tuple):
        return abs(want[0] - b[0]) <= tol and abs(want[1] - b[1]) <= tol
    return abs(want - b) <= tol
