"""C06: results do not depend on units, origin, coordinate order or representation."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a history of cuts plus a transformation (cut scaling, shift of origin, length scale, permutation "
    "and sign flips of coordinates, or another way of writing the same ellipsoid/offsets, including every numeric type, and a single cut as a pair with an infinite second offset). The history and its "
    "image are run side by side on two spaces of the same class; statuses, mapped centers and mapped widths must "
    "agree after every cut. Non-trivial: at least two successful cuts compared under a non-identity transformation."
)


def spaces(case):
    cl = S.classes()[case["space"]]
    a = S.make_space(cl, case["init"], case["n"])[0]
    if case["defer"]:
        a.no_defer_trick = True
    return cl, a


def scaled_beta(beta, c):
    if isinstance(beta, tuple):
        return tuple(b * c for b in beta)
    if isinstance(beta, list):
        return [b * c for b in beta]
    return beta * c


def finish(case, cov, done, label):
    cov.tag(label)
    if done >= 2:
        cov.nontrivial()


def full_diag(case):
    v = case["init"]["val"]
    return np.full(case["n"], float(v)) if np.isscalar(v) else np.array(v, dtype=float)


# ---- cut scaling
@st.composite
def gs_case(draw):
    c = draw(S.history_case(hi=6, maxlen=8))
    c["scales"] = [gen.log_uniform(draw, -9, 9) if draw(st.booleans()) else 2.0 ** draw(st.integers(-20, 20))
                   for _ in c["cuts"]]
    return c


def run_gs(case, cov):
    cl, a = spaces(case)
    b = S.make_space(cl, case["init"], case["n"])[0]
    for cut, c in zip(case["cuts"], case["scales"]):
        cut["c"] = c
    done = S.lockstep(case, cov, a, b,
                      lambda cut, g, beta: (g.astype(float) * cut["c"], scaled_beta(beta, cut["c"])),
                      lambda x: x, lambda cut: cut["c"] ** 2, "cut multiplied by a positive number")
    S.compare_shapes(case, cov, a, b, "cut multiplied by a positive number")
    finish(case, cov, done, "cut scaling")


@st.composite
def extreme_case(draw):
    """single cuts only: a pair needs the fourth power of the width"""
    c = draw(S.history_case(hi=4, maxlen=5, wide=False))
    for cut in c["cuts"]:
        cut["a"] = cut["a"][:1]
        cut["gtype"] = "f8"
    c["scales"] = [2.0 ** draw(st.sampled_from([-400, -330, -250, -150, 150, 250, 330, 400])) for _ in c["cuts"]]
    return c


# ---- shift
@st.composite
def shift_case(draw):
    c = draw(S.history_case(hi=6, maxlen=8))
    c["shift"] = gen.reals(draw, c["n"], draw(st.sampled_from([1.0, 100.0, 1e4])))
    return c


def run_shift(case, cov):
    cl, a = spaces(case)
    t = np.array(case["shift"])
    val = np.array(case["init"]["val"], dtype=float) if not np.isscalar(case["init"]["val"]) else case["init"]["val"]
    b = cl(val, np.array(case["init"]["xc"], dtype=float) + t)
    case["extra_x"] = 200 * S.EPS * float(np.max(np.abs(t)) + np.max(np.abs(case["init"]["xc"])) + 1e-300)
    done = S.lockstep(case, cov, a, b, lambda cut, g, beta: (g.copy(), beta), lambda x: x - t, lambda cut: 1.0,
                      "origin shifted")
    S.compare_shapes(case, cov, a, b, "origin shifted")
    finish(case, cov, done, "shift")


# ---- length scale
@st.composite
def len_case(draw):
    c = draw(S.history_case(hi=6, maxlen=8))
    c["s"] = gen.log_uniform(draw, -6, 6) if draw(st.booleans()) else 2.0 ** draw(st.integers(-16, 16))
    return c


def run_len(case, cov):
    cl, a = spaces(case)
    s = case["s"]
    v = case["init"]["val"]
    val = float(v) * s * s if np.isscalar(v) else np.array(v, dtype=float) * s * s
    b = cl(val, np.array(case["init"]["xc"], dtype=float) * s)
    done = S.lockstep(case, cov, a, b, lambda cut, g, beta: (g.astype(float), scaled_beta(beta, s)),
                      lambda x: x / s, lambda cut: s * s, "lengths scaled")
    finish(case, cov, done, "length scale")


# ---- permutation and signs
@st.composite
def perm_case(draw):
    c = draw(S.history_case(hi=7, maxlen=8))
    c["perm"] = gen.perm(draw, c["n"])
    c["sign"] = [draw(st.sampled_from([1, -1])) for _ in range(c["n"])]
    return c


def run_perm(case, cov):
    cl, a = spaces(case)
    n, p, sg = case["n"], case["perm"], np.array(case["sign"])
    inv = np.argsort(p)
    d = full_diag(case)
    xc = np.array(case["init"]["xc"], dtype=float)
    b = cl(d[p], (xc * sg)[p])
    done = S.lockstep(case, cov, a, b, lambda cut, g, beta: ((g * sg.astype(g.dtype))[p].copy(), beta),
                      lambda x: x[inv] * sg, lambda cut: 1.0, "coordinates permuted or flipped")
    if p != list(range(n)) or any(x < 0 for x in case["sign"]):
        finish(case, cov, done, "permutation/sign")


# ---- representation
@st.composite
def rep_case(draw):
    c = draw(S.history_case(hi=6, maxlen=8))
    c["forms"] = [draw(st.sampled_from(["plain", "list", "tuple", "array", "open", "far"])) for _ in c["cuts"]]
    c["val_form"] = draw(st.sampled_from(["list", "array", "scalar"]))
    c["x_form"] = draw(st.sampled_from(["array", "list"]))
    return c


def run_rep(case, cov):
    cl, a = spaces(case)
    d = full_diag(case)
    v = case["init"]["val"]
    if case["val_form"] == "scalar" and np.isscalar(v):
        val = float(v)
    elif case["val_form"] == "list":
        val = [float(x) for x in d]
    else:
        val = d.copy()
    xc = np.array(case["init"]["xc"], dtype=float)
    if case["x_form"] == "list":
        xc = [float(x) for x in xc]
    b = cl(val, xc)
    for cut, f in zip(case["cuts"], case["forms"]):
        cut["f2"] = f

    def mc(cut, g, beta):
        bs = [float(x) for x in np.atleast_1d(np.array(beta, dtype=float))]
        f = cut["f2"]
        if f in ("open", "far"):  # a pair that is open at the far side is a single cut
            far = float("inf") if f == "open" else 1e300
            bb = [bs[0], far] if len(bs) == 1 else bs
        elif len(bs) == 1:
            bb = {"plain": bs[0], "list": [bs[0]], "tuple": (bs[0],), "array": np.array(bs)}[f]
        else:
            bb = {"plain": tuple(bs), "list": bs, "tuple": tuple(bs), "array": np.array(bs)}[f]
        return g.astype(float), bb

    done = S.lockstep(case, cov, a, b, mc, lambda x: x, lambda cut: 1.0, "other representation of the same data")
    S.compare_shapes(case, cov, a, b, "other representation of the same data")
    finish(case, cov, done, "representation")


# ---- numeric types: whole numbers, so that every type holds them exactly
OFF = ["float", "int", "f8", "f4", "i8", "i4", "list", "ilist", "tuple", "a8", "a4", "ai8", "ai4"]
VAL = ["float", "int", "f8", "f4", "i8", "list", "ilist", "tuple", "a8", "a4", "ai8"]
XC = ["a8", "a4", "ai8", "list", "ilist"]


@st.composite
def types_case(draw):
    n = draw(st.integers(2, 5))
    e = draw(st.sampled_from([4, 8, 10, 20, 30, 40, 50]))  # squares beyond 2^63 included
    cuts = []
    for _ in range(draw(st.integers(1, 6))):
        g = [v % 7 - 3 for v in gen.i16s(draw, n)]
        if not any(g):
            g[0] = 1
        cuts.append(dict(g=g, u=gen.unit(draw), w=draw(st.one_of(st.none(), st.integers(1, 9))), kind=draw(st.sampled_from(["bias", "central", "q"])),
                         neg=draw(st.booleans()), off=draw(st.sampled_from(OFF)), gt=draw(st.sampled_from(["f8", "f4", "i8", "i4"]))))
    return dict(n=n, e=e, space=draw(st.sampled_from(["ell", "stable"])), val=draw(st.sampled_from(VAL)), xt=draw(st.sampled_from(XC)),
                x=[v % 9 - 4 for v in gen.i16s(draw, n)], same=draw(st.booleans()), d=[v % 3 for v in gen.i16s(draw, n)], cuts=cuts)


def typed(vals, t):
    """whole numbers in a numeric type"""
    one = {"float": float, "int": int, "f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32}
    if t in one:
        return one[t](vals[0]) if len(vals) == 1 else tuple(one[t](v) for v in vals)
    if t in ("list", "tuple"):
        return (list if t == "list" else tuple)(float(v) for v in vals)
    if t == "ilist":
        return [int(v) for v in vals]
    return np.array(vals, dtype={"a8": np.float64, "a4": np.float32, "ai8": np.int64, "ai4": np.int32}[t])


def run_types(case, cov):
    n = case["n"]
    cl = S.classes()[case["space"]]
    d = [2 ** (case["e"] + k) for k in ([case["d"][0]] * n if case["same"] else case["d"])]
    scalar = case["val"] in ("float", "int", "f8", "f4", "i8")
    val = typed([d[0]] if scalar and case["same"] else d, case["val"] if case["same"] or not scalar else "a8")
    a = cl(np.array(d, dtype=float), np.array(case["x"], dtype=float))
    b = cl(val, typed(case["x"], case["xt"]))
    done = 0
    for k, cut in enumerate(case["cuts"]):
        g = np.array(cut["g"], dtype=float)
        tau = S.tsq_along(a, g) ** 0.5
        lo = int(cut["u"] * 0.6 * tau) if not (cut["neg"] and cut["kind"] == "q") else -int(cut["u"] * 0.6 * tau / n)
        vals = [lo] if cut["w"] is None else [lo, lo + int(cut["w"] * 0.05 * tau) + 1]
        if cut["off"] in ("f4", "a4"):
            vals = [int(np.float32(v)) for v in vals]
        off = cut["off"]
        if off in ("i4", "ai4") and max(abs(v) for v in vals) > 2 ** 31 - 1:
            off = "i8" if off == "i4" else "ai8"
        if vals[-1] >= tau or not tau > 1e-3 * 2.0 ** (case["e"] / 2):
            continue
        what = dict(cut, a=vals)
        sa = S.apply_cut(a, what, g, float(vals[0]) if len(vals) == 1 else tuple(float(v) for v in vals))
        sb = S.apply_cut(b, what, typed(cut["g"], "a" + cut["gt"] if cut["gt"][0] == "i" else "a" + cut["gt"][1]), typed(vals, off))
        where = "step %d: %s cut with offsets %s as %s, gradient as %s, initial size as %s" % (
            k, cut["kind"], vals, off, cut["gt"], case["val"])
        require(sa == sb, "%s: status %s, written as floats %s", where, sb, sa)
        ta, tb = S.as_num(a.tsq(), "tsq"), S.as_num(b.tsq(), "tsq")
        require(abs(ta - tb) <= 1e-9 * ta, "%s: squared width %.15g, written as floats %.15g", where, tb, ta)
        xa, xb = S.as_vec(a.xc(), n), S.as_vec(b.xc(), n)
        require(np.max(np.abs(xa - xb)) <= 1e-9 * 2.0 ** (case["e"] / 2) + 1e-12, "%s: center %s, written as floats %s", where, xb, xa)
        done += sa == "Success"
        cov.tag("offsets as " + off)
    cov.tag("initial size as " + case["val"])
    finish(case, cov, done, "types")


# ---- long histories, all transformations at once
@st.composite
def long_case(draw):
    c = draw(S.marathon_case(hi=200))
    n = c["n"]
    c["perm"], c["sign"] = gen.perm(draw, n), [draw(st.sampled_from([1, -1])) for _ in range(n)]
    c["s"] = 10.0 ** draw(st.integers(-5, 5))
    return c


def run_long(case, cov):
    cl, a = spaces(case)
    n, p, sg, s = case["n"], case["perm"], np.array(case["sign"]), case["s"]
    case = dict(case, cuts=S.cuts_of(case))
    inv = np.argsort(p)
    for cut, r in zip(case["cuts"], case["blob"]):
        cut["c"] = 2.0 ** (r % 41 - 20)
    b = cl(full_diag(case)[p] * s * s, np.zeros(n))
    done = S.lockstep(case, cov, a, b,
                      lambda cut, g, beta: ((g.astype(float) * sg * cut["c"])[p].copy(),
                                            scaled_beta(beta, cut["c"] * s)),
                      lambda x: x[inv] * sg / s, lambda cut: (cut["c"] * s) ** 2, "long history in other units")
    finish(case, cov, done, "long history")


@st.composite
def large_case(draw):
    c = draw(S.history_case(lo=9, hi=24, maxlen=3))
    c["perm"] = gen.perm(draw, c["n"])
    c["sign"] = [draw(st.sampled_from([1, -1])) for _ in range(c["n"])]
    return c


@st.composite
def giant_case(draw):
    return dict(draw(S.giant_case()), t=draw(st.sampled_from(["order", "length", "origin", "all"])), seed2=draw(st.integers(0, 2 ** 30)),
                unit=draw(st.integers(-4, 4)))


def run_giant(case, cov):
    n = case["n"]
    rng = np.random.default_rng(case["seed2"])
    perm, s, c = np.arange(n), 1.0, np.zeros(n)
    sign = np.ones(n)
    if case["t"] in ("order", "all"):
        perm = rng.permutation(n)
        sign = rng.choice([-1.0, 1.0], n)
    if case["t"] in ("length", "all"):
        s = 10.0 ** case["unit"]
    if case["t"] in ("origin", "all"):
        c = rng.normal(size=n) * s * np.sqrt(case["base"])

    def twin(val, x):
        sp = S.classes()[case["space"]](val[perm] * s * s if np.ndim(val) else val * s * s, s * (sign * x)[perm] + c)
        sp.no_defer_trick = case["defer"]
        return sp

    def back(x):
        out = np.zeros(n)
        out[perm] = (x - c) / s
        return sign * out

    S.giant_twins(case, cov, twin, lambda g: (sign * np.asarray(g))[perm] / s, back, "coordinates changed (%s)" % case["t"])
    cov.tag(case["t"])


SUBS = [
    Sub("giant", giant_case, run_giant, quick=32, thorough=800, shards=8),
    Sub("large", large_case, run_perm, quick=60, thorough=1200, shards=8),
    Sub("marathon", long_case, run_long, quick=48, thorough=1600, shards=8),
    Sub("extreme", extreme_case, run_gs, quick=400, shards=2),
    Sub("cut_scaling", gs_case, run_gs, quick=1300, shards=2),
    Sub("shift", shift_case, run_shift, quick=1000, shards=1),
    Sub("length", len_case, run_len, quick=1000, shards=2),
    Sub("permutation", perm_case, run_perm, quick=1000, shards=2),
    Sub("types", types_case, run_types, quick=1500, shards=2),
    Sub("representation", rep_case, run_rep, quick=1000, shards=1),
]
