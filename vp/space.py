"""Reference model of the ellipsoid method and probes of a search space.

The search space is observed through its public interface only: xc(), tsq()
and the update calls, the latter on deep copies when used as probes.
"""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import Discard, Violation, fail, require

EPS = 2.220446049250313e-16


def classes():
    from ellalgo.ell import Ell
    from ellalgo.ell_stable import EllStable

    return {"ell": Ell, "stable": EllStable}


def statuses():
    from ellalgo.ell_config import CutStatus

    return CutStatus


# ---------------------------------------------------------------- validators


def as_status(s):
    C = statuses()
    require(isinstance(s, C), "update returned %r, not a CutStatus", s)
    return s.name


def as_vec(x, n, what="center", finite=True):
    try:
        v = np.array(x, dtype=float)
    except Exception:
        raise Violation("%s is not a numeric vector: %r" % (what, x))
    require(v.shape == (n,), "%s has shape %s, expected (%d,)", what, v.shape, n)
    if finite:
        require(bool(np.all(np.isfinite(v))), "%s is not finite: %s", what, v)
    return v


def as_num(x, what="value"):
    try:
        v = float(x)
    except Exception:
        raise Violation("%s is not a number: %r" % (what, x))
    require(math.isfinite(v), "%s is not finite: %r", what, x)
    return v


# ---------------------------------------------------------------- probing


def tsq_along(space, d):
    """squared half-width along d, from a central cut on a deep copy"""
    c = copy.deepcopy(space)
    c.update_central_cut((np.array(d, dtype=float), 0.0))
    return as_num(c.tsq(), "tsq")


def probe(space, n):
    """(center, P) of a space; P from tsq along e_i and scaled e_i + e_j."""
    xc = as_vec(space.xc(), n)
    diag = np.zeros(n)
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        diag[i] = tsq_along(space, e)
    s = np.sqrt(np.maximum(diag, 0.0))
    P = np.diag(diag)
    for i in range(n):
        for j in range(i):
            if s[i] > 0 and s[j] > 0:
                d = np.zeros(n)
                d[i] = 1.0 / s[i]
                d[j] = 1.0 / s[j]
                t = tsq_along(space, d)
                P[i, j] = P[j, i] = 0.5 * (t - 2.0) * s[i] * s[j]
    return xc, P


class Shape:
    """Whitening of an ellipsoid: x = xc + S z, z in the unit ball."""

    def __init__(self, xc, P):
        self.xc, self.P = xc, P
        n = len(xc)
        d = np.sqrt(np.maximum(np.diag(P), 0.0))
        self.ok = bool(np.all(d > 0.0)) and bool(np.all(np.isfinite(P)))
        self.tol = math.inf
        if not self.ok:
            return
        R = P / np.outer(d, d)
        w = np.linalg.eigvalsh(R)
        self.cond = float(w[-1] / w[0]) if w[0] > 0 else math.inf
        if not self.cond < 1e12:
            self.ok = False
            return
        # Ell updates a dense matrix, so rounding is relative to its largest
        # entries: the condition number of P itself matters, not only of R
        wp = np.linalg.eigvalsh(P)
        self.lmin = float(wp[0])
        if not self.lmin > 0:
            self.ok = False
            return
        self.condP = float(wp[-1] / wp[0])
        self.S = d[:, None] * np.linalg.cholesky(R)
        self.n = n
        self.tol = 1e-9 + 1e-14 * (self.cond + self.condP) * n
        # rounding of the center itself
        self.xtol = 16 * EPS * float(np.max(np.abs(xc))) / math.sqrt(self.lmin)

    def white(self, x):
        return np.linalg.solve(self.S, x - self.xc)

    def white_shape(self, P2):
        A = np.linalg.solve(self.S, P2)
        Q = np.linalg.solve(self.S, A.T)
        return 0.5 * (Q + Q.T)


# ---------------------------------------------------------------- reference


def ref_params(n, a0, a1):
    """Minimum-volume ellipsoid around {z in unit ball: -a1 <= v.z <= -a0}.

    For -1 <= a0 <= a1 <= 1 and 1 + n*a0*a1 >= 0. Returns (c, along, across):
    new center -c*v, squared axis along v, squared axis across v.

    Every enclosing ellipsoid is dominated by one of the family
    z.z - 1 + lam*(u+a0)(u+a1) <= 0, lam >= 0 (S-lemma); with s = lam/(1+lam)
    the center is -s*m, the squared axis along v is K = 1 - s(1+p) + s^2 m^2
    and across it K/(1-s). Stationarity of K^n/(1-s)^(n-1) in s is a quadratic
    whose smaller root is taken. 50 digits, so thin slabs are no problem.
    """
    import mpmath as mp

    with mp.workdps(50):
        a0, a1 = mp.mpf(a0), mp.mpf(a1)
        p = a0 * a1
        m = (a0 + a1) / 2
        if a0 == a1:  # limit of thin slabs
            return float(m), 0.0, float((1 - m * m) * n / mp.mpf(n - 1))
        B = (1 + p) + 2 * n * m * m
        disc = B * B - 4 * (n + 1) * m * m * (1 + n * p)
        s = 2 * (1 + n * p) / (B + mp.sqrt(disc if disc > 0 else mp.mpf(0)))
        K = 1 - s * (1 + p) + s * s * m * m
        if s >= 1:  # tangent plane: a single point
            return float(s * m), 0.0, 0.0
        return float(s * m), float(K), float(K / (1 - s))


def ref_shape(n, a0, a1, v):
    """(z', Q') in whitened coordinates"""
    c, along, across = ref_params(n, a0, a1)
    vv = np.outer(v, v)
    return -c * v, across * (np.eye(n) - vv) + along * vv


MARGIN = 1e-9


def ref_verdict(kind, a0, a1, n, parallel=True):
    """(acceptable statuses, region (lo, hi), exact).

    a1 None: single cut. The region is -hi <= u <= -lo within the unit ball.
    kind 'central' ignores a0. exact: both planes meet the ellipsoid (or lie
    beyond it where the single-cut rule applies), so the verdict is claimed.
    """
    if kind == "central":
        a0 = 0.0
    if not parallel:
        a1 = None
    ok = set()
    if a0 > 1.0 + MARGIN:
        return {"NoSoln"}, (a0, 1.0), True
    if a0 > 1.0 - MARGIN:
        ok.update(("NoSoln", "Success"))
    hi = 1.0
    if a1 is not None:
        if a1 < a0 - MARGIN or a1 < -1.0 - MARGIN:
            return {"NoSoln"}, (a0, a1), True
        if a1 < a0 or a1 < -1.0 + MARGIN:
            ok.update(("NoSoln", "Success", "NoEffect"))
        hi = min(a1, 1.0)
    if a0 < -1.0 and hi < 1.0:
        return {"Success", "NoEffect"} | ok, (a0, hi), False
    eta = 1.0 + n * a0 * hi
    if eta < -MARGIN:
        ok.add("NoEffect")
    elif eta <= MARGIN:
        ok.update(("NoEffect", "Success"))
    else:
        ok.add("Success")
    return ok, (a0, hi), True


# ---------------------------------------------------------------- cases


@st.composite
def init_case(draw, n, wide=True, spread=2.0):
    """initial ellipsoid: kind, values and center"""
    kind = draw(st.sampled_from(["scalar", "scalar", "diag", "list", "int", "intdiag"]))
    lim = 4.0 if wide else 1.0
    base = gen.log_uniform(draw, -lim, lim) if draw(st.booleans()) else 1.0
    far_units = wide and draw(st.integers(0, 11)) == 5
    if far_units:  # lengths of 1e-40 to 1e40
        base *= 10.0 ** draw(st.sampled_from([-80, -60, -30, 30, 60, 80]))
    if kind == "scalar":
        val = base
    elif kind == "int":
        val = draw(st.integers(1, 50))
    elif kind == "intdiag":
        val = [1 + abs(r) % 30 for r in gen.i16s(draw, n)]
    else:
        val = [base * 10.0 ** (spread * 0.5 * r) for r in gen.reals(draw, n)]
    xk = draw(st.sampled_from(["zero", "real", "int", "list", "far"]))
    if xk == "zero":
        xc = [0.0] * n
    elif xk in ("real", "list"):
        xc = gen.reals(draw, n, 3.0)
    elif xk == "int":
        xc = [r % 9 - 4 for r in gen.i16s(draw, n)]
    else:
        xc = gen.reals(draw, n, 1000.0)
    if far_units and kind not in ("int", "intdiag"):
        xk = {"int": "real"}.get(xk, xk)
        xc = [x * math.sqrt(base) for x in xc]
    return dict(kind=kind, val=val, xkind=xk, xc=xc)


def make_space(cls, init, n):
    """Build a space from a case; returns (space, P0, xc0)."""
    val = init["val"]
    if init["kind"] in ("diag",):
        val = np.array(val, dtype=float)
    elif init["kind"] == "intdiag":
        val = np.array(val, dtype=int)
    if init["xkind"] == "int":
        xc = np.array(init["xc"], dtype=int)
    elif init["xkind"] == "list":
        xc = np.array(init["xc"], dtype=float)
    else:
        xc = np.array(init["xc"], dtype=float)
    sp = cls(val, xc)
    d = np.full(n, float(val)) if np.isscalar(init["val"]) else np.array(init["val"], dtype=float)
    return sp, np.diag(d), np.array(init["xc"], dtype=float)


# depth generators ----------------------------------------------------------


def depth_pair(draw, kind, n):
    """(a0, a1) in units of tau; a1 None for a single cut."""
    single = draw(st.integers(0, 9)) < 4
    if kind == "central":
        if single:
            return gen.reals(draw, 1, 1.2)[0], None
        sel = draw(st.sampled_from(["in", "in", "small", "zero", "beyond", "neg", "edge"]))
        u = gen.unit(draw)
        a1 = {"in": u, "small": u * 1e-3, "zero": 0.0, "beyond": 1.0 + 2 * u, "neg": -(u + 1e-3),
              "edge": 1.0 - 1e-4 * u}[sel]
        return (0.0 if draw(st.booleans()) else -0.3 * u), a1
    u, w = gen.unit(draw), gen.unit(draw)
    if single:
        if kind == "bias":
            sel = draw(st.sampled_from(["zero", "shallow", "mid", "mid", "deep", "miss", "far"]))
            a0 = {"zero": 0.0, "shallow": 0.01 * u, "mid": u, "deep": 1.0 - 0.05 * u,
                  "miss": 1.0 + 1e-3 + 0.2 * u, "far": 1.0 + 50 * u * u + 0.01}[sel]
        else:
            sel = draw(st.sampled_from(["zero", "pos", "neg", "neg", "edge", "noeff", "farneg", "miss"]))
            a0 = {"zero": 0.0, "pos": u, "neg": -u / n, "edge": -1.0 / n * (1 + 1e-3 * (2 * u - 1)),
                  "noeff": -1.0 / n - u, "farneg": -1.0 - 3 * u, "miss": 1.001 + u}[sel]
        return a0, None
    sel = draw(st.sampled_from(
        ["both", "both", "both", "thin", "equal", "sym", "shallow", "beyond", "crossed", "farside", "neg",
         "negnear", "edge", "noeff"]))
    if sel == "both":
        a0 = u
        a1 = a0 + (1.0 - a0) * w
    elif sel == "thin":
        a0 = 2 * u - 1
        a1 = a0 + 1e-3 * w * (1 - a0)
    elif sel == "equal":
        a0 = a1 = (2 * u - 1) * 0.99
    elif sel == "sym":
        a1 = math.sqrt(1.0 / n) * u
        a0 = -a1
    elif sel == "shallow":
        a1 = w
        a0 = -min(u / (n * a1 + 1e-9), 1.0) * 0.999
    elif sel == "beyond":
        a0, a1 = u, 1.0 + 3 * w
        if kind == "q" and w < 0.5:
            a0 = -u * 1.3 / n
    elif sel == "crossed":
        a1 = 2 * u - 1
        a0 = a1 + 1e-6 + w
    elif sel == "farside":
        a1 = -1.0 - 1e-3 - w
        a0 = a1 - u
    elif sel == "neg":
        a1 = -u
        a0 = -u - w * (1 - u)
    elif sel == "negnear":
        a1 = 0.2 * u
        a0 = -w
    elif sel == "noeff":
        a1 = max(0.4 + 0.6 * w, 1.3 / n) * 0.999
        a0 = -min(0.999, 1.0 / (n * a1) + u)
    else:  # eta near zero
        a1 = max(0.5 * w + 0.5, 1.0 / n)
        a0 = -1.0 / (n * a1) * (1 + 1e-2 * (2 * u - 1))
        a0 = max(a0, -0.999)
    return a0, a1


@st.composite
def cut_case(draw, n, kinds=("bias", "central", "q")):
    kind = draw(st.sampled_from(kinds))
    g = gen.vec(draw, n)
    a0, a1 = depth_pair(draw, kind, n)
    return dict(
        kind=kind,
        g=g,
        a=[a0] if a1 is None else [a0, a1],
        gscale=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e6, 3.7])),
        gtype=draw(st.sampled_from(["f8", "f8", "f8", "int", "f4", "view", "ro"])),
        form=draw(st.sampled_from(["plain", "plain", "list", "tuple", "array"])),
    )


@st.composite
def history_case(draw, hi=8, big=0, maxlen=10, kinds=("bias", "central", "q"), wide=True, minlen=1, lo=2):
    n = gen.dims(draw, hi, big) if lo == 2 else draw(st.integers(lo, hi))
    init = draw(init_case(n, wide=wide))
    ln = draw(st.integers(minlen, maxlen))
    return dict(
        n=n,
        space=draw(st.sampled_from(["ell", "stable"])),
        init=init,
        defer=draw(st.integers(0, 3)) == 0,
        gbuf=draw(st.integers(0, 2)) == 1,
        cuts=[draw(cut_case(n, kinds)) for _ in range(ln)],
    )


@st.composite
def marathon_case(draw, lo=60, hi=300, nmax=4):
    """A long history that keeps the ellipsoid round (cycling directions), recentred now and then; any units."""
    n = draw(st.integers(2, nmax))
    ln = draw(st.sampled_from([lo, (lo + hi) // 2, hi]))
    base = float(10.0 ** draw(st.sampled_from([0, 0, -20, 20, -40, 40, 8, -8])))
    init = dict(kind="scalar", val=base, xkind="zero", xc=[0.0] * n)
    if draw(st.booleans()):
        init = dict(kind="diag", val=[base * 2.0 ** (r % 5 - 2) for r in gen.i16s(draw, n)], xkind="zero", xc=[0.0] * n)
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable"])), init=init, defer=draw(st.booleans()),
                defer_b=draw(st.booleans()), gbuf=draw(st.booleans()), recentre=draw(st.sampled_from([10, 16, 25])), width=n + 4,
                blob=gen.i16s(draw, ln * (n + 4)))


def cuts_of(case):
    if "cuts" in case:
        return case["cuts"]
    n, w, b = case["n"], case["width"], case["blob"]
    out = []
    for k in range(len(b) // w):
        r = b[k * w:(k + 1) * w]
        g = [0.3 * v / 32768.0 for v in r[:n]]
        g[k % n] += 1.0 if r[n] % 2 else -1.0
        if r[n] % 11 == 3:
            g = [float(round(v)) for v in g]
        kind = ("bias", "central", "q")[(r[n] >> 3) % 3]
        u, v = abs(r[n + 1]) / 32768.0, abs(r[n + 2]) / 32768.0
        sel = (r[n] >> 6) % 8
        lo = 0.45 * u
        if kind == "q" and sel % 2:
            lo = -0.9 * u / n
        a = [lo]
        if sel >= 3:
            a = [lo, lo + 0.35 + 0.7 * v]
        if sel == 7:  # fails
            a = [1.01 + u]
        out.append(dict(kind=kind, g=g, a=a, gscale=(1.0, 1.0, 1e-3, 1e4)[r[n + 3] % 4], gtype="f8",
                        form=("plain", "list", "array")[(r[n + 3] >> 3) % 3]))
    return out


def grad_of(cut):
    """gradient array of a cut in its numeric type"""
    if cut["gtype"] == "int" and all(float(x).is_integer() for x in cut["g"]):
        return np.array([int(x) for x in cut["g"]], dtype=np.int64)
    g = np.array(cut["g"], dtype=float) * cut["gscale"]
    if cut["gtype"] == "f4":
        return g.astype(np.float32)
    if cut["gtype"] == "view":  # every second entry of a longer array, backwards
        buf = np.full(2 * len(g), 77.0)
        buf[::-2] = g
        return buf[::-2]
    if cut["gtype"] == "ro":
        g.flags.writeable = False
    return g


def beta_of(cut, tau):
    """offsets in the drawn representation"""
    b = [a * tau for a in cut["a"]]
    form = cut["form"]
    if len(b) == 1:
        if form == "list":
            return [b[0]]
        if form == "tuple":
            return (b[0],)
        if form == "array":
            return np.array(b)
        return b[0]
    if form == "array":
        return np.array(b)
    if form == "list":
        return list(b)
    return tuple(b)


def apply_cut(space, cut, g, beta):
    if cut["kind"] == "bias":
        return as_status(space.update_bias_cut((g, beta)))
    if cut["kind"] == "central":
        return as_status(space.update_central_cut((g, beta)))
    return as_status(space.update_q((g, beta)))


def in_domain(cut):
    """bias cuts need a non-negative first offset when the pair is a single cut"""
    a = cut["a"]
    if cut["kind"] == "bias":
        if len(a) == 1:
            return a[0] >= 0.0
        if a[1] > 1.0 - 1e-6 and a[0] < 0.0:
            return False
    return True


class Held:
    """How the caller holds its cuts: new arrays each time, or the same ones overwritten."""

    def __init__(self, reuse):
        self.reuse, self.arr = reuse, {}

    def put(self, x, role):
        if not self.reuse or not isinstance(x, np.ndarray) or not x.flags.writeable:
            return x
        key = (role, x.shape, x.dtype.str, x.strides)
        if key in self.arr:
            self.arr[key][:] = x
        else:
            self.arr[key] = x
        return self.arr[key]


class Step:
    pass


def walk(case, cov, cls=None, on_init=None, parallel=True):
    """Run a history on one space; yields a Step per applied cut.

    Stops when the ellipsoid has become too flat for its shape to be observed.
    """
    n = case["n"]
    cls = cls or classes()[case["space"]]
    sp, P0, xc0 = make_space(cls, case["init"], n)
    if case.get("defer"):
        sp.no_defer_trick = True
    if not parallel:
        sp.helper.use_parallel_cut = False
    xc, P = probe(sp, n)
    if on_init:
        on_init(sp, xc, P, xc0, P0)
    held = Held(case.get("gbuf"))
    for k, cut in enumerate(cuts_of(case)):
        if case.get("recentre") and k % case["recentre"] == case["recentre"] - 1:
            sp.set_xc(np.zeros(n))
            xc = as_vec(sp.xc(), n)
            require(np.array_equal(xc, np.zeros(n)), "assigned center zero, center is %s", xc)
        sh = Shape(xc, P)
        if not sh.ok or sh.tol > 1e-4:
            cov.tag("stopped: ellipsoid too flat to observe")
            return
        if not in_domain(cut):
            continue
        g = grad_of(cut)
        gf = g.astype(float)
        gt = sh.S.T @ gf
        tau = float(np.linalg.norm(gt))
        if not tau > 0 or not math.isfinite(tau):
            continue
        # numbers of the cut are computed from the width the space reports
        beta = beta_of(cut, tau)
        st_ = Step()
        st_.k, st_.cut, st_.g, st_.gf, st_.beta, st_.tau = k, cut, g, gf, beta, tau
        st_.n, st_.before, st_.space = n, sh, sp
        st_.v = gt / tau
        st_.a0 = cut["a"][0]
        st_.a1 = cut["a"][1] if len(cut["a"]) > 1 else None
        st_.status = apply_cut(sp, cut, held.put(g, "g"), held.put(beta, "b"))
        st_.tsq = as_num(sp.tsq(), "tsq")
        st_.ok, (st_.lo, st_.hi), st_.exact = ref_verdict(cut["kind"], st_.a0, st_.a1, n, parallel)
        st_.xc, st_.P = probe(sp, n)
        st_.z = sh.white(st_.xc)
        st_.Q = sh.white_shape(st_.P)
        st_.tol = sh.tol
        st_.ztol = sh.tol + sh.xtol + 16 * EPS * float(np.max(np.abs(st_.xc))) / math.sqrt(sh.lmin)
        cov.tag("%s %s -> %s" % (cut["kind"], "single" if st_.a1 is None else "pair", st_.status))
        cov.tag("dim>=6" if n >= 6 else "dim<6")
        yield st_
        xc, P = st_.xc, st_.P


def tag_depth(cov, s):
    if s.k >= 3:
        cov.tag("history of 4 or more cuts")


def lockstep(case, cov, a, b, mapcut, back_x, tsq_factor, label, parallel_a=True, par_of=None):
    """Apply a history to space a and its image under mapcut to space b.

    After every cut the statuses must agree, back_x(b.xc()) must be a.xc() and
    b.tsq() must be tsq_factor(cut) * a.tsq(). Yields nothing; raises Violation.
    Returns the number of successful cuts compared. parallel_a (or par_of, per cut)
    tells whether pairs count as such.
    """
    n = case["n"]
    drift = 0.0
    xdrift = 0.0  # of the center, in units of the current ellipsoid: grows as the ellipsoid shrinks around it
    done = 0
    xc, P = probe(a, n)
    held, heldb = Held(case.get("gbuf")), Held(case.get("gbuf"))
    for k, cut in enumerate(cuts_of(case)):
        if not in_domain(cut):
            continue
        if case.get("recentre") and k % case["recentre"] == case["recentre"] - 1:
            a.set_xc(np.zeros(n))
            b.set_xc(np.zeros(n))
            xc = np.zeros(n)
            xdrift = 0.0
        sh = Shape(xc, P)
        if not sh.ok or sh.tol > 1e-6:
            cov.tag("stopped: ellipsoid too flat to compare")
            break
        g = grad_of(cut)
        gf = g.astype(float)
        tau = float(np.linalg.norm(sh.S.T @ gf))
        if not tau > 0 or not math.isfinite(tau):
            continue
        beta = beta_of(cut, tau)
        gb, betab = mapcut(cut, g, beta)
        sa = apply_cut(a, cut, held.put(g, "g"), held.put(beta, "b"))
        sb = apply_cut(b, cut, heldb.put(gb, "g"), heldb.put(betab, "b"))
        ok, _, exact = ref_verdict(cut["kind"], cut["a"][0], cut["a"][1] if len(cut["a"]) > 1 else None, n,
                                   parallel_a if par_of is None else par_of(cut))
        cov.tag("%s %s -> %s" % (cut["kind"], "single" if len(cut["a"]) == 1 else "pair", sa))
        if sa != sb:
            if len(ok) > 1 and sa in ok and sb in ok and exact:
                cov.tag("stopped: verdict on the boundary")
                case["_skip"] = True
                break
            fail("%s: step %d (%s %s): status %s against %s" % (label, k, cut["kind"], cut["a"], sa, sb))
        drift += 100 * sh.tol
        tol = 1e-8 + drift
        ta, tb = as_num(a.tsq(), "tsq"), as_num(b.tsq(), "tsq")
        f = tsq_factor(cut)
        rel = abs(tb - f * ta) / (f * tau * tau)
        cov.maximum("tsq difference/tol", rel / tol)
        require(rel <= tol, "%s: step %d (%s %s): tsq %.17g against %.17g", label, k, cut["kind"], cut["a"], ta * f,
                tb)
        xa = as_vec(a.xc(), n)
        xb = as_vec(back_x(as_vec(b.xc(), n)), n)
        xdrift += 64 * EPS * n * (sh.cond + sh.condP) + 40 * sh.xtol
        ztol = tol + 2 * xdrift + 64 * EPS * float(np.max(np.abs(xa))) / math.sqrt(sh.lmin)
        ztol += case.get("extra_x", 0.0) / math.sqrt(sh.lmin)
        dz = float(np.max(np.abs(np.linalg.solve(sh.S, xb - xa))))
        cov.maximum("center difference/tol", dz / ztol)
        require(dz <= ztol, "%s: step %d (%s %s): centers %s against %s", label, k, cut["kind"], cut["a"], xa, xb)
        if sa == "Success":
            done += 1
            xc, P = probe(a, n)
            # a thin slab leaves few significant digits of the width along g
            left = float(gf @ P @ gf)
            if not left > 0:
                cov.tag("stopped: ellipsoid too flat to compare")
                case["_skip"] = True
                break
            drift += 1000 * EPS * n * tau * tau / left
            xdrift *= max(1.0, tau / math.sqrt(left))
            if drift > 1e-3 or xdrift > 1e-3:
                cov.tag("stopped: too little precision left")
                case["_skip"] = True
                break
    case["_drift"] = drift
    return done


def compare_shapes(case, cov, a, b, label, tol=1e-6):
    """two spaces in the same frame have the same shape"""
    if case.get("_skip"):
        return
    n = case["n"]
    xa, Pa = probe(a, n)
    xb, Pb = probe(b, n)
    sh = Shape(xa, Pa)
    if not sh.ok or sh.tol > 1e-7:
        return
    Q = sh.white_shape(Pb)
    d = float(np.max(np.abs(Q - np.eye(n))))
    tol = tol + 1000 * sh.tol + 10 * case.get("_drift", 0.0)
    cov.maximum("shape difference/tol", d / tol)
    require(d <= tol, "%s: shapes differ (whitened difference %g)", label, d)


# ---------------------------------------------------------------- very large dimensions


@st.composite
def giant_case(draw):
    space = draw(st.sampled_from(["ell", "ell", "ell", "stable"]))
    n = draw(st.integers(31, 400 if space == "ell" else 80))
    cuts = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["bias", "central", "q"]))
        u, w = gen.unit(draw), gen.unit(draw)
        a = draw(st.sampled_from([[0.9 * u], [0.0], [0.5 * u, 0.5 * u + 0.1 + 0.4 * w], [0.0, 0.05 + 0.5 * w], [-0.9 * u / n]]))
        if kind == "bias" and a[0] < 0:
            a = [-a[0]]
        if kind == "central":
            a = [0.0] + a[1:]
        cuts.append(dict(kind=kind, a=a, seed=draw(st.integers(0, 2 ** 30)), sparse=draw(st.booleans())))
    return dict(n=n, space=space, base=float(10.0 ** draw(st.integers(-3, 3))), diag=draw(st.booleans()), defer=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 30)), cuts=cuts)


def giant_walk(case, cov):
    """Histories in dimensions where the whole shape is too large to probe: the reference shape is updated by the 50-digit
    formulas, the space is observed along the directions where they matter. Yields (space, cut, g, tau, before, after,
    directions, status)."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    d = np.full(n, case["base"])
    if case["diag"]:
        d = case["base"] * 10.0 ** rng.uniform(-0.5, 0.5, n)
    x = rng.normal(size=n) * math.sqrt(case["base"])
    sp = classes()[case["space"]](d.copy() if case["diag"] else float(case["base"]), x.copy())
    sp.no_defer_trick = case["defer"]
    P = np.diag(d)
    for cut in case["cuts"]:
        r2 = np.random.default_rng(cut["seed"])
        g = r2.normal(size=n)
        if cut["sparse"]:
            g[r2.random(n) < 0.9] = 0.0
            g[int(r2.integers(0, n))] = 1.0
        Pg = P @ g
        tau = math.sqrt(float(g @ Pg))
        b = [t * tau for t in cut["a"]]
        st_ = apply_cut(sp, cut, g, b[0] if len(b) == 1 else tuple(b))
        lo, hi = cut["a"][0], cut["a"][1] if len(b) > 1 else 1.0
        ok = ref_verdict(cut["kind"], lo, hi if len(b) > 1 else None, n)[0]
        require(ok == {st_} or st_ in ok, "%s cut at depths %s in dimension %d: status %s", cut["kind"], cut["a"], n, st_)
        if st_ != "Success":
            return
        c, along, across = ref_params(n, lo, hi)
        u = Pg / tau
        x2 = x - c * u
        P2 = across * P + (along - across) * np.outer(u, u)
        dirs = [g, np.eye(n)[int(r2.integers(0, n))], r2.normal(size=n), r2.normal(size=n)]
        # normal of the old ellipsoid at a point where the new one touches it
        t = r2.normal(size=n)
        t -= u * float(t @ np.linalg.solve(P, u))
        t /= math.sqrt(float(t @ np.linalg.solve(P, t)))
        touch = x - lo * u + math.sqrt(max(0.0, 1.0 - lo * lo)) * t
        dirs.append(np.linalg.solve(P2, touch - x2))
        cov.tag("%s dim>=200" % case["space"] if n >= 200 else "%s dim<200" % case["space"])
        yield sp, cut, g, tau, (x, P), (x2, P2), dirs, touch
        x, P = x2, P2


def giant_twins(case, cov, twin_of, to_g, to_x, what, before=None, nmax=400, beta_of=None):
    """Plays a giant history on a second object in step: twin_of(diagonal or scalar, center), gradients through to_g,
    centers back through to_x; statuses, widths and centers must agree along the directions probed."""
    case = dict(case, n=min(case["n"], nmax))
    n = case["n"]
    twin = None
    k = 0
    for sp, cut, g, tau, (x0, P0), new, dirs, _ in giant_walk(case, cov):
        if twin is None:
            twin = twin_of(np.diag(P0).copy() if case["diag"] else float(case["base"]), x0.copy())
        if before is not None:
            before(twin, k)
        k += 1
        b = [t * tau for t in cut["a"]]
        st2 = apply_cut(twin, cut, to_g(g), b[0] if len(b) == 1 else tuple(b))
        where = "%s in dimension %d: %s cut at depths %s" % (what, n, cut["kind"], cut["a"])
        require(st2 == "Success", "%s: status Success against %s", where, st2)
        ta, tb = as_num(sp.tsq(), "tsq"), as_num(twin.tsq(), "tsq")
        require(abs(ta - tb) <= 1e-8 * tau * tau, "%s: tsq %.12g against %.12g", where, ta, tb)
        xa, xb = as_vec(sp.xc(), n), to_x(as_vec(twin.xc(), n))
        for d in dirs:
            w, wb = tsq_along(sp, d), tsq_along(twin, to_g(d))
            require(abs(w - wb) <= 1e-7 * w, "%s: squared width %.12g against %.12g along a direction", where, w, wb)
            require(abs(float(d @ (xa - xb))) <= 1e-7 * math.sqrt(w), "%s: centers differ", where)
        cov.nontrivial()


# ---------------------------------------------------------------- very long histories


@st.composite
def ultra_case(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable"])), base=float(10.0 ** draw(st.sampled_from([0, 0, 30, -10, 60]))),
                diag=draw(st.booleans()), defer=draw(st.booleans()), other_defer=draw(st.booleans()), steps=draw(st.sampled_from([400, 1100, 2300])),
                seed=draw(st.integers(0, 2 ** 30)), every=draw(st.sampled_from([1, 7, 23])), gbuf=draw(st.booleans()))


def ultra_cuts(case):
    """Thousands of calls on one object: mostly cuts that fail or hardly shrink the ellipsoid, so that it does not
    vanish; directions cycle, so that it stays round."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    for k in range(case["steps"]):
        g = rng.normal(size=n) * 0.3
        g[k % n] += 1.0 if rng.random() < 0.5 else -1.0
        g *= 10.0 ** float(rng.choice([0, 0, 0, -3, 4]))
        r = rng.random()
        u = float(rng.random())
        if r < 0.70:
            kind, a = "q", [-(1.0 - 0.15 * u) / n]
        elif r < 0.78:
            kind, a = ("bias", "q")[int(rng.integers(2))], [1.001 + u]
        elif r < 0.82:
            kind, a = "q", [-(1.01 + u) / n]
        elif r < 0.86:
            kind, a = ("bias", "q")[int(rng.integers(2))], [0.9 * u, 0.9 * u - 0.01]
        elif r < 0.93:
            a1 = max(0.6 + 0.4 * u, 1.05 / n)
            kind, a = "q", [-(1.0 - 0.2 * float(rng.random())) / (n * a1), a1]
        else:
            kind = ("bias", "central", "q")[int(rng.integers(3))]
            a = [0.2 * u] if rng.random() < 0.5 else [0.1 * u, 0.1 * u + 0.5 + 0.4 * u]
            if rng.random() < 0.4:  # offsets that are small but not zero
                a[0] = 10.0 ** float(rng.uniform(-9, -3)) * (1.0 if len(a) == 1 else float(rng.choice([1.0, -1.0])))
            if kind == "central":
                a[0] = 0.0
        yield k, dict(kind=kind, a=a, g=g)


def ultra(case, cov, observe, twin=None):
    """Runs a very long history on one space, following it by the 50-digit formulas. observe(space, k, cut, tau, status,
    (x, P) reference) is called after the calls chosen by the case; the reference is tied to the observed shape again
    every 60 calls, after that has been compared."""
    n = case["n"]
    d = case["base"] * (np.arange(1, n + 1) if case["diag"] else np.ones(n))
    sp = classes()[case["space"]](d.copy() if case["diag"] else float(case["base"]), np.zeros(n))
    sp.no_defer_trick = case["defer"]
    held = Held(case["gbuf"])
    x, P = np.zeros(n), np.diag(d).astype(float)
    for k, cut in ultra_cuts(case):
        if k % 40 == 39:
            sp.set_xc(np.zeros(n))
            if twin is not None:
                twin.set_xc(np.zeros(n))
            x = np.zeros(n)
        g = cut["g"]
        Pg = P @ g
        tau = math.sqrt(float(g @ Pg))
        b = [t * tau for t in cut["a"]]
        beta = b[0] if len(b) == 1 else tuple(b)
        status = apply_cut(sp, cut, held.put(g.copy(), "g"), beta)
        lo, hi = cut["a"][0], cut["a"][1] if len(b) > 1 else 1.0
        ok = ref_verdict(cut["kind"], lo, hi if len(b) > 1 else None, n)[0]
        require(status in ok, "call %d, %s cut at depths %s: status %s", k, cut["kind"], cut["a"], status)
        if twin is not None:
            tw = apply_cut(twin, cut, g.copy(), beta)
            require(tw == status, "call %d, %s cut at depths %s: status %s against %s", k, cut["kind"], cut["a"], status, tw)
        if status == "Success":
            c, along, across = ref_params(n, lo, hi)
            u = Pg / tau
            x = x - c * u
            P = across * P + (along - across) * np.outer(u, u)
            P = 0.5 * (P + P.T)
        if k % case["every"] == 0 or k % 60 == 59:
            observe(sp, k, cut, tau, status, (x, P))
        if k % 60 == 59:
            w = np.linalg.eigvalsh(P)
            if not w[0] > 1e-8 * w[-1]:
                cov.tag("stopped: ellipsoid too flat")
                return
            x, P2 = probe(sp, n)
            A = np.linalg.solve(np.linalg.cholesky(P), P2)
            A = np.linalg.solve(np.linalg.cholesky(P), A.T)
            if not np.max(np.abs(A - np.eye(n))) < 1e-4:
                cov.tag("stopped: shape lost")
                return
            P = P2
    cov.tag("ultra: %s, %d calls" % (case["space"], case["steps"]))
    cov.nontrivial()


def tsq_any(space, d):
    """tsq along d, or None where a space refuses a direction it is flat along"""
    try:
        return tsq_along(space, d)
    except ValueError:
        return None
