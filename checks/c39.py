"""C39: equality cuts confine the search to their plane."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is an initial ellipsoid (axes within a factor of 4, units 1e-30 to 1e30), a plain or stable space with deferred scaling on or off, and a "
    "history of up to 12 cuts, some of them pairs with two equal offsets (at most n-1 of those; bias, central and quantized; depths "
    "up to 0.8), the others single cuts and pairs that still cross the flat ellipsoid; gradients dense, integer, sparse or along "
    "an axis. The reference applies the minimum-volume updates in 40 digits. After every cut: status Success, reported width, "
    "center, widths along drawn directions and along the coordinate axes agree with the reference within 1e-9 of the size of the ellipsoid (1e-7 for the reported width), "
    "the center lies on every plane set so far and the width across each is nil. Non-trivial: an equality cut followed by another "
    "successful cut."
)


TOL = 1e-9


@st.composite
def case_(draw, lo=2, hi=6, maxlen=12):
    n = draw(st.integers(lo, hi))
    ln = draw(st.integers(2, maxlen))
    cuts = []
    for _ in range(ln):
        r = gen.i16s(draw, 3)
        cuts.append(dict(g=gen.vec(draw, n), eq=draw(st.integers(0, 2)) == 0, kind=draw(st.sampled_from(["bias", "bias", "central", "q"])),
                         u=abs(r[0]) / 32768.0, v=abs(r[1]) / 32768.0, pair=r[2] % 2 == 0, form=draw(st.sampled_from(["tuple", "list", "array"]))))
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable", "stable"])), defer=draw(st.booleans()),
                unit=draw(st.sampled_from([0, 0, 0, -30, 30])), d=gen.reals(draw, n), xc=gen.reals(draw, n),
                probe=gen.reals(draw, n), cuts=cuts)


def resolved(g, L, D):
    """(inv(L) g, whether an unpivoted factorization can resolve a flat update along g)

    L, D: P = inv(L)' D inv(L). The update divides by the squared width of the
    sections along the leading entries of g: each must be nil or not small.
    """
    n = len(g)
    ok = max(abs(L[i][j]) for i in range(n) for j in range(i)) < 1e3
    w = [None] * n
    for i in range(n):
        w[i] = g[i] - sum(L[i][j] * w[j] for j in range(i))
    om = [w[i] * w[i] * D[i] for i in range(n)]
    acc = 0
    for t in om:
        acc += t
        if 1e-30 * sum(om) < acc < 1e-3 * sum(om):
            ok = False
    return w, ok


def follow(g, w, L, D, sigma):
    """the same update of the factors, exactly"""
    n = len(g)
    om = sum(w[i] * w[i] * D[i] for i in range(n))
    oldt = om * (1 - sigma) / sigma
    v = list(g)
    for j in range(n):
        temp = w[j] * D[j]
        newt = oldt + v[j] * temp
        if newt <= 1e-28 * om:
            newt = 0
        b2 = 0
        if newt > 0:
            b2 = temp / newt
            D[j] *= oldt / newt
        for k in range(j + 1, n):
            v[k] -= L[k][j] * w[j]
            L[k][j] += b2 * v[k]
        oldt = newt


def run(case, cov):
    import mpmath as mp

    n = case["n"]
    un = 10.0 ** case["unit"]
    d = np.array([un * un * 2.0 ** t for t in case["d"]])
    x0 = np.array(case["xc"]) * un
    sp = S.classes()[case["space"]](d.copy(), x0.copy())
    sp.no_defer_trick = case["defer"]
    C = S.statuses()
    dirs = list(np.eye(n)) + [np.array(case["probe"])]
    planes = []
    flat = then = 0
    with mp.workdps(40):
        P = mp.diag([mp.mpf(float(t)) for t in d])
        X = mp.matrix([mp.mpf(float(t)) for t in x0])
        D = [P[i, i] for i in range(n)]
        L = [[mp.mpf(int(i == j)) for j in range(n)] for i in range(n)]
        size = math.sqrt(float(sum(d)))  # grows with the scale factor: what rounding is relative to
        for k, c in enumerate(case["cuts"]):
            g = np.array(c["g"])
            G = mp.matrix([mp.mpf(float(t)) for t in g])
            Pg = P * G
            w = (G.T * Pg)[0]
            if w < 1e-4 * size ** 2 * sum(v * v for v in G):
                cov.tag("gradient left out: the ellipsoid is flat along it")
                continue
            tau = float(mp.sqrt(w))
            eq = c["eq"] and flat < n - 1
            wL, ok = resolved(list(G), L, D)
            if not ok and (eq or flat) and case["space"] == "stable":
                cov.tag("gradient left out: not resolved by an unpivoted factorization")
                continue
            kind, u, v = c["kind"], c["u"], c["v"]
            if eq:
                b = [0.0 if kind == "central" else (0.8 * u if kind == "bias" else 0.8 * u * (1 if v < 0.5 else -1 / n)) * tau] * 2
            elif c["pair"]:
                b0 = 0.0 if kind == "central" else 0.5 * u * tau
                b = [b0, b0 + (0.1 + 0.4 * v) * tau]
            else:
                b = [0.0 if kind == "central" else 0.6 * u * tau]
            beta = b[0] if len(b) == 1 else dict(tuple=tuple, list=list, array=np.array)[c["form"]](b)
            call = dict(bias=sp.update_bias_cut, central=sp.update_central_cut, q=sp.update_q)[kind]
            what = "cut %d of %s (%s %s)" % (k + 1, case["space"], kind, [t / tau for t in b])
            got = call((g.copy(), beta))
            require(got == C.Success, "%s, %d equality cuts before it, answered %s", what, flat, got)
            err = float(abs(mp.mpf(float(sp.tsq())) - w) / w)
            cov.maximum("width error", err)
            require(err <= 100 * TOL, "%s: reported squared width %.12g, exactly %s", what, sp.tsq(), mp.nstr(w, 12))
            a = [mp.mpf(t) / mp.sqrt(w) for t in b]
            cc, al, ac = S.ref_params(n, a[0], a[1] if len(a) > 1 else 1)
            if al == 0.0:  # an exact zero only for equal offsets
                cc = a[0]
                ac = (1 - a[0] ** 2) * n / mp.mpf(n - 1)
            follow(list(G), wL, L, D, 1 - mp.mpf(al) / ac)
            X = X - cc * Pg / mp.sqrt(w)
            P = ac * P + (mp.mpf(al) - ac) * (Pg * Pg.T) / w
            if eq:
                flat += 1
                nrm = g / np.linalg.norm(g)
                planes.append((nrm, float((G.T * X)[0]) / float(np.linalg.norm(g))))
            elif flat:
                then += 1
            size *= math.sqrt(float(ac))
            if size < 1e-3 * un:
                break
            xc = S.as_vec(sp.xc(), n)
            gap = max(abs(float(mp.mpf(float(xc[i])) - X[i])) for i in range(n)) / size
            cov.maximum("center error", gap)
            require(gap <= TOL, "%s: center %s, exactly %s", what, xc, [float(t) for t in X])
            for e in dirs:
                ne = float(e @ e)
                if not ne > 0.01:
                    continue
                E = mp.matrix([mp.mpf(float(t)) for t in e])
                want = (E.T * P * E)[0]
                have = S.tsq_any(sp, e)
                if have is None:
                    require(want <= TOL * ne * size ** 2, "%s: no width along %s, exactly %s", what, e, mp.nstr(mp.sqrt(want), 8))
                    continue
                off = abs(float(mp.mpf(have) - want)) / (ne * size ** 2)
                cov.maximum("shape error", off)
                require(off <= TOL, "%s: squared width along %s is %.12g, exactly %s", what, e, have, mp.nstr(want, 12))
            for nrm, level in planes:
                off = abs(float(nrm @ xc) - level) / size
                cov.maximum("distance to plane", off)
                require(off <= TOL, "%s: the center %s left a plane it was confined to by %.3g widths", what, xc, off)
                across = S.tsq_any(sp, nrm) or 0.0
                cov.maximum("width across a plane", abs(across) / size ** 2)
                require(abs(across) <= TOL * size ** 2, "%s: squared width %.3g across a plane it was confined to", what, across)
    cov.tag("equality cuts: %d" % flat)
    cov.tag("cuts after the first: %s" % (then if then < 4 else "4+"))
    cov.tag(case["space"])
    if flat and then:
        cov.nontrivial()


SUBS = [
    Sub("planes", case_, run, quick=1000, thorough=20000, shards=8),
    Sub("wide", lambda: case_(lo=7, hi=12, maxlen=16), run, quick=60, thorough=1500, shards=8),
]
