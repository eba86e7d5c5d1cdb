"""C18: matrix-inequality oracles accept and cut correctly."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vp import gen, mats
from vp import space as S
from vp.core import Buffer, Sub, require

RULE = (
    "An oracle (lazy, zero-constant or explicit) over drawn coefficient matrices with a known feasible point, "
    "queried at a drawn sequence of points (near and far, feasible, infeasible, exactly singular, repeated). "
    "Acceptance is decided by exact rational factorization or by the eigenvalue margin. A cut is checked against "
    "the known feasible points (coefficients and unknowns also in other units); when the coefficient matrices span all symmetric matrices the matrix V with "
    "g_k = <F_k, V> is recovered and must be v v' with <M(x), V> = -ep. Answers of the used oracle and of a fresh one "
    "must agree. A second part has up to 60 unknowns and matrices of order up to 40, with feasible points moved along each unknown "
    "almost to the boundary of the feasible set. Non-trivial: at least one cut was checked."
)


def basis(m):
    out = []
    for i in range(m):
        for j in range(i + 1):
            E = np.zeros((m, m))
            E[i, j] = E[j, i] = 1.0
            out.append(E)
    return out


@st.composite
def case_(draw, big=False):
    kind = draw(st.sampled_from(["lmi", "lmi0", "old"]))
    full = not big and draw(st.booleans())
    m = draw(st.integers(7, 14)) if big else draw(st.integers(1, 4 if full else 6))
    n = m * (m + 1) // 2 if full else draw(st.integers(3, 12) if big else st.integers(1, 5))
    c = dict(kind=kind, full=full, m=m, n=n, intF=draw(st.booleans()))
    if full:
        c["T"] = [v % 3 - 1 for v in gen.i16s(draw, n * (n - 1) // 2)]
    else:
        c["F"] = [mats.sym_case(draw, m) for _ in range(n)]
    c["S"] = mats.sym_case(draw, m, kinds=("ldl", "gram", "tilt"))
    c["y"] = [v % 33 / 8.0 - 2.0 for v in gen.i16s(draw, n)]
    c["u"] = draw(st.sampled_from([0, 0, 0, -20, -60, -100, 40, 100]))
    c["w"] = [0] * n
    if draw(st.integers(0, 2)) == 1:  # units of the unknowns, common or one each
        w = st.sampled_from([0, 10, -10, 30, -30, 60, -60, 100, -100])
        c["w"] = [draw(w) for _ in range(n)] if draw(st.booleans()) else [draw(w)] * n
    c["buf"] = draw(st.booleans())
    c["q"] = []
    for _ in range(draw(st.integers(6, 24) if big == "long" else st.integers(1, 5))):
        t = draw(st.sampled_from(["near", "near", "far", "dy", "dy", "same", "y"]))
        c["q"].append(dict(t=t, d=gen.i16s(draw, n), e=draw(st.integers(0, 4))))
    return c


def psd_of(d, m):
    """some positive semidefinite matrix derived from a drawn one"""
    A = mats.build(d, m)
    sz = mats.size(A)
    if sz > 0:
        A = A / 2.0 ** np.floor(np.log2(sz))
    if mats.ref_ldl(A, False)[0]:
        return A
    k = int(abs(np.sum(A)) * 8) % 3
    if k == 0:
        return np.zeros((m, m))
    B = np.tril(np.round(A * 4) / 4)
    return B @ B.T


def problem(case):
    m, n = case["m"], case["n"]
    if case["full"]:
        E = basis(m)
        F, k = [], 0
        for i in range(n):  # unit triangular combination of the basis, still a basis
            M = E[i].copy()
            for j in range(i):
                M = M + case["T"][k] * E[j]
                k += 1
            F.append(M)
    else:
        F = []
        for d in case["F"]:
            M = mats.build(d, m)
            sz = mats.size(M)
            F.append(M / 2.0 ** np.floor(np.log2(sz)) if sz > 0 else M)
    y = np.array(case["y"])
    P = psd_of(case["S"], m)
    if case["kind"] == "lmi0":
        y[0] = 1.0
        if not case["full"]:
            F[0] = P - sum((F[k] * y[k] for k in range(1, n)), np.zeros((m, m)))
        B = None
    else:
        B = P + sum((F[k] * y[k] for k in range(n)), np.zeros((m, m)))
    if case["kind"] == "lmi0" and case["full"]:
        # solve sum F_k y_k = P for y
        A = np.array([[Mk[i, j] for Mk in F] for i in range(m) for j in range(i + 1)])
        y = np.linalg.solve(A, np.array([P[i, j] for i in range(m) for j in range(i + 1)]))
    if case["intF"] and all(np.all(M == np.round(M)) for M in F):
        F = [M.astype(int) for M in F]
        if B is not None and np.all(B == np.round(B)):
            B = B.astype(int)
    return F, B, y, P


def make(kind, F, B):
    from ellalgo.oracles.lmi0_oracle import LMI0Oracle
    from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
    from ellalgo.oracles.lmi_oracle import LMIOracle

    if kind == "lmi":
        return LMIOracle(F, B)
    if kind == "old":
        return LMIOldOracle(F, B)
    return LMI0Oracle(F)


def expr_exact(kind, F, B, x):
    m = len(F[0])
    sg = 1 if kind == "lmi0" else -1
    out = [[Fraction(0)] * m for _ in range(m)]
    short = True
    for i in range(m):
        for j in range(m):
            v = Fraction(0) if B is None else Fraction(float(B[i, j]))
            for Fk, xk in zip(F, x):
                t = Fraction(float(Fk[i, j])) * Fraction(float(xk))
                short = short and mats._small(t)
                v += sg * t
            out[i][j] = v
    short = short and all(mats._small(v) for r in out for v in r)
    return np.array([[float(v) for v in r] for r in out]), short


def decode(cut, n, where):
    require(isinstance(cut, tuple) and len(cut) == 2, "%s: cut %r is not a pair", where, cut)
    g = S.as_vec(cut[0], n, "gradient")
    ep = S.as_num(cut[1], "depth")
    return np.array(g, dtype=float), ep


def run(case, cov):
    kind, m, n = case["kind"], case["m"], case["n"]
    F, B, y, P = problem(case)
    u = case.get("u", 0)
    Fu, Bu = F, B
    if u:  # an exact change of units: same verdicts, cuts scaled
        F = [np.ldexp(np.asarray(M, dtype=float), u) for M in F]
        B = None if B is None else np.ldexp(B, u)
        P = np.ldexp(P, u)
        cov.tag("other units")
    F0 = [M.copy() for M in F]
    Fu = [M.copy() for M in Fu]
    Bu = None if Bu is None else Bu.copy()
    B0 = None if B is None else B.copy()
    w = np.array(case.get("w", [0] * n))
    if np.any(w):  # the oracle sees F_k 2^w_k and x_k 2^-w_k: the same expressions, bit by bit
        Fo = [np.ldexp(np.asarray(M, dtype=float), int(wk)) for M, wk in zip(F, w)]
        cov.tag("unknowns in other units")
    else:
        Fo = F
    Fo0 = [M.copy() for M in Fo]
    om = make(kind, Fo, B)
    sg = 1.0 if kind == "lmi0" else -1.0
    size = max([mats.size(np.asarray(M, float)) for M in F] + [0.0 if B is None else mats.size(B)])
    prev = None
    held = []
    buf = Buffer(case.get("buf"))
    for k, q in enumerate(case["q"]):
        d = np.array(q["d"], dtype=float)
        if q["t"] == "near":
            x = y + d / 32768.0 * 10.0 ** -q["e"]
        elif q["t"] == "far":
            x = d / 32768.0 * 10.0 ** q["e"]
        elif q["t"] == "dy":
            x = np.array([v % 17 / 4.0 - 2.0 for v in q["d"]])
        elif q["t"] == "same" and prev is not None:
            x = prev.copy()
        else:
            x = y.copy()
        prev = x.copy()
        xo = buf.put(np.ldexp(x, -w) if np.any(w) else x.copy())
        xo0 = xo.copy()
        where = "%s query %d" % (kind, k + 1)
        ans = om.assess_feas(xo)
        require(np.array_equal(xo, xo0), "%s modified the point", where)
        for M, M0 in zip(Fo, Fo0):
            require(np.array_equal(M, M0), "%s modified a coefficient matrix", where)
        require(B is None or np.array_equal(B, B0), "%s modified the constant matrix", where)
        M, short = expr_exact(kind, Fu, Bu, x)
        acc, exact, _ = mats.ref_ldl(M)
        M = np.ldexp(M, u)
        lam = mats.lam_min(M)
        tol = 1e-11 * m * (mats.size(M) + size * (1.0 + float(np.sum(np.abs(x)))))
        if lam > tol or (short and exact and acc):
            require(ans is None, "%s: rejected a point with smallest eigenvalue %g", where, lam)
            cov.tag("must accept")
        if lam < -tol or (short and exact and not acc):
            require(ans is not None, "%s: accepted a point whose matrix is not positive definite (eigenvalue %g)", where,
                    lam)
            cov.tag("must cut, boundary" if abs(lam) <= tol else "must cut")
        fresh = make(kind, [M_.copy() for M_ in Fo0], None if B0 is None else B0.copy()).assess_feas(xo0.copy())
        require((fresh is None) == (ans is None), "%s: a fresh oracle answers differently", where)
        for gg, g1 in held:
            require(np.array_equal(gg, g1), "%s changed a gradient returned earlier", where)
        if ans is None:
            continue
        cov.nontrivial()
        cov.tag("cut by " + kind)
        g, ep = decode(ans, n, where)
        g = np.ldexp(g, -w)
        held.append((ans[0], np.array(ans[0], copy=True)))
        fg, fe = decode(fresh, n, where)
        fg = np.ldexp(fg, -w)
        gs = float(np.max(np.abs(g))) + abs(ep)
        require(np.max(np.abs(fg - g)) + abs(fe - ep) <= 1e-9 * gs, "%s: a fresh oracle returns another cut", where)
        require(ep >= 0.0, "%s: negative depth %g", where, ep)
        # rounding allowance: everything scales with |v|^2 * size; bound |v|^2 through g when possible
        if case["full"]:
            A = np.array([[(1.0 if i == j else 2.0) * float(Fk[i, j]) for i in range(m) for j in range(i + 1)] for Fk in F0])
            sol = np.linalg.solve(A, g * -sg)
            V = np.zeros((m, m))
            t = 0
            for i in range(m):
                for j in range(i + 1):
                    V[i, j] = V[j, i] = sol[t]
                    t += 1
            tr = float(np.trace(V))
            cond = float(np.linalg.cond(A))
            al = 1e-11 * cond
            require(tr > 0, "%s: the cut is not a quadratic form of the coefficient matrices", where)
            ev, _ = np.linalg.eigh(V)
            require(abs(ev[-1] - tr) <= al * tr and np.max(np.abs(ev[:-1]), initial=0.0) <= al * tr,
                    "%s: coefficients are not quadratic forms with one vector (eigenvalues %s)", where, ev)
            vAv = float(np.sum(V * M))
            allow = (al + 1e-10) * tr * (mats.size(M) + tol) * m * m
            cov.maximum("depth error/allowance", abs(vAv + ep) / max(allow, 1e-300))
            require(abs(vAv + ep) <= allow, "%s: depth %.12g, quadratic form of the matrix expression %.12g", where, ep, vAv)
            cov.tag("common vector recovered")
            v2 = tr
        else:
            v2 = vnorm2(M)
        # known feasible points: y, and y + rays towards the interior
        for fac in (0.0, 1.0):
            z = y
            Mz = P
            if fac and case["full"]:
                # P + I is feasible too
                A2 = np.array([[float(Fk[i, j]) for Fk in F0] for i in range(m) for j in range(i + 1)])
                rhs = np.array([2.0 ** u if i == j else 0.0 for i in range(m) for j in range(i + 1)])
                z = y + sg * np.linalg.solve(A2, rhs)
                Mz = P + 2.0 ** u * np.eye(m)
            elif fac:
                break
            val = float(g @ (z - x)) + ep
            allow = 1e-9 * v2 * (size * (1 + float(np.sum(np.abs(x))) + float(np.sum(np.abs(z)))) * m + mats.size(Mz))
            require(val <= allow, "%s: a feasible point violates the cut by %g", where, val)
        cov.tag("feasible point checked")


def vnorm2(M):
    """squared norm of the witness of the first failing leading block (scale of the cut)"""
    _, _, rng = mats.ref_ldl(M)
    if rng[1] <= 1:
        return 1.0
    k = rng[1] - 1
    try:
        w = np.linalg.solve(M[:k, :k], M[:k, k])
    except np.linalg.LinAlgError:
        return 1e12
    return 1.0 + float(w @ w)


@st.composite
def wide_case(draw):
    m = draw(st.integers(1, 40))
    n = draw(st.integers(13, 60) if m <= 20 else st.integers(2, 20))
    return dict(kind=draw(st.sampled_from(["lmi", "lmi0", "old"])), m=m, n=n, seed=draw(st.integers(0, 2 ** 30)),
                sparse=draw(st.booleans()), margin=draw(st.sampled_from([-1, -2, -4])),
                q=[draw(st.sampled_from([0.0, 1e-3, 1e-2, 0.1, 0.3, 1.0, 10.0])) for _ in range(draw(st.integers(1, 4)))])


def run_wide(case, cov):
    """Many unknowns, large matrices: verdict from the eigenvalues, cut against an interior point and its neighbours."""
    kind, m, n = case["kind"], case["m"], case["n"]
    rs = np.random.RandomState(case["seed"])
    F = []
    for _ in range(n):
        A = rs.uniform(-1, 1, (m, m))
        if case["sparse"]:
            A = A * (rs.uniform(size=(m, m)) < 2.0 / m)
        F.append((A + A.T) / 2)
    y = rs.uniform(-1, 1, n)
    G = rs.uniform(-1, 1, (m, m))
    P = G @ G.T / m + 10.0 ** case["margin"] * np.eye(m)
    B = None
    if kind == "lmi0":
        k = int(rs.randint(n))
        y[k] = 1.0
        F[k] = P - sum((F[i] * y[i] for i in range(n) if i != k), np.zeros((m, m)))
    else:
        B = P + sum((F[i] * y[i] for i in range(n)), np.zeros((m, m)))
    sg = 1.0 if kind == "lmi0" else -1.0
    om = make(kind, [M.copy() for M in F], None if B is None else B.copy())
    size = max([mats.size(M) for M in F] + [0.0 if B is None else mats.size(B)])
    for t in case["q"]:
        x = y + t * rs.uniform(-1, 1, n) * (rs.uniform(size=n) < rs.uniform(0.05, 1.0))
        if t and rs.randint(3) == 0:  # one unknown only
            x = y.copy()
            x[rs.randint(n)] += t * 3
        ans = om.assess_feas(x.copy())
        M = (0 if B is None else B) + sg * sum(F[i] * x[i] for i in range(n))
        lam = mats.lam_min(M)
        tol = 1e-11 * m * size * (1.0 + float(np.sum(np.abs(x))))
        if lam > tol:
            require(ans is None, "%s, %d unknowns, order %d: rejected a point with smallest eigenvalue %g", kind, n, m, lam)
            cov.tag("must accept")
        if lam < -tol:
            require(ans is not None, "%s, %d unknowns, order %d: accepted a point with eigenvalue %g", kind, n, m, lam)
            cov.tag("must cut")
        if ans is None:
            continue
        g, ep = decode(ans, n, kind)
        require(ep >= 0.0, "%s: negative depth %g", kind, ep)
        v2 = vnorm2(M)
        allow = 1e-9 * v2 * m * size * (1 + float(np.sum(np.abs(x))) + float(np.sum(np.abs(y))))
        base = float(g @ (y - x)) + ep
        require(base <= allow, "%s, %d unknowns, order %d: a feasible point violates the cut by %g", kind, n, m, base)
        # how far each unknown can move from the interior point before the matrix turns singular
        W = np.linalg.inv(np.linalg.cholesky(P))
        for k in range(n):
            e = np.linalg.eigvalsh(W @ (sg * F[k]) @ W.T)
            for lim, s in ((e[0], 1.0), (e[-1], -1.0)):
                if lim * s < -1e-6:
                    r = 0.999 * s / -(lim * s)
                    require(base + g[k] * r <= allow * (1 + abs(r)),
                            "%s, %d unknowns, order %d: a feasible point (unknown %d moved by %g) violates the cut by %g",
                            kind, n, m, k, r, base + g[k] * r)
        cov.nontrivial()
        cov.tag("order above 20" if m > 20 else "more than 12 unknowns" if n > 12 else "other")


SUBS = [
    Sub("wide", wide_case, run_wide, quick=150, thorough=6000, shards=4),
    Sub("queries", case_, run, quick=5000, shards=8),
    Sub("large", lambda: case_(True), run, quick=400, shards=4),
    Sub("long", lambda: case_("long"), run, quick=60, shards=2),
]
