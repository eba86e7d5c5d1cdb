"""C27: conjugate gradient never returns an unconverged answer."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "Symmetric positive-definite systems of size 1 to 12 with drawn eigenvectors and eigenvalues (repeated, clustered, "
    "condition up to 1e4, scales over eight orders), or small integer ones (identity, diagonal, tridiagonal; also of integer type), right-"
    "hand sides (also zero, unit and eigenvectors, lengths from 1e-100 to 1e100), guesses (none, drawn, "
    "exact, nearly exact, integer), tolerances and iteration limits from 0. The true residual is recomputed. "
    "Convergence is required where n (well conditioned) or 3n+5 steps are allowed. Ill-conditioned systems (up to 1e10) need many times n steps: with twice the steps of a textbook recurrence the method must "
    "converge, with less than half of them it must give up. Non-trivial: at least two distinct "
    "eigenvalues and a returned answer or a refusal by limit."
)


REFUSED = object()


@st.composite
def case_(draw, lo=1, hi=12):
    n = draw(st.integers(lo, hi))
    cond = draw(st.sampled_from([1.0, 3.0, 10.0, 30.0, 1e3, 1e4]))
    ev = [cond ** gen.unit(draw) for _ in range(n)]
    if draw(st.booleans()):
        ev = [ev[i % max(1, n // 2)] for i in range(n)]
    return dict(
        n=n, mat=draw(st.sampled_from(["drawn"] * 6 + ["eye", "diag", "tri", "ones"])), idt=draw(st.booleans()),
        ev=ev, Q=gen.reals(draw, n * n), sc=gen.log_uniform(draw, -4, 4), b=gen.reals(draw, n, 10.0),
        bt=draw(st.sampled_from(["real", "real", "real", "int", "zero", "eig", "ones", "axis"])),
        x0=draw(st.sampled_from(["none", "none", "drawn", "exact", "near", "int", "zero"])), xv=gen.reals(draw, n, 5.0),
        tol=draw(st.sampled_from(["default", "rel6", "rel6", "rel6", "rel9", "rel9", "rel3", "rel3", "rel1", "huge"])),
        lim=draw(st.sampled_from(["default", "default", "n", "3n", "less", "less", "0", "1"])),
        bu=draw(st.sampled_from([0, 0, 0, 0, 3, 6, 9, 14, 100, -3, -6, -12, -100])),
    )


def solve_case(case):
    n = case["n"]
    Q, _ = np.linalg.qr(np.array(case["Q"]).reshape(n, n) + 1.3 * np.eye(n))
    ev = np.array(case["ev"]) * case["sc"]
    A = (Q * ev) @ Q.T
    A = (A + A.T) / 2
    if case["mat"] != "drawn":
        k = [1 + int(abs(v) * 1e6) % 4 for v in case["ev"]]
        A = {"eye": np.eye(n), "diag": np.diag(np.array(k, dtype=float)), "ones": np.eye(n) + np.ones((n, n)),
             "tri": 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)}[case["mat"]]
        ev, Q = np.linalg.eigh(A)
        if case["idt"]:
            A = A.astype(int)
    b = np.array(case["b"])
    if case["bt"] == "int":
        b = np.round(b).astype(int)
    elif case["bt"] == "zero":
        b = np.zeros(n)
    elif case["bt"] == "eig":
        b = Q[:, 0] * 3.0
    elif case["bt"] == "ones":
        b = np.ones(n)
    elif case["bt"] == "axis":
        b = np.zeros(n)
        b[n // 2] = 1.0
    if case["bt"] != "zero" and not np.any(b):
        b = np.arange(1, n + 1)
    if case["bu"] and b.dtype == float:
        b = b * 10.0 ** case["bu"]
    return n, A, b, ev


def run(case, cov):
    from ellalgo.conjugate_gradient import conjugate_gradient

    n, A, b, ev = solve_case(case)
    xs = np.linalg.solve(A, b)
    if b.dtype == float:
        case["xv"] = [v * 10.0 ** case["bu"] for v in case["xv"]]
    x0 = None
    if case["x0"] == "drawn":
        x0 = np.array(case["xv"])
    elif case["x0"] == "exact":
        x0 = xs.copy()
    elif case["x0"] == "near":
        x0 = xs + 1e-8 * np.array(case["xv"])
    elif case["x0"] == "int":
        x0 = np.round(np.clip(np.array(case["xv"]), -1e6, 1e6)).astype(int)
    elif case["x0"] == "zero":
        x0 = np.zeros(n)
    start = np.zeros(n) if x0 is None else np.array(x0, dtype=float)
    r0 = float(np.linalg.norm(b - A @ start))
    size = float(np.linalg.norm(b)) + float(np.max(ev)) * max(float(np.linalg.norm(xs)), float(np.linalg.norm(start)))
    scale = max(r0, size * 1e-3, 1e-12 if case["bu"] >= 0 else 1e-300)
    tol = {"default": 1e-5, "rel6": 1e-6 * scale, "rel9": 1e-9 * scale, "rel3": 1e-3 * scale, "rel1": 0.1 * scale,
           "huge": 10 * scale}[case["tol"]]
    lim = {"default": 1000, "n": n, "3n": 3 * n + 5, "less": max(0, n // 2), "0": 0, "1": 1}[case["lim"]]
    A0, b0, g0 = A.copy(), b.copy(), None if x0 is None else x0.copy()
    kw = {}
    if case["tol"] != "default":
        kw["tol"] = tol
    if case["lim"] != "default":
        kw["max_iter"] = lim
    try:
        x = conjugate_gradient(A, b, x0, **kw) if x0 is not None else conjugate_gradient(A, b, **kw)
    except ValueError:
        x = REFUSED
    require(np.array_equal(A, A0) and np.array_equal(b, b0), "the matrix or right-hand side was modified")
    require(x0 is None or (np.array_equal(x0, g0) and x0.dtype == g0.dtype), "the initial guess was modified")
    slack = 1e-12 * n * size
    cond = float(np.max(ev) / np.min(ev))
    must = None
    if r0 < tol * (1 - 1e-9):
        must = "the initial guess solves the system (residual %g)" % r0
    elif tol > 100 * slack:
        if lim >= 3 * n + 5 and cond <= 1.1e3 and tol >= 1e-9 * r0:
            must = "3n+5 iterations were allowed"
        elif lim >= n and cond <= 31 and tol >= 1e-6 * r0:
            must = "n iterations were allowed"
        elif lim >= 1000:
            must = "1000 iterations were allowed"
    if x is REFUSED:
        require(must is None, "not converged although %s (n=%d, condition %g, tolerance %g)", must, n, cond, tol)
        cov.tag("refused")
    else:
        x = S.as_vec(x, n, "solution")
        res = float(np.linalg.norm(b - A @ x))
        cov.maximum("residual/tolerance", res / (tol + slack))
        require(res <= tol * (1 + 1e-9) + slack, "returned with residual %g, tolerance %g (n=%d)", res, tol, n)
        err = float(np.linalg.norm(x - xs))
        require(err <= (tol + slack) / float(np.min(ev)) * 1.01 + 1e-12 * cond * (1 + float(np.linalg.norm(xs))),
                "solution off by %g", err)
        if must:
            cov.tag("required: " + must.split(" (")[0])
        cov.tag("returned, guess " + case["x0"])
        if x0 is not None and r0 < tol * (1 - 1e-9):
            require(np.array_equal(x, start), "a guess that solves the system was changed to %s", x)
    cov.tag("matrix " + case["mat"])
    if len(set(case["ev"])) >= 2:
        cov.nontrivial()


@st.composite
def hard_case(draw):
    n = draw(st.integers(3, 40))
    e = draw(st.integers(4, 10))
    return dict(n=n, e=e, s=draw(st.sampled_from([0.25, 0.5, 0.75, 1.0])), seed=draw(st.integers(0, 2 ** 30)), sc=draw(st.integers(-3, 3)),
                tol=draw(st.sampled_from([-2, -4, -6, -8])), lim=draw(st.sampled_from(["default", "default", "twice", "half", "many"])),
                x0=draw(st.booleans()))


def plain_cg(A, b, x, tol, lim):
    """textbook recurrence: the number of steps after which the residual passes the tolerance, None if not within lim"""
    r = b - A @ x
    p = r.copy()
    rr = float(r @ r)
    for k in range(lim):
        if np.sqrt(rr) < tol:
            return k
        Ap = A @ p
        a = rr / float(p @ Ap)
        x = x + a * p
        r = r - a * Ap
        new = float(r @ r)
        p = r + (new / rr) * p
        rr = new
    return lim if np.sqrt(rr) < tol else None


def run_hard(case, cov):
    """Ill-conditioned systems, which take many times n steps in floating point: a limit that is plainly sufficient must
    suffice, one that is plainly too small must be respected."""
    from ellalgo.conjugate_gradient import conjugate_gradient

    n = case["n"]
    rs = np.random.RandomState(case["seed"])
    Q, _ = np.linalg.qr(rs.normal(size=(n, n)))
    ev = 10.0 ** (-case["e"] * rs.uniform(size=n)) * 10.0 ** case["sc"]
    A = (Q * ev) @ Q.T
    A = (A + A.T) / 2
    c = rs.normal(size=n)
    b = Q @ (ev ** case["s"] * c)  # a solution that is not too large, so that the attainable residual is small
    xs = Q @ (ev ** (case["s"] - 1.0) * c)
    x0 = np.ones(n) if case["x0"] else None
    start = np.ones(n) if case["x0"] else np.zeros(n)
    r0 = float(np.linalg.norm(b - A @ start))
    tol = 10.0 ** case["tol"] * r0
    slack = 1e-12 * n * (float(np.linalg.norm(b)) + float(ev.max()) * (float(np.linalg.norm(xs)) + float(np.linalg.norm(start)) + 1))
    if not (tol > 100 * slack and r0 > 0):
        cov.tag("tolerance at rounding level")
        return
    with np.errstate(all="ignore"):
        need = plain_cg(A, b.copy(), start.copy(), tol, 20000)
    if need is None or need < 2:
        return
    lim = {"default": 1000, "twice": 2 * need + 5, "half": need // 2 - 2, "many": 3 * need + 1000}[case["lim"]]
    if lim < 0:
        return
    kw = {} if case["lim"] == "default" else dict(max_iter=lim)
    try:
        x = conjugate_gradient(A, b, x0, tol=tol, **kw)
    except ValueError:
        require(lim < 2 * need + 5, "not converged within %d iterations, the recurrence needs %d (n=%d)", lim, need, n)
        cov.tag("refused")
    else:
        x = S.as_vec(x, n, "solution")
        res = float(np.linalg.norm(b - A @ x))
        require(res <= tol * (1 + 1e-9) + slack, "returned with residual %g, tolerance %g (n=%d)", res, tol, n)
        require(lim >= need // 2 - 1, "converged with a limit of %d iterations, the recurrence needs %d (n=%d)", lim, need, n)
        cov.tag("more than 3n steps" if need > 3 * n else "up to 3n steps")
        cov.maximum("steps / n", need / n)
    if need > n:
        cov.nontrivial()


SUBS = [
    Sub("hard", hard_case, run_hard, quick=1500, thorough=8000, shards=8),
    Sub("systems", case_, run, quick=6000, shards=8),
    Sub("large", lambda: case_(lo=13, hi=60), run, quick=300, thorough=4000, shards=8),
]
