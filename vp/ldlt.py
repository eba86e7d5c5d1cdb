"""Histories on one factorization manager, with the checks of C16, C17 and C30."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, mats
from vp import space as S
from vp.core import require

OPS = ("factorize", "factor", "factorize", "factor", "semi")


@st.composite
def histories(draw, ops=OPS, max_len=6, lo=1, hi=7):
    n = draw(st.one_of(st.integers(lo, min(hi, lo + 3)), st.integers(lo, hi)))
    if hi < 10 and draw(st.integers(0, 60)) == 37:
        n = draw(st.integers(10, 16))
    k = draw(st.integers(1, max_len))
    mlist = [dict(mats.sym_case(draw, n), units=mats.units_case(draw, n)) for _ in range(min(k, 3))]
    steps = []
    for _ in range(k):
        steps.append(dict(op=draw(st.sampled_from(ops)), m=draw(st.integers(0, len(mlist) - 1)),
                          as_int=draw(st.integers(0, 3)) == 2, fresh=draw(st.integers(0, 4)) == 3,
                          twice=draw(st.integers(0, 3)) == 2, ask=draw(st.sampled_from(["wit", "wit", "quad", "none"])),
                          probe=draw(st.integers(0, len(mlist) - 1)),
                          wrong=draw(st.booleans())))
    return dict(n=n, mats=mlist, steps=steps)


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def play(case, cov, strict=False, wit=False, semi=False, known=None):
    """strict/wit/semi select which property's claims are checked."""
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    n = case["n"]
    Bs = [mats.build(d, n) for d in case["mats"]]  # decided on these
    Es = [d.get("units", [0] * n) for d in case["mats"]]
    As = [mats.units(B, e) for B, e in zip(Bs, Es)]  # given to the code
    mgr = LDLTMgr(n)
    used = False
    for k, s in enumerate(case["steps"]):
        A = As[s["m"]].copy()
        if s["fresh"]:
            mgr = LDLTMgr(n)
            used = False
        if s["as_int"] and np.all(A == np.round(A)) and mats.size(A) < 1e9:
            A = A.astype(int)
            cov.tag("integer array")
        keep = A.copy()
        Af, Bf, ex = np.array(A, dtype=float), Bs[s["m"]], Es[s["m"]]
        if any(ex):
            cov.tag("other units")
        op = s["op"]
        outside = []

        def elem(i, j):
            if not (0 <= i < n and 0 <= j < n):
                outside.append((i, j))
            return A[i, j]

        if op == "factorize":
            r = mgr.factorize(A)
        elif op == "factor":
            r = mgr.factor(elem)
        else:
            r = mgr.factor_with_allow_semidefinite(elem)
        ok = mats.as_bool(r, op)
        where = "step %d (%s of %s)" % (k + 1, op, Af.tolist() if n <= 4 else "%dx%d matrix" % (n, n))
        if strict or semi:
            require(not outside, "%s asked for elements %s", where, outside)
            require(np.array_equal(A, keep), "%s modified the matrix", where)
            require(mats.as_bool(mgr.is_spd(), "is_spd") == ok, "%s: is_spd() contradicts the result %s", where, ok)
        tol = 1e-11 * n * mats.size(Bf)
        lam = mats.lam_min(Bf)
        acc, exact, rng = mats.ref_ldl(Bf)
        cov.tag("accepted" if ok else "rejected")
        if not acc and rng[1] and exact and mats.ref_ldl(Bf, True)[2] != rng:
            cov.tag("exact zero pivot")
        nt = used or not acc
        if strict and op != "semi":
            if lam > tol or (exact and acc):
                require(ok, "%s: rejected a positive definite matrix (smallest eigenvalue %g)", where, lam)
                cov.tag("must accept")
            if lam < -tol or (exact and not acc):
                require(not ok, "%s: accepted a matrix that is not positive definite (smallest eigenvalue %g)", where,
                        lam)
                cov.tag("must reject, exactly singular" if abs(lam) <= tol else "must reject")
            if ok:
                R = np.asarray(mgr.sqrt(), dtype=float)
                require(R.shape == (n, n), "%s: root of shape %s", where, R.shape)
                require(np.all(np.isfinite(R)), "%s: root is not finite", where)
                require(np.all(np.tril(R, -1) == 0.0), "%s: root is not upper triangular", where)
                require(np.all(np.diag(R) > 0.0), "%s: root has a non-positive diagonal", where)
                Ru = np.array([[np.ldexp(R[i, j], -ex[j]) for j in range(n)] for i in range(n)])
                err = mats.size(Ru.T @ Ru - Bf) / max(mats.size(Bf), 1e-300)
                cov.maximum("root error", err)
                require(err <= 1e-10, "%s: root squared is off by %g relative", where, err)
                cov.tag("root checked")
                if s["twice"]:
                    R2 = np.asarray(mgr.sqrt(), dtype=float)
                    require(np.array_equal(R, R2), "%s: asking for the root again gives another one", where)
            elif s["wrong"]:
                require(refused(mgr.sqrt), "%s: root of a rejected matrix was not refused", where)
                cov.tag("root refused")
            if nt:
                cov.nontrivial()
        if semi and op == "semi":
            psd = mats.is_psd_exact(Bf)
            acc_s, exact_s, _ = mats.ref_ldl(Bf, True)
            if psd and (lam > tol or exact_s):
                require(ok, "%s: rejected a positive semidefinite matrix", where)
                cov.tag("must accept" + (", singular" if abs(lam) <= tol else ""))
            if ok and not psd and lam < -tol:
                if known and ((acc_s and not acc) or mats.ref_ldl(Bf, True, tol)[0]):
                    # the recorded restart-after-zero-pivot defect, and only that
                    cov.known_finding(known)
                    cov.count("accepted an indefinite matrix after a zero pivot (known)")
                else:
                    require(False, "%s: accepted a matrix with eigenvalue %g", where, lam)
            if exact and not any_zero_pivot(Bf):
                require(ok == acc, "%s: says %s, strict variant %s, without a zero pivot", where, ok, acc)
                cov.tag("compared with the strict variant")
            if not psd and lam < -tol and not ok:
                cov.tag("must reject")
            if not ok:
                check_witness(mgr, Af, where, cov, s, As[s["probe"]], negative=True)
            if not acc or used:
                cov.nontrivial()
        if wit:
            if ok:
                if s["wrong"]:
                    require(refused(mgr.witness), "%s: a witness of an accepted matrix was not refused", where)
                    cov.tag("witness refused")
            elif s["ask"] != "none":
                check_witness(mgr, Af, where, cov, s, As[s["probe"]])
                if used:
                    cov.tag("witness from a reused manager")
                cov.nontrivial()
        used = True


def any_zero_pivot(A):
    F = mats.frac(A)
    n = len(F)
    for i in range(n):
        p = F[i][i]
        if p == 0:
            return True
        if p < 0:
            return False
        for a in range(i + 1, n):
            f = F[a][i] / p
            if f:
                for b in range(i + 1, n):
                    F[a][b] -= f * F[i][b]
    return False


def check_witness(mgr, A, where, cov, s, M, negative=False):
    n = len(A)
    for rep in range(2 if s["twice"] else 1):
        ep = S.as_num(mgr.witness(), "witness()")
        v = np.array(mgr.wit, dtype=float)
        pos = tuple(mgr.pos)
        require(v.shape == (n,) and np.all(np.isfinite(v)), "%s: witness vector %s", where, v)
        require(len(pos) == 2 and 0 <= pos[0] < pos[1] <= n, "%s: failing range %s", where, pos)
        require(ep >= 0.0, "%s: witness value %g is negative", where, ep)
        require(np.any(v != 0.0), "%s: witness vector is zero", where)
        out = np.concatenate([v[: pos[0]], v[pos[1]:]])
        require(np.all(out == 0.0), "%s: witness %s is not zero outside %s", where, v, pos)
        q = mats.quad_exact(A, v)
        slack = 1e-11 * mats.quad_slack(A, v, pos)
        cov.maximum("witness error/slack", abs(q + ep) / max(slack, 1e-300))
        require(abs(q + ep) <= slack, "%s: witness %s has v'Av = %.12g but ep = %.12g", where, v, q, ep)
        if negative:
            require(q < slack and ep > 0.0, "%s: rejected without a negative direction (v'Av = %g)", where, q)
        cov.tag("witness with ep = 0" if ep == 0 else "witness with ep > 0")
        if s["ask"] == "quad" or rep:
            for B in (M, A, np.eye(n)):
                Bq = mats.quad_exact(B, v)
                got = S.as_num(mgr.sym_quad(B.copy()), "sym_quad")
                allow = 1e-11 * float(np.abs(v) @ np.abs(B) @ np.abs(v))
                require(abs(got - Bq) <= allow, "%s: sym_quad gives %.12g, v'Mv is %.12g", where, got, Bq)
            cov.tag("quadratic form checked")


@st.composite
def giant_case(draw):
    n = draw(st.integers(30, 110))
    return dict(n=n, seed=draw(st.integers(0, 2 ** 30)), unit=draw(st.sampled_from([0, 0, -40, 40])),
                steps=[dict(kind=draw(st.sampled_from(["pd", "pd", "bad", "bad", "band"])), at=draw(st.integers(0, n - 1)),
                            op=draw(st.sampled_from(["factorize", "factor"])), size=draw(st.sampled_from([0, -2, -4])))
                       for _ in range(draw(st.integers(1, 3)))])


def play_giant(case, cov, strict=False, wit=False, semi=False):
    """Large matrices: positive definite ones, banded ones, and ones with a single negative direction that only the leading
    block of order at+1 sees."""
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    n = case["n"]
    rs = np.random.RandomState(case["seed"])
    mgr = LDLTMgr(n)
    for k, s in enumerate(case["steps"]):
        L = np.tril(rs.uniform(-1, 1, (n, n)), -1) / n + np.eye(n)
        if s["kind"] == "band":
            L = np.triu(L, -rs.randint(1, n))
        D = rs.uniform(0.5, 2.0, n)
        bad = s["kind"] != "pd" and (s["kind"] == "bad" or s["at"] % 2)
        if bad:
            D[s["at"]] = -(10.0 ** s["size"])
        A = np.ldexp((L * D) @ L.T, case["unit"])
        A = (A + A.T) / 2
        keep = A.copy()
        if semi:
            ok = mats.as_bool(mgr.factor_with_allow_semidefinite(lambda i, j: A[i, j]), "factor")
        elif s["op"] == "factor":
            ok = mats.as_bool(mgr.factor(lambda i, j: A[i, j]), "factor")
        else:
            ok = mats.as_bool(mgr.factorize(A), "factorize")
        where = "step %d: matrix of order %d" % (k + 1, n)
        require(np.array_equal(A, keep), "%s: modified", where)
        if not bad:
            require(ok, "%s: rejected a positive definite matrix", where)
        elif not semi:
            require(not ok, "%s: accepted a matrix with a negative direction (first seen at %d)", where, s["at"] + 1)
        cov.tag("accepted" if ok else "rejected")
        if strict and ok:
            R = np.asarray(mgr.sqrt(), dtype=float)
            err = mats.size(R.T @ R - A) / mats.size(A)
            cov.maximum("root error", err)
            require(np.all(np.tril(R, -1) == 0.0) and err <= 1e-10, "%s: root squared is off by %g relative", where, err)
        if wit and not ok:
            ep = S.as_num(mgr.witness(), "ep")
            v = S.as_vec(mgr.wit, n)
            q = float(v @ A @ v)
            allow = 1e-10 * float(v @ v) * mats.size(A) * n
            require(np.any(v != 0.0) and ep >= 0.0, "%s: witness %s with depth %g", where, v, ep)
            require(abs(q + ep) <= allow, "%s: depth %.12g, quadratic form of the witness %.12g", where, ep, q)
            cov.maximum("witness error", abs(q + ep) / allow)
            W = rs.uniform(-1, 1, (n, n))
            W = W + W.T
            sq, full = S.as_num(mgr.sym_quad(W), "sym_quad"), float(v @ W @ v)
            require(abs(sq - full) <= 1e-9 * n * float(v @ v), "%s: sym_quad %.12g, quadratic form %.12g", where, sq, full)
        if bad or k:
            cov.nontrivial()
