"""C42: answers depend on the values given, not on how the arrays are stored."""
import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import Sub, require

from checks import c32

RULE = (
    "A case is an object or function of the library (both search spaces, the calculator, the factorization manager, the three "
    "matrix-inequality oracles, the filter oracle, the three profit oracles, conjugate gradient, spectral factorization and its inverse) "
    "and a short sequence of calls with small dyadic data, all exactly representable in every storage. It is run with new "
    "contiguous double arrays and again with the same values stored otherwise: strided, reversed or column-major views, parts of a "
    "larger array surrounded by NaN, read-only, big-endian or integer. All answers must agree to "
    "1e-9 and no array may change. Non-trivial: at least two calls with arrays of an unusual storage."
)

LAYOUTS = ["strided", "reversed", "fortran", "window", "readonly", "bigendian", "i8", "i4", "nested"]
TARGETS = ["ell", "stable", "calc", "ldlt", "lmi", "lmi0", "old", "lowpass", "profit", "profitrb", "profitq", "cg", "spectral", "inverse"]


def store(vals, layout, k=0):
    """the values as an array with the given storage"""
    a = np.array(vals, dtype=float)
    if layout in ("i8", "i4"):
        b = a.astype({"i8": np.int64, "i4": np.int32}[layout])
        return b if np.array_equal(b, a) else a
    if layout == "bigendian":
        return a.astype(">f8")
    if layout == "readonly":
        a.flags.writeable = False
        return a
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "reversed":
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
    if layout == "strided":
        big = np.full([2 * s + 1 for s in a.shape], np.nan)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if layout == "window":
        big = np.full([s + 3 for s in a.shape], np.nan)
        v = big[tuple(slice(1, 1 + s) for s in a.shape)]
        v[...] = a
        return v
    if layout == "nested":  # a row of a larger table, as in a list of gradients
        big = np.full((3,) + a.shape, np.nan)
        big[k % 3] = a
        return big[k % 3]
    return a


def canon(r):
    return c32.canon(r.item() if isinstance(r, np.ndarray) and r.shape == () else r)


def ints(draw, k, lo=-16, hi=16):
    return draw(st.lists(st.integers(lo, hi), min_size=k, max_size=k))


@st.composite
def case_(draw):
    t = draw(st.sampled_from(TARGETS))
    n = 2 if t.startswith("profit") else draw(st.integers(2, 5))
    lay = draw(st.lists(st.sampled_from(LAYOUTS), min_size=1, max_size=3))
    whole = draw(st.booleans())
    q = draw(st.integers(1, 6))
    return dict(t=t, n=n, lay=lay, unit=1.0 if whole else 0.125, um=draw(st.sampled_from([1.0, 1.0, 0.125])), uc=draw(st.sampled_from([1.0, 0.125])), m=draw(st.integers(1, 4)),
                vecs=[ints(draw, n) for _ in range(q)], offs=[ints(draw, 2, -24, 24) for _ in range(q)],
                kinds=[draw(st.sampled_from(["bias", "central", "q"])) for _ in range(q)],
                pair=[draw(st.sampled_from(["no", "tuple", "array", "one"])) for _ in range(q)],
                diag=ints(draw, n, 1, 40), scalar=draw(st.booleans()), center=ints(draw, n),
                mats=[ints(draw, 10, -12, 12) for _ in range(n + 1)], semi=draw(st.booleans()), more=draw(st.integers(0, 30)))


class Maker:
    """hands out arrays in the storages of the case and remembers what they held"""

    def __init__(self, case, plain):
        self.lay, self.plain, self.k, self.held, self.odd = case["lay"], plain, 0, [], 0

    def __call__(self, vals):
        lay = None if self.plain else self.lay[self.k % len(self.lay)]
        a = store(vals, lay, self.k)
        self.k += 1
        self.odd += not (type(a) is np.ndarray and a.dtype == float and a.flags.c_contiguous and a.flags.writeable and a.flags.owndata)
        self.held.append((a, np.array(a, dtype=float)))
        return a

    def check(self):
        for a, v in self.held:
            require(np.array_equal(np.array(a, dtype=float), v), "an argument changed from %s to %s", v.tolist(), np.array(a).tolist())


def sym(flat, m, unit, shift=0.0):
    A = np.zeros((m, m))
    k = 0
    for i in range(m):
        for j in range(i + 1):
            A[i, j] = A[j, i] = flat[k] * unit
            k += 1
    return A + shift * np.eye(m)


def play(case, W):
    """the answers of the calls of a case"""
    t, n, u, m, um = case["t"], case["n"], case["unit"], case["m"], case["um"]
    vecs = [[v * u for v in x] for x in case["vecs"]]
    offs = [sorted(v * u for v in o) for o in case["offs"]]
    out = []
    irr = not all(v in ("i8", "i4") for v in case["lay"])

    def beta_of(i, kind):
        a, b = offs[i]
        if a == b:
            b += u
        if irr:  # no ties: another order of summation must not decide a status
            a, b = a * 0.7390851332151607, b * 0.7390851332151607
        if kind != "q":
            a, b = abs(a) if kind == "bias" else 0.0, abs(a) + (b - a)
        p = case["pair"][i]
        return a if p == "no" else (a, b) if p == "tuple" else W([a, b]) if p == "array" else W([a])

    if t in ("ell", "stable", "calc"):
        from vp import space as S

        if t == "calc":
            from ellalgo.ell_calc import EllCalc

            ec = EllCalc(n)
            f = dict(bias=ec.calc_single_or_parallel, central=ec.calc_single_or_parallel_central_cut, q=ec.calc_single_or_parallel_q)
            for i, kind in enumerate(case["kinds"]):
                out.append(canon(f[kind](beta_of(i, kind), float(case["diag"][i % n]))))
            return out
        val = float(case["diag"][0]) if case["scalar"] else W(case["diag"])
        sp = S.classes()[t](val, W([v * case["uc"] for v in case["center"]]))
        out.append(canon(sp.xc() + 0.0))
        for i, kind in enumerate(case["kinds"]):
            if not any(vecs[i]):
                sp.set_xc(W([v * case["uc"] for v in case["center"]][::-1]))
                out.append(canon(sp.xc() + 0.0))
                continue
            g = W(vecs[i])
            beta = beta_of(i, kind)
            if kind == "bias":
                s = sp.update_bias_cut((g, beta))
            elif kind == "central":
                s = sp.update_central_cut((g, beta))
            else:
                s = sp.update_q((g, beta))
            out.append((canon(s), canon(sp.xc() + 0.0), canon(sp.tsq())))
    elif t == "ldlt":
        from ellalgo.oracles.ldlt_mgr import LDLTMgr

        mg = LDLTMgr(m)
        for flat in case["mats"]:
            A = W(sym(flat, m, um, case["more"] * um))
            ok = mg.factor_with_allow_semidefinite(lambda i, j: A[i, j]) if case["semi"] else mg.factorize(A)
            out.append((canon(ok), canon(mg.sqrt()) if ok else (canon(mg.witness()), canon(mg.pos), canon(mg.wit + 0.0), canon(mg.sym_quad(A)))))
    elif t in ("lmi", "lmi0", "old"):
        from ellalgo.oracles.lmi0_oracle import LMI0Oracle
        from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
        from ellalgo.oracles.lmi_oracle import LMIOracle

        F = [W(sym(f, m, um, case["more"] * um if t == "lmi0" else 0.0)) for f in case["mats"][:n]]
        B = W(sym(case["mats"][n], m, um, 4 * case["more"] * um))
        om = LMI0Oracle(F) if t == "lmi0" else LMIOracle(F, B) if t == "lmi" else LMIOldOracle(F, B)
        for x in vecs:
            out.append(canon(om.assess_feas(W(x))))
    elif t == "lowpass":
        from ellalgo.oracles.lowpass_oracle import LowpassOracle

        om = LowpassOracle(n, 0.21, 0.43, 0.3, 40.0, 5.0)
        for i, x in enumerate(vecs):
            if i % 2:  # a dominant first coefficient: positive response
                x = [abs(x[0]) + 2 * u * n] + [v * 0.0 if abs(v) > 2 * u else v for v in x[1:]]
            if irr:  # no ties here either
                x = [x[0] + 0.01234567 * u] + x[1:]
            x = W(x)
            out.append(canon(om.assess_feas(x)) if case["pair"][i] == "no" else canon(om.assess_optim(x, 1.0 + 10.0 * i)))
    elif t.startswith("profit"):
        from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle

        ela = W([abs(v) * um + um for v in vecs[0]])
        price = W([v for v in case["diag"]])
        pr = (20.0, 40.0, 30.5)
        om = (ProfitOracle(pr, ela, price) if t == "profit" else ProfitQOracle(pr, ela, price) if t == "profitq" else
              ProfitRbOracle(pr, ela, price, (0.003, 0.007, 1.0, 2.0, 0.5)))
        for i, x in enumerate(vecs):
            y = W([v * 0.25 if case["unit"] < 1 else float(v // 4) for v in x])
            gam = float(abs(case["offs"][i][0]))
            if t == "profitq":
                out.append(canon(om.assess_optim_q(y, gam, False)))
            else:
                out.append(canon(om.assess_optim(y, gam)))
    elif t == "cg":
        from ellalgo.conjugate_gradient import conjugate_gradient

        S_ = sym(case["mats"][0], min(m, 4), um)
        A = W(S_ @ S_ + np.eye(len(S_)))
        b = W(([v * case["uc"] for v in case["center"]] + [1.0] * 4)[: len(S_)])
        for i in range(2):
            x0 = None if i == 0 else W([float(v) for v in range(len(S_))])
            try:
                out.append(canon(conjugate_gradient(A, b, x0, 1e-6)))
            except ValueError:
                out.append("refused")
    else:
        from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

        for x in vecs:
            if t == "inverse":
                out.append(canon(inverse_spectral_fact(W(x)) * 1.0))
            else:
                r = np.convolve(x, x[::-1])[n - 1:]
                r[0] += 1.0
                out.append(canon(spectral_fact(W(r))))
    return out


def close(a, b, top=1.0):
    """equal up to rounding; vectors are compared relative to their largest entry"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), top)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("array",) and b[:1] == ("array",) and a[1] == b[1]:
            x, y = np.array(a[2]), np.array(b[2])
            return bool(np.all(np.abs(x - y) <= 1e-9 * max([1.0] + [abs(v) for v in a[2]])) or np.array_equal(x, y))
        return len(a) == len(b) and all(close(u, v, top) for u, v in zip(a, b))
    return a == b


def run(case, cov):
    W0, W1 = Maker(case, True), Maker(case, False)
    plain = play(case, W0)
    odd = play(case, W1)
    W0.check()
    W1.check()
    for i, (p, o) in enumerate(zip(plain, odd)):
        require(close(p, o), "%s, call %d: %r with contiguous double arrays, %r with the same values stored as %s", case["t"], i + 1, p, o,
                case["lay"])
    for v in case["lay"]:
        cov.tag("%s: %s" % (case["t"], v))
    if W1.odd >= 2 and len(plain) >= 2:
        cov.nontrivial()


SUBS = [Sub("storages", case_, run, quick=3000, shards=8)]
