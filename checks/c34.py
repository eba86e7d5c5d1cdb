"""C34: failures are passed on and leave every object usable."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gen, mats
from vp import space as S
from vp.core import Sub, Violation, require

RULE = (
    "Faults are injected at drawn points: an exception of a drawn type (ordinary ones, arithmetic, lookup errors, "
    "an interruption from the keyboard) raised by the caller's oracle at a drawn call, by the search space at a drawn update, by "
    "the element function of a factorization at a drawn access, or a call that is refused (zero or too short gradient, negative "
    "offset, missing offsets, a point of the wrong length). drivers, adaptor: the same exception object must come out; the "
    "space must be, bit for bit, the one left by the cuts completed before; the run resumed on it must go through the same "
    "centers to the same result as an uninterrupted one. refused: two copies of a space go through the same cuts, one of them "
    "also through refused calls; center and shape must stay equal, and zero gradients and negative offsets of bias cuts must never be applied. ldlt, oracles: later answers must be those of a fresh object. "
    "Non-trivial: the fault occurred, and work was done before and after it."
)


class Custom(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


FAULTS = dict(
    custom=Custom, keyboard=Stop, value=ValueError, zerodiv=ZeroDivisionError, overflow=OverflowError, index=IndexError,
    key=KeyError, type=TypeError, assertion=AssertionError, runtime=RuntimeError, linalg=np.linalg.LinAlgError,
    notimpl=NotImplementedError, attribute=AttributeError, memory=MemoryError, os=OSError)


def fault(draw):
    return draw(st.sampled_from(sorted(FAULTS)))


class Fuse:
    """raises one exception object at the k-th use"""

    def __init__(self, name, at):
        self.exc = FAULTS[name]("injected")
        self.at, self.n, self.blown = at, 0, False

    def tick(self):
        self.n += 1
        if self.n == self.at:
            self.blown = True
            raise self.exc


def guarded(fuse, call, what):
    """(completed, result); the injected exception must come out unchanged"""
    try:
        r = call()
    except BaseException as e:  # noqa: B036 - whatever comes out is judged
        if e is fuse.exc:
            return False, None
        if fuse.blown:
            require(type(e).__name__ == "Hang" or isinstance(e, Violation), "%s: %r was raised, the caller received %r", what, fuse.exc, e)
        raise
    require(not fuse.blown, "%s: the exception %r was swallowed, the call returned %r", what, fuse.exc, r)
    return True, r


# ------------------------------------------------------------------ drivers


@st.composite
def driver_case(draw):
    n = draw(st.integers(2, 5))
    return dict(
        n=n, driver=draw(st.sampled_from(["feas", "feas", "optim", "optim", "q"])), space=draw(st.sampled_from(["ell", "stable"])),
        rows=[gen.vec(draw, n, ("dense", "int")) for _ in range(draw(st.integers(2, 6)))],
        b=[-0.4 + 0.6 * gen.unit(draw) for _ in range(6)], diag=[1.0 + 3 * abs(r) for r in gen.reals(draw, n)],
        xc=gen.reals(draw, n, 1.5), defer=draw(st.booleans()), par=draw(st.booleans()),
        fault=fault(draw), at=draw(st.one_of(st.integers(1, 4), st.integers(1, 25))), where=draw(st.sampled_from(["oracle", "oracle", "space"])),
        lim=draw(st.sampled_from([8, 30, 60])), again=draw(st.integers(0, 2)),
    )


class Poly:
    """oracle over rows; deterministic in its arguments (no memory), counts and records its calls"""

    def __init__(self, case, fuse=None):
        self.A = np.array(case["rows"], dtype=float)
        self.A /= np.linalg.norm(self.A, axis=1)[:, None]
        self.b = np.array(case["b"][: len(self.A)])
        self.fuse, self.seen, self.levels = fuse, [], []

    def tick(self, x):
        if self.fuse:
            self.fuse.tick()
        self.seen.append(tuple(float(v) for v in x))

    def assess_feas(self, x):
        self.tick(x)
        v = self.A @ x - self.b
        k = int(np.argmax(v))
        if v[k] > 0:
            return self.A[k].copy(), (float(v[k]) if k % 2 else (float(v[k]), float(v[k]) + 5.0))
        return None

    def f(self, x):
        v = self.A @ x
        return float(np.max(v)) + 0.05 * float(x @ x), self.A[int(np.argmax(v))] + 0.1 * x

    def assess_optim(self, x, gamma):
        self.tick(x)
        v, g = self.f(x)
        if not np.any(g):
            g = np.ones(len(x))
        if v < gamma:
            self.levels.append(v)
            return (g, 0.0), v
        return (g, v - gamma), None

    def assess_optim_q(self, x, gamma, retry):
        self.tick(x)
        xq = np.round(x * 4) / 4
        if retry:
            v, g = self.f(x)
            if not np.any(g):
                g = np.ones(len(x))
            return (g, max(v - gamma, 0.0)), xq, None, False
        v, g = self.f(xq)
        if not np.any(g):
            g = np.ones(len(x))
        d = float(g @ (x - xq))
        if v < gamma:
            self.levels.append(v)
            return (g, d), xq, v, True
        return (g, v - gamma + d), xq, None, True


class Tripping:
    """a search space that may fail in an update, before it does anything"""

    def __init__(self, space, fuse):
        self._s, self.fuse = space, fuse

    def __getattr__(self, name):
        f = getattr(self.__dict__["_s"], name)
        if not name.startswith("update"):
            return f

        def g(cut):
            self.__dict__["fuse"].tick()
            return f(cut)

        return g


def build(case):
    cls = S.classes()[case["space"]]
    sp = cls(np.array(case["diag"]), np.array(case["xc"]))
    sp.no_defer_trick = case["defer"]
    sp.helper.use_parallel_cut = case["par"]
    return sp


def drive(case, om, sp, gamma, lim):
    import ellalgo.cutting_plane as cp
    from ellalgo.ell_config import Options

    o = Options()
    o.max_iters, o.tolerance = lim, 1e-12
    if case["driver"] == "feas":
        return cp.cutting_plane_feas(om, sp, o)
    if case["driver"] == "optim":
        return cp.cutting_plane_optim(om, sp, gamma, o)
    return cp.cutting_plane_optim_q(om, sp, gamma, o)


def state(sp, n):
    x, P = S.probe(sp, n)
    return x.tobytes(), P.tobytes()


def run_driver(case, cov):
    n = case["n"]
    gamma0 = 3.0
    ref_om, ref_sp = Poly(case), build(case)
    ref = drive(case, ref_om, ref_sp, gamma0, case["lim"])
    fuse = Fuse(case["fault"], case["at"])
    om, sp = Poly(case, fuse if case["where"] == "oracle" else None), build(case)
    done, r = guarded(fuse, lambda: drive(case, om, sp if case["where"] == "oracle" else Tripping(sp, fuse), gamma0, case["lim"]),
                      case["driver"])
    if done:
        require(om.seen == ref_om.seen, "a run without a fault differs from the same run")
        cov.tag("fault not reached")
        return
    cov.tag("%s %s" % (case["driver"], case["where"]))
    cov.tag(case["fault"])
    k = case["at"] - 1  # completed iterations
    # the space after k completed cuts
    part_om, part = Poly(case), build(case)
    drive(case, part_om, part, gamma0, k)
    x, P = S.probe(sp, n)
    x2, P2 = S.probe(part, n)
    require(np.array_equal(x, x2), "center after a failure in iteration %d is %s, after %d completed cuts it is %s", k + 1, x, k, x2)
    require(np.array_equal(P, P2), "shape after a failure in iteration %d differs from the one after %d completed cuts", k + 1, k)
    require(om.seen[:k] == ref_om.seen[:k], "points before the failure differ from those of an undisturbed run")
    if case["driver"] == "q":
        if k >= 1:
            cov.nontrivial()
        return
    # resume with what the caller knows
    om.fuse = None
    keep = om.seen[:k]
    om.seen = []
    gamma = om.levels[-1] if om.levels else gamma0
    if case["driver"] == "optim" and case["where"] == "space" and om.levels:
        # the level of the interrupted iteration may already be recorded; its cut was not applied
        om.levels, levels = [], om.levels
        gamma = part_om.levels[-1] if part_om.levels else gamma0
    left = case["lim"] - k
    res = drive(case, om, sp, gamma, left)
    require(keep + om.seen == ref_om.seen, "resumed run visits %s, the undisturbed one %s", om.seen[:3], ref_om.seen[k:k + 3])
    if case["driver"] == "feas":
        require((res[0] is None) == (ref[0] is None), "resumed run returned %s, the undisturbed one %s", res[0], ref[0])
        if res[0] is not None:
            require(np.array_equal(res[0], ref[0]), "resumed run returned %s, the undisturbed one %s", res[0], ref[0])
        require(res[1] + k == ref[1], "resumed run needed %d + %d iterations, the undisturbed one %d", k, res[1], ref[1])
    else:
        require(res[1] == ref[1], "resumed run reached %r, the undisturbed one %r", res[1], ref[1])
        require(res[2] + k == ref[2], "resumed run needed %d + %d iterations, the undisturbed one %d", k, res[2], ref[2])
    if k >= 1 and len(om.seen) >= 1:
        cov.nontrivial()


# ------------------------------------------------------------------ adaptor and binary search


@st.composite
def adaptor_case(draw):
    c = draw(driver_case())
    c["probes"] = [dict(g=-1.0 + 3 * gen.unit(draw), at=draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 9])),
                        up=draw(st.integers(0, 5)) == 0, fault=fault(draw)) for _ in range(draw(st.integers(2, 7)))]
    c["bs_at"] = draw(st.integers(0, 9))
    return c


class Param(Poly):
    def __init__(self, case):
        super().__init__(case)
        self.base = self.b.copy()
        self.up = None

    def update(self, gamma):
        if self.up:
            self.up.tick()
        self.b = self.base + gamma


def run_adaptor(case, cov):
    import ellalgo.cutting_plane as cp
    from ellalgo.ell_config import Options

    n = case["n"]
    o = Options()
    o.max_iters, o.tolerance = 60, 1e-6
    om, clean = Param(case), Param(case)
    ad, twin = cp.BSearchAdaptor(om, build(case), o), cp.BSearchAdaptor(clean, build(case), o)
    faults = answers = 0
    for p in case["probes"]:
        if p["at"]:
            fuse = Fuse(p["fault"], 1 if p["up"] else p["at"])
            if p["up"]:
                om.up = fuse
            else:
                om.fuse = fuse
            before = state(ad.space, n)
            xb = np.array(ad.x_best, dtype=float)
            done, r = guarded(fuse, lambda: ad.assess_bs(p["g"]), "probe of %g" % p["g"])
            om.up = om.fuse = None
            if not done:
                faults += 1
                require(state(ad.space, n) == before, "a probe that failed changed the stored space")
                require(np.array_equal(ad.x_best, xb), "a probe that failed changed the stored point")
                continue
        else:
            r = ad.assess_bs(p["g"])
        w = twin.assess_bs(p["g"])
        require(bool(r) == bool(w), "after %d failed probes %g is answered %s, without them %s", faults, p["g"], r, w)
        require(np.array_equal(ad.x_best, twin.x_best), "after %d failed probes the stored point is %s, without them %s", faults,
                ad.x_best, twin.x_best)
        require(state(ad.space, n) == state(twin.space, n), "after %d failed probes the stored space differs", faults)
        answers += 1
    # a binary search over the adaptor, interrupted and repeated
    if case["bs_at"]:
        fuse = Fuse(case["fault"], case["bs_at"])
        om.fuse = fuse
        bo = Options()
        bo.max_iters, bo.tolerance = 12, 1e-3

        def search(a):
            return cp.bsearch(a, (-1.5, 3.0), bo)

        done, r = guarded(fuse, lambda: search(ad), "binary search")
        om.fuse = None
        cov.tag("search " + ("completed" if done else "interrupted"))
    if faults and answers:
        cov.tag("faults and answers")
        cov.nontrivial()


# ------------------------------------------------------------------ refused cuts

REFUSALS = ("zero", "negative", "negative1", "short", "none", "text", "missing", "empty", "nocut")


@st.composite
def refused_case(draw):
    c = draw(S.history_case(hi=6, maxlen=8, minlen=2, wide=False))
    c["refuse"] = [draw(st.lists(st.sampled_from(REFUSALS), max_size=2)) for _ in c["cuts"]]
    return c


def refuse(sp, what, kind, n, k):
    """one call that cannot be carried out"""
    g = np.ones(n)
    g[k % n] = -2.0
    call = {"bias": sp.update_bias_cut, "central": sp.update_central_cut, "q": sp.update_q}[kind]
    if what == "zero":
        return call((np.zeros(n), 0.1))
    if what == "negative":
        return sp.update_bias_cut((g, -0.25))
    if what == "negative1":
        return sp.update_bias_cut((g, [-0.25]))
    if what == "short":
        return call((g[: n - 1].copy(), 0.1))
    if what == "none":
        return call((g, None))
    if what == "text":
        return call((g, "0.1"))
    if what == "missing":
        return call((g, (0.1, None)))
    if what == "empty":
        return call((g, []))
    return call((g,))


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False


def run_refused(case, cov):
    n = case["n"]
    cls = S.classes()[case["space"]]
    a, _, _ = S.make_space(cls, case["init"], n)
    b, _, _ = S.make_space(cls, case["init"], n)
    a.no_defer_trick = b.no_defer_trick = bool(case["defer"])
    count = applied = 0
    for k, (cut, rs) in enumerate(zip(case["cuts"], case["refuse"])):
        for what in rs:
            if not raises(lambda: refuse(copy.deepcopy(a), what, cut["kind"], n, k)):
                cov.count("not refused: " + what)
                if what in ("zero", "negative", "negative1"):
                    x0, P0 = S.probe(b, n)
                    s0 = S.Shape(x0, P0)
                    if what == "zero" and case["space"] == "stable":  # answered, not raised: as long as nothing is applied
                        c = copy.deepcopy(a)
                        r = S.as_status(refuse(c, what, cut["kind"], n, k))
                        require(r != "Success" and state(c, n) == state(a, n), "a zero gradient was applied")
                        continue
                    require(not s0.ok or s0.tol > 1e-4, "a %s was accepted", "zero gradient" if what == "zero" else "negative offset of a bias cut")
                continue
            require(raises(lambda: refuse(a, what, cut["kind"], n, k)), "a call (%s) was refused on a copy but not on the space", what)
            count += 1
            cov.count("refused: " + what)
            require(state(a, n) == state(b, n), "a refused %s cut (%s) changed the space", cut["kind"], what)
        xc, P = S.probe(b, n)
        sh = S.Shape(xc, P)
        if not sh.ok or sh.tol > 1e-4:
            break
        if not S.in_domain(cut):
            continue
        g = S.grad_of(cut)
        tau = float(np.linalg.norm(sh.S.T @ g.astype(float)))
        if not tau > 0 or not np.isfinite(tau):
            continue
        beta = S.beta_of(cut, tau)
        sa, sb = S.apply_cut(a, cut, g, beta), S.apply_cut(b, cut, g, beta)
        require(sa == sb, "after %d refused calls the cut is answered %s, without them %s", count, sa, sb)
        require(float(a.tsq()) == float(b.tsq()), "after %d refused calls the width is %r, without them %r", count, a.tsq(), b.tsq())
        require(state(a, n) == state(b, n), "after %d refused calls a cut leads to a different space", count)
        applied += 1
    if count and applied:
        cov.nontrivial()


# ------------------------------------------------------------------ factorization


@st.composite
def ldlt_case(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, mats=[mats.sym_case(draw, n) for _ in range(draw(st.integers(2, 4)))],
                ops=[dict(i=draw(st.integers(0, 3)), semi=draw(st.booleans()), at=draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13])),
                          fault=fault(draw), peek=draw(st.booleans())) for _ in range(draw(st.integers(2, 8)))])


def look(mg, A, semi):
    """everything the manager reports on A"""
    ok = (mg.factor_with_allow_semidefinite if semi else mg.factor)(lambda i, j: A[i, j])
    out = [bool(ok), bool(mg.is_spd()), tuple(mg.pos) if not ok else None]
    if not ok:
        ep = mg.witness()
        out += [float(ep), np.array(mg.wit, dtype=float).tobytes(), float(mg.sym_quad(np.eye(len(A))))]
    elif not semi:
        out += [np.array(mg.sqrt(), dtype=float).tobytes()]
    return out


def run_ldlt(case, cov):
    from ellalgo.oracles.ldlt_mgr import LDLTMgr

    n = case["n"]
    M = [mats.build(d, n) for d in case["mats"]]
    mg = LDLTMgr(n)
    faults = after = 0
    for op in case["ops"]:
        A = M[op["i"] % len(M)]
        if op["at"]:
            fuse = Fuse(op["fault"], op["at"])

            def elem(i, j):
                fuse.tick()
                return A[i, j]

            done, r = guarded(fuse, lambda: (mg.factor_with_allow_semidefinite if op["semi"] else mg.factor)(elem), "factorization")
            if not done:
                faults += 1
                cov.tag(op["fault"])
                if op["peek"]:
                    raises(mg.witness)
                    raises(mg.sqrt)
            continue
        got, want = look(mg, A, op["semi"]), look(LDLTMgr(n), A, op["semi"])
        require(got == want, "after %d interrupted factorizations: %r, a new manager: %r", faults, got[:4], want[:4])
        after += faults > 0
    if after:
        cov.nontrivial()


# ------------------------------------------------------------------ oracles of the library


@st.composite
def oracle_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, kind=draw(st.sampled_from(["lmi", "lmi0", "old", "lowpass", "profit", "profitrb", "profitq"])),
                mats=[mats.sym_case(draw, 3) for _ in range(n + 1)], ela=[0.05 + 0.4 * gen.unit(draw), 0.05 + 0.4 * gen.unit(draw)],
                ops=[dict(x=gen.reals(draw, n, 2.0), bad=draw(st.sampled_from([None, None, "short", "long", "text", "none", "empty"])),
                          lev=draw(st.integers(0, 3))) for _ in range(draw(st.integers(2, 8)))])


def run_oracle(case, cov):
    from ellalgo.oracles.lmi0_oracle import LMI0Oracle
    from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
    from ellalgo.oracles.lmi_oracle import LMIOracle
    from ellalgo.oracles.lowpass_oracle import LowpassOracle
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle

    n, k = case["n"], case["kind"]
    M = [mats.build(d, 3) for d in case["mats"]]

    def make():
        if k == "lmi":
            return LMIOracle(M[:n], M[n])
        if k == "lmi0":
            return LMI0Oracle(M[:n])
        if k == "old":
            return LMIOldOracle(M[:n], M[n])
        if k == "lowpass":
            return LowpassOracle(n, 0.31, 0.62, 0.2, 1.5, 0.6)
        p = ((20.0, 40.0, 30.5), np.array(case["ela"]), np.array([10.0, 35.0]))
        if k == "profit":
            return ProfitOracle(*p)
        if k == "profitrb":
            return ProfitRbOracle(*p, (0.003, 0.007, 1.0, 1.0, 1.0))
        return ProfitQOracle(*p)

    def ask(om, x, lev):
        """the part of an answer that does not depend on which of several violated requirements is reported"""
        if k in ("lmi", "lmi0", "old"):
            c = om.assess_feas(x)
            return None if c is None else (np.array(c[0]).tobytes(), float(c[1]))
        if k == "lowpass":
            c, v = om.assess_optim(x, 0.1 + 0.3 * lev)
            return None if v is None else float(v)
        if k == "profitq":
            c, xq, v, more = om.assess_optim_q(x, 10.0 * lev, False)
            return None if v is None else float(v)
        c, v = om.assess_optim(x, 10.0 * lev)
        return None if v is None else float(v)

    om = make()
    bad = after = 0
    for op in case["ops"]:
        x = np.array(op["x"] if k not in ("profit", "profitrb", "profitq") else op["x"][:2])
        if op["bad"]:
            y = {"short": x[:-1], "long": np.append(x, 0.5), "text": "x", "none": None, "empty": np.array([])}[op["bad"]]
            if not raises(lambda: ask(om, y, op["lev"])):
                cov.count("not refused: " + op["bad"])
                om = make()
                bad = 0
            else:
                bad += 1
                cov.count("refused: " + op["bad"])
            continue
        got, want = ask(om, x.copy(), op["lev"]), ask(make(), x.copy(), op["lev"])
        require(got == want, "%s at %s after %d refused calls: %r, a new oracle: %r", k, x, bad, got, want)
        after += bad > 0
    cov.tag(k)
    if after:
        cov.nontrivial()


SUBS = [
    Sub("drivers", driver_case, run_driver, quick=1200, shards=8),
    Sub("adaptor", adaptor_case, run_adaptor, quick=400, shards=8),
    Sub("refused", refused_case, run_refused, quick=400, shards=8),
    Sub("ldlt", ldlt_case, run_ldlt, quick=1200, shards=4),
    Sub("oracles", oracle_case, run_oracle, quick=800, shards=4),
]
