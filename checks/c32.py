"""C32: objects are independent of each other and runs are repeatable."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vp import gen, mats, sched
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is two to four actors (search spaces, update calculators, factorization managers, matrix-inequality, filter "
    "and profit oracles, a binary-search adaptor, whole driver runs with default or given options), each with a list of "
    "operations, drawn from small shared pools of data so that dimensions and arrays coincide, and a schedule. Each actor "
    "is first run alone on its own copies of the data; then all are created and run interleaved by the schedule, sharing "
    "the caller's arrays (some are deep copies of one object); then alone once more. All answers must be the same, the shared arrays and the options unchanged. threads: the actors run in "
    "threads of their own, and control passes from one to the next in the middle of the library's code after drawn numbers of "
    "executed lines (deterministic, so failures replay); non-trivial with three or more such switches. "
    "Non-trivial: two actors of the same kind, or at least two actors with at least two operations, interleaved."
)

KINDS = ["ell", "stable", "calc", "ldlt", "lmi", "lmi0", "old", "lowpass", "profit", "profitrb", "profitq", "adaptor",
         "run_feas", "run_optim", "run_q", "run_bs", "cg", "spectral"]


@st.composite
def case_(draw):
    n = draw(st.integers(2, 4))
    first = draw(st.sampled_from(KINDS))
    kinds = [first]
    for _ in range(draw(st.integers(1, 3))):
        kinds.append(draw(st.one_of(st.just(first), st.sampled_from(KINDS))))
    actors = []
    for k in kinds:
        ops = [dict(i=draw(st.integers(0, 2)), sel=draw(st.integers(0, 11)), x=gen.reals(draw, n, 2.0),
                    cut=draw(S.cut_case(n)) if k in ("ell", "stable", "calc") else None)
               for _ in range(draw(st.integers(1, 4)))]
        act = dict(k=k, a=draw(st.integers(0, 1)), b=draw(st.integers(0, 1)), ops=ops, copy=draw(st.booleans()))
        if actors and k == first and draw(st.booleans()):  # the same again, most often as a second deep copy
            act.update(a=actors[0]["a"], b=actors[0]["b"], copy=actors[0]["copy"])
        actors.append(act)
    order = draw(st.permutations([i for i, a in enumerate(actors) for _ in a["ops"]]))
    return dict(
        n=n, actors=actors, order=list(order),
        centers=[gen.reals(draw, n, 1.5) for _ in range(2)],
        diags=[[1.0 + abs(r) for r in gen.reals(draw, n, 3.0)] for _ in range(2)],
        mats=[mats.sym_case(draw, 3) for _ in range(n + 1)],
        ela=[[0.05 + 0.4 * gen.unit(draw), 0.05 + 0.4 * gen.unit(draw)] for _ in range(2)],
        band=[sorted([draw(st.integers(0, 15 * n - 3)), draw(st.integers(0, 15 * n - 2))]) for _ in range(2)],
        h=[gen.reals(draw, n, 1.0) for _ in range(2)],
        rows=[gen.vec(draw, n, ("dense", "int")) for _ in range(4)],
        lim=draw(st.sampled_from([None, 7, 25])), tol=draw(st.sampled_from([1e-20, 1e-6])),
    )


class Data:
    """the caller's arrays; built once per run (alone) or shared (interleaved)"""

    def __init__(self, case):
        self.n = case["n"]
        self.centers = [np.array(c) for c in case["centers"]]
        self.diags = [np.array(d) for d in case["diags"]]
        self.mats = [mats.build(d, 3) for d in case["mats"]]
        self.ela = [np.array(e) for e in case["ela"]]
        self.price = [np.array([10.0, 35.0]), np.array([3.0, 4.0])]
        self.h = [np.array(h) for h in case["h"]]
        self.rows = [np.array(r) for r in case["rows"]]
        from ellalgo.ell_config import Options

        self.opt = Options()
        if case["lim"] is not None:
            self.opt.max_iters = case["lim"]
        self.opt.tolerance = case["tol"]
        self.case = case
        self.models = {}

    def made(self, spec, obj):
        """the object itself, or a deep copy of one that several actors copy"""
        if not spec["copy"]:
            return obj
        return copy.deepcopy(self.models.setdefault((spec["k"], spec["a"], spec["b"]), obj))

    def arrays(self):
        out = self.centers + self.diags + self.mats + self.ela + self.price + self.h + self.rows
        return [a.copy() for a in out]


def canon(r):
    """an answer as nested tuples; numbers become floats"""
    if r is None or isinstance(r, (bool, str)):
        return r
    if isinstance(r, (int, float, np.integer, np.floating)):
        return float(r)
    if isinstance(r, np.bool_):
        return bool(r)
    if isinstance(r, np.ndarray):
        return ("array", r.shape, tuple(float(v) for v in r.ravel()))
    if isinstance(r, (tuple, list)):
        return ("seq",) + tuple(canon(v) for v in r)
    if hasattr(r, "name"):
        return r.name
    return repr(type(r))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("array",) and b[:1] == ("array",) and a[1] == b[1]:
            x, y = np.array(a[2]), np.array(b[2])
            if np.array_equal(x, y, equal_nan=True):
                return True
            d = np.max(np.abs(x - y))
            return bool(d <= 1e-9 * max(np.max(np.abs(x)), np.max(np.abs(y))))
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    return a == b


class HalfSpaces:
    """feasibility, optimality and parametric oracle over fixed rows; the rows themselves are handed out"""

    def __init__(self, rows, b=0.3):
        self.rows, self.b = rows, b
        self.k = 0

    def update(self, gamma):
        self.b = gamma

    def assess_feas(self, x):
        for _ in self.rows:
            self.k = (self.k + 1) % len(self.rows)
            v = float(self.rows[self.k] @ x) - self.b
            if v > 0:
                return self.rows[self.k], v
        return None

    def assess_optim(self, x, gamma):
        v = [float(r @ x) for r in self.rows]
        i = int(np.argmax(v))
        if v[i] < gamma:
            return (self.rows[i], 0.0), v[i]
        return (self.rows[i], v[i] - gamma), None


def actor(spec, d):
    """returns a function op -> answer; state lives in the closure"""
    import ellalgo.cutting_plane as cp
    from ellalgo.conjugate_gradient import conjugate_gradient
    from ellalgo.ell_calc import EllCalc
    from ellalgo.oracles.ldlt_mgr import LDLTMgr
    from ellalgo.oracles.lmi0_oracle import LMI0Oracle
    from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
    from ellalgo.oracles.lmi_oracle import LMIOracle
    from ellalgo.oracles.lowpass_oracle import LowpassOracle
    from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
    from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

    k, a, b, n = spec["k"], spec["a"], spec["b"], d.n
    cl = S.classes()

    def space():
        return cl["ell" if b else "stable"](d.diags[a] if b else 2.0 + a, d.centers[a])

    if k in ("ell", "stable"):
        sp = d.made(spec, cl[k](d.diags[a] if b else 2.0 + a, d.centers[a]))

        def f(op):
            if op["sel"] == 11:
                sp.no_defer_trick = not sp.no_defer_trick
                return "switched"
            if op["sel"] == 10:
                sp.helper.use_parallel_cut = not sp.helper.use_parallel_cut
                return "switched"
            if op["sel"] == 9:
                sp.set_xc(d.centers[op["i"] % 2])
                return sp.xc()
            g = S.grad_of(op["cut"])
            if not S.in_domain(op["cut"]):
                return None
            t = S.tsq_along(sp, g.astype(float))
            if not t > 1e-12 * float(np.dot(g.astype(float), g.astype(float))):
                return None
            s = S.apply_cut(sp, op["cut"], g, S.beta_of(op["cut"], t ** 0.5))
            return s, sp.xc(), sp.tsq()
    elif k == "calc":
        ec = d.made(spec, EllCalc(n))

        def f(op):
            if not S.in_domain(op["cut"]):
                return None
            t = 0.5 + op["i"]
            beta = S.beta_of(op["cut"], t ** 0.5)
            kind = op["cut"]["kind"]
            if kind == "central":
                return ec.calc_single_or_parallel_central_cut(beta, t)
            if kind == "bias":
                return ec.calc_single_or_parallel(beta, t)
            return ec.calc_single_or_parallel_q(beta, t)
    elif k == "ldlt":
        mg = d.made(spec, LDLTMgr(3))

        def f(op):
            m = d.mats[(op["i"] + a) % len(d.mats)]
            if op["sel"] % 3 == 0:
                ok = mg.factor(lambda i, j: m[i, j])
            elif op["sel"] % 3 == 1:
                ok = mg.factor_with_allow_semidefinite(lambda i, j: m[i, j])
            else:
                ok = mg.factorize(m)
            if ok:
                return ok, (mg.sqrt() if mg.is_spd() else None)
            ep = mg.witness()
            return ok, ep, mg.pos, mg.sym_quad(d.mats[0])
    elif k in ("lmi", "lmi0", "old"):
        F = [m for m in d.mats[:n]]
        if k == "lmi":
            om = LMIOracle(F, d.mats[n])
        elif k == "lmi0":
            om = LMI0Oracle(F)
        else:
            om = LMIOldOracle(F, d.mats[n])
        om = d.made(spec, om)

        def f(op):
            return om.assess_feas(np.array(op["x"]))
    elif k == "lowpass":
        p, s = d.case["band"][a]
        m = 15 * n - 1
        om = LowpassOracle(n, (p + 0.4) / m, (s + 1.4) / m if s + 1.4 < m else 1.0 - 0.3 / m, 0.2, 1.5, 0.6)
        om = d.made(spec, om)

        def f(op):
            r = inverse_spectral_fact(d.h[op["i"] % 2]) if op["sel"] % 2 else np.array(op["x"])
            if op["sel"] % 3:
                return om.assess_optim(r, 0.1 + 0.3 * op["i"])
            return om.assess_feas(r)
    elif k in ("profit", "profitrb", "profitq"):
        pr = (20.0 + a, 40.0, 30.5)
        if k == "profit":
            om = ProfitOracle(pr, d.ela[a], d.price[b])
        elif k == "profitrb":
            om = ProfitRbOracle(pr, d.ela[a], d.price[b], (0.003, 0.007, 1.0, 1.0, 1.0))
        else:
            om = ProfitQOracle(pr, d.ela[a], d.price[b])
        om = d.made(spec, om)

        def f(op):
            x = np.array(op["x"][:2]) * 2
            if k == "profitq":
                om.assess_optim_q(x, 10.0 * op["i"], False)
                return om.assess_optim_q(x, 0.0, False)
            return om.assess_optim(x, 10.0 * op["i"])
    elif k == "adaptor":
        ad = d.made(spec, cp.BSearchAdaptor(HalfSpaces(d.rows), space(), d.opt))

        def f(op):
            r = ad.assess_bs((0.2, -0.5, 1.5)[op["i"]])
            return r, ad.x_best
    elif k.startswith("run_"):
        def f(op):
            args = () if op["sel"] % 2 else (d.opt,)
            if k == "run_feas":
                return cp.cutting_plane_feas(HalfSpaces(d.rows, -0.3 + 0.2 * op["i"]), space(), *args)
            if k == "run_optim":
                if op["i"] == 0:
                    om = ProfitOracle((20.0, 40.0, 30.5), d.ela[a], d.price[b])
                    return cp.cutting_plane_optim(om, cl["ell"](50.0, np.zeros(2)), 0.0, *args)
                return cp.cutting_plane_optim(HalfSpaces(d.rows), space(), 5.0, d.opt)
            if k == "run_q":
                om = ProfitQOracle((20.0, 40.0, 30.5), d.ela[a], d.price[b])
                return cp.cutting_plane_optim_q(om, cl["ell"](50.0, np.array([2.0, 2.0])), 0.0, d.opt)
            ad = cp.BSearchAdaptor(HalfSpaces(d.rows), space(), d.opt)
            o = copy.copy(d.opt)
            o.tolerance = 1e-3
            return cp.bsearch(ad, (-1.0, 4.0), o), ad.x_best
    elif k == "cg":
        def f(op):
            m = d.mats[0]
            A = m @ m.T + np.eye(3) * (1.0 + float(np.max(np.abs(m))) ** 2)
            rhs = d.mats[n][op["i"]]
            return conjugate_gradient(A, rhs, None if op["sel"] % 2 else d.mats[1][0])
    else:
        def f(op):
            h = d.h[op["i"] % 2]
            r = inverse_spectral_fact(h)
            r[0] += 0.5
            return r, spectral_fact(r)
    return f


def answer(f, op):
    try:
        return canon(f(op))
    except (ValueError, AssertionError, ZeroDivisionError, OverflowError, ArithmeticError, RuntimeError) as e:
        return "raised " + type(e).__name__


def alone(case, i):
    d = Data(case)
    f = actor(case["actors"][i], d)
    return [answer(f, op) for op in case["actors"][i]["ops"]]


def run(case, cov):
    from ellalgo.ell_config import Options

    def opts(o):
        return o.max_iters, o.tolerance, o.verbose

    acts = case["actors"]
    default = opts(Options())
    first = [alone(case, i) for i in range(len(acts))]
    d = Data(case)
    snap, osnap = d.arrays(), opts(d.opt)
    fs = [actor(a, d) for a in acts]
    done = [0] * len(acts)
    for i in case["order"]:
        got = answer(fs[i], acts[i]["ops"][done[i]])
        want = first[i][done[i]]
        done[i] += 1
        require(same(got, want), "%s, operation %d: answer %r when interleaved with %s, %r alone", acts[i]["k"], done[i], got,
                [a["k"] for j, a in enumerate(acts) if j != i], want)
    for x, y in zip(snap, d.arrays()):
        require(np.array_equal(x, y, equal_nan=True), "an array of the caller changed from %s to %s", x.tolist(), y.tolist())
    require(opts(d.opt) == osnap, "the options changed from %r to %r", osnap, opts(d.opt))
    require(opts(Options()) == default, "the default options changed from %r to %r", default, opts(Options()))
    for i in range(len(acts)):
        again = alone(case, i)
        require(same(tuple(again), tuple(first[i])), "%s: repeated run gave %r instead of %r", acts[i]["k"], again, first[i])
    kinds = [a["k"] for a in acts]
    for k in set(kinds):
        cov.tag(k)
        if kinds.count(k) > 1:
            cov.tag("twice " + k)
    keys = [(a["k"], a["a"], a["b"]) for a in acts if a["copy"]]
    for k in set(keys):
        if keys.count(k) > 1:
            cov.tag("deep copies of one " + k[0])
    runs = sum(1 for x, y in zip(case["order"], case["order"][1:]) if x != y)
    if runs >= len(acts) and (len(set(kinds)) < len(kinds) or sum(len(a["ops"]) > 1 for a in acts) > 1):
        cov.nontrivial()
    for ans in first:
        for r in ans:
            if isinstance(r, str) and r.startswith("raised"):
                cov.count(r)


@st.composite
def thread_case(draw):
    c = draw(case_())
    c["slices"] = draw(st.lists(st.integers(1, 25), min_size=1, max_size=12))
    return c


def run_threads(case, cov):
    import ellalgo

    acts = case["actors"]
    first = [alone(case, i) for i in range(len(acts))]
    d = Data(case)
    snap = d.arrays()
    fs = [actor(a, d) for a in acts]
    got, switches = sched.run([lambda i=i: [answer(fs[i], op) for op in acts[i]["ops"]] for i in range(len(acts))], case["slices"],
                              os.path.dirname(ellalgo.__file__))
    for i, (what, r) in enumerate(got):
        if what == "error":
            raise r
        for k, (u, v) in enumerate(zip(r, first[i])):
            require(same(u, v), "%s, operation %d: answer %r while %s work in other threads, %r alone", acts[i]["k"], k + 1, u,
                    [a["k"] for j, a in enumerate(acts) if j != i], v)
    for x, y in zip(snap, d.arrays()):
        require(np.array_equal(x, y, equal_nan=True), "an array of the caller changed from %s to %s", x.tolist(), y.tolist())
    kinds = [a["k"] for a in acts]
    for k in set(kinds):
        if kinds.count(k) > 1:
            cov.tag("twice " + k)
    cov.count("switches inside the code", switches)
    if switches >= 3:
        cov.nontrivial()


SUBS = [
    Sub("interleaved", case_, run, quick=2500, shards=8),
    Sub("threads", thread_case, run_threads, quick=800, shards=8),
]
