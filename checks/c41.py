"""C41: spaces and oracles derived from the interfaces need only the required methods."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp import space as S
from vp.core import Sub, require

RULE = (
    "scripted: a search space derived from the library's interface with the required methods only (scripted statuses, widths and "
    "centers) is driven by the discrete driver, and called directly, next to a twin that writes the optional methods out; calls, "
    "statuses and results must be the same, and assigning a center must do nothing. real: the twin pair wraps one of the library's spaces, used "
    "by all drivers on a drawn problem of linear inequalities, with an oracle derived from the interface that has no parameter, also "
    "through the binary-search adaptor. Non-trivial: at least two quantized updates, or a probe of the adaptor that found a point."
)


@st.composite
def scripted_case(draw):
    tol = draw(st.sampled_from([1e-20, 1e-3, 0.0]))
    steps = script.space_script(draw, draw(st.integers(1, 12)), tol, ["NoSoln", "NoEffect", "NoEffect", "Unknown"], p_stop=3)
    for s in steps:
        s["beta"] = draw(st.sampled_from([0.0, 0.5, 0, -0.25, -3, [0.25, 0.75], [-0.5, 0.75], [0.0, 1.0], [-0.5], [0.5]]))
        s["better"] = draw(st.sampled_from([None, None, 0.0, 1.0, -1.0]))
        s["alt"] = draw(st.integers(0, 4)) > 0
    return dict(n=draw(st.integers(1, 3)), tolerance=tol, max_iters=draw(st.integers(0, 15)), steps=steps,
                sets=draw(st.lists(st.integers(0, 12), max_size=3)), direct=draw(st.booleans()))


def derived(base, inner, full):
    """a space derived from the interface; only what it must implement, or everything"""

    class Minimal(base):
        def __init__(self, val=None, x_center=None):
            self.inner, self._xc, self._tsq = inner, np.array(inner.xc()), 0.0

        def _after(self, status):
            self._xc, self._tsq = np.array(self.inner.xc()), self.inner.tsq()
            return status

        def update_bias_cut(self, cut):
            return self._after(self.inner.update_bias_cut(cut))

        def update_central_cut(self, cut):
            return self._after(self.inner.update_central_cut(cut))

        def xc(self):
            return self._xc

        def tsq(self):
            return self._tsq

    class Full(Minimal):
        def update_q(self, cut):
            return self.update_bias_cut(cut)

        def set_xc(self, x_center):
            return None

    return (Full if full else Minimal)()


def run_scripted(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim_q
    from ellalgo.ell_typing import SearchSpace

    n, steps = case["n"], case["steps"]
    logs, outs = [], []
    for full in (True, False):
        ev = []
        sp = derived(SearchSpace, script.FakeSpace(n, steps, ev, fresh=True), full)

        class Oracle:
            i = 0

            def assess_optim_q(self, x, gamma, retry):
                i = self.i
                self.i += 1
                if i in case["sets"]:
                    r = sp.set_xc(np.full(n, 77.0))
                    require(r is None, "assigning a center returned %r", r)
                ev.append(("assess", np.array(x, dtype=float).tolist(), gamma, bool(retry)))
                s = steps[i] if i < len(steps) else dict(beta=0.0, better=None, alt=False)
                return script.cut_token(i, n, s["beta"]), np.full(n, -1.0 - i), s["better"], s["alt"]

        if case["direct"]:
            res = []
            for i, s in enumerate(steps):
                if i in case["sets"]:
                    sp.set_xc(np.full(n, 77.0))
                res.append((sp.update_q(script.cut_token(i, n, s["beta"])), np.array(sp.xc()).tolist(), sp.tsq()))
            outs.append(res)
        else:
            x, g, it = cutting_plane_optim_q(Oracle(), sp, 2.0, script.options(case))
            outs.append((None if x is None else np.array(x).tolist(), g, it))
        logs.append(ev)
    require(logs[0] == logs[1], "calls %s with the required methods only, %s with all written out", logs[1][-4:], logs[0][-4:])
    require(outs[0] == outs[1], "result %r with the required methods only, %r with all written out", outs[1], outs[0])
    require(not any(e[0] == "set_xc" for e in logs[1]), "a center was assigned")
    ups = sum(e[0] == "bias" for e in logs[1])
    cov.tag("direct" if case["direct"] else "driver")
    if ups >= 2:
        cov.nontrivial()


@st.composite
def real_case(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(n, 2 * n + 2))
    return dict(n=n, rows=[gen.vec(draw, n, ("dense", "int", "axis")) for _ in range(k)], off=gen.reals(draw, k, 1.0),
                space=draw(st.sampled_from(["ell", "stable"])), r=0.5 + 3.0 * gen.unit(draw), xc=gen.reals(draw, n, 1.0),
                lim=draw(st.sampled_from([5, 30, 300])), gammas=gen.reals(draw, 3, 2.0),
                drv=draw(st.sampled_from(["feas", "optim", "optim_q", "adaptor", "bsearch"])))


def run_real(case, cov):
    import ellalgo.cutting_plane as cp
    from ellalgo.ell_config import Options
    from ellalgo.ell_typing import OracleBS, OracleFeas, OracleOptim, OracleOptimQ, SearchSpace

    n = case["n"]
    A = np.array(case["rows"], dtype=float)
    A /= np.linalg.norm(A, axis=1)[:, None]
    b = np.array(case["off"])
    o = Options()
    o.max_iters = case["lim"]
    o.tolerance = 1e-12
    outs, logs = [], []
    for full in (True, False):
        log = []

        class Feas(OracleFeas):
            def __init__(self):
                self.k = 0

            def assess_feas(self, x):
                log.append(np.array(x).tolist())
                v = A @ x - b
                i = int(np.argmax(v))
                return None if v[i] <= 0 else (A[i], float(v[i]))

        class FeasFull(Feas):
            def update(self, gamma):
                return None

        class Optim(OracleOptim):
            def assess_optim(self, x, gamma):
                log.append((np.array(x).tolist(), gamma))
                v = A @ x - b
                i = int(np.argmax(v))
                if v[i] < gamma:
                    return (A[i], 0.0), float(v[i])
                return (A[i], float(v[i] - gamma)), None

        class OptimQ(OracleOptimQ):
            def assess_optim_q(self, x, gamma, retry):
                log.append((np.array(x).tolist(), gamma, retry))
                v = A @ x - b
                i = int(np.argmax(v))
                if v[i] < gamma:
                    return (A[i], 0.0), x, float(v[i]), not retry
                return (A[i], float(v[i] - gamma)), x, None, not retry

        inner = S.classes()[case["space"]](case["r"] ** 2, np.array(case["xc"]))
        sp = derived(SearchSpace, inner, full)
        om = (FeasFull if full else Feas)()
        if case["drv"] == "feas":
            out = cp.cutting_plane_feas(om, sp, o)
        elif case["drv"] == "optim":
            out = cp.cutting_plane_optim(Optim(), sp, 4.0, o)
        elif case["drv"] == "optim_q":
            out = cp.cutting_plane_optim_q(OptimQ(), sp, 4.0, o)
        else:
            ad = cp.BSearchAdaptor(om, sp, o)
            if not full:  # the adaptor is itself a binary-search oracle
                require(isinstance(ad, OracleBS), "the adaptor is not a binary-search oracle")
            if case["drv"] == "adaptor":
                out = [(bool(ad.assess_bs(g)), np.array(ad.x_best).tolist()) for g in case["gammas"]]
                alone, _ = cp.cutting_plane_feas(Feas(), copy.deepcopy(inner), o)
                require(all(r == (alone is not None) for r, _ in out), "answers %s, a separate search gives %s", out, alone)
                if alone is not None:
                    cov.nontrivial()
            else:
                o2 = Options()
                o2.tolerance = 1e-3
                out = cp.bsearch(ad, (0.0, 4.0), o2)
            out = (out, np.array(ad.x_best).tolist())
        if case["drv"] in ("feas", "optim", "optim_q"):
            out = tuple(v.tolist() if isinstance(v, np.ndarray) else v for v in out)
        outs.append(out)
        logs.append(log)
    require(outs[0] == outs[1], "%s: result %r with the required methods only, %r with all written out", case["drv"], outs[1], outs[0])
    require(logs[0] == logs[1], "%s: the oracle was asked about %s with the required methods only, %s with all written out",
            case["drv"], logs[1][-2:], logs[0][-2:])
    cov.tag(case["drv"])
    if case["drv"] != "adaptor" and len(logs[1]) >= 3:
        cov.nontrivial()


SUBS = [
    Sub("scripted", scripted_case, run_scripted, quick=2000, shards=8),
    Sub("real", real_case, run_real, quick=800, shards=8),
]
