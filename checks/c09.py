"""C09: feasibility driver."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp.core import Sub, require
from vp import space as S

RULE = (
    "scripted: an oracle and a search space that follow a generated script (accept/cut with single or parallel "
    "offsets; every status; widths above, exactly at and below the tolerance; iteration limits from 0; in half of the cases after up "
    "to 150 uneventful successful cuts, with centers that move, creep or stand still), the space "
    "reusing one buffer for its center. The driver's calls and result must be those of a reference loop. real: the "
    "driver on real spaces with generated half-space oracles, checked from the outside. Non-trivial: at least two "
    "updates were made."
)


@st.composite
def case_(draw):
    tol = draw(st.sampled_from([1e-20, 1e-3, 0.25, 0.0]))
    k = draw(st.integers(0, 14))
    steps = script.space_script(draw, k, tol, ["NoSoln", "NoEffect", "Unknown"], p_stop=12)
    for s in steps:
        s["beta"] = script.betas(draw)
        s["accept"] = draw(st.integers(0, 11)) == 0
    pre = script.prefix_case(draw)
    return dict(n=draw(st.integers(1, 3)), tolerance=tol, max_iters=pre["len"] + draw(st.integers(0, 18)),
                steps=steps, prefix=pre,
                fresh=draw(st.booleans()), default=draw(st.integers(0, 9)) == 0)


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas

    n = case["n"]
    ev = []
    steps = script.expand(case)
    space = script.FakeSpace(n, steps, ev, case["fresh"], case["prefix"]["move"])
    seen = []

    class Oracle:
        i = 0

        def assess_feas(self, x):
            i = self.i
            self.i += 1
            if i > case["max_iters"] + 50:
                raise script.Runaway("oracle called %d times with a limit of %d" % (i, case["max_iters"]))
            seen.append(x)
            ev.append(("assess", np.array(x, dtype=float).tolist()))
            s = steps[i] if i < len(steps) else dict(beta=0.0, accept=False)
            return None if s["accept"] else script.cut_token(i, n, s["beta"])

    # reference
    want = []
    res, cnt = None, case["max_iters"]
    x = np.arange(n, dtype=float)
    for i in range(case["max_iters"]):
        s = steps[i] if i < len(steps) else dict(beta=0.0, accept=False, status="Success", tsq=1e9)
        want.append(("assess", x.tolist()))
        if s["accept"]:
            res, cnt = x.copy(), i
            break
        want.append(("bias",) + script.exp_events(i, n, s["beta"]))
        if s["status"] == "Success":
            x = x + script.shift(case["prefix"]["move"], i + 1)
        if s["status"] != "Success" or s["tsq"] < case["tolerance"]:
            cnt = i
            break
    out = cutting_plane_feas(Oracle(), space, script.options(case))
    require(isinstance(out, tuple) and len(out) == 2, "result is not a pair: %r", out)
    gx, gn = out
    require(ev == want, "calls made %s, expected %s", ev[-4:], want[-4:])
    if res is None:
        require(gx is None, "returned %s, expected no point", gx)
    else:
        require(gx is not None, "an accepted point was not returned")
        require(np.array_equal(S.as_vec(gx, n, "point"), res), "returned %s, the oracle accepted %s", gx, res)
    require(gn == cnt, "reported %r iterations, expected %d", gn, cnt)
    upd = sum(1 for e in want if e[0] == "bias")
    cov.tag("prefix: %s" % ("none" if not case["prefix"]["len"] else "long"))
    cov.tag("ended by " + ("accept" if res is not None else "limit" if cnt == case["max_iters"] else
                           "failed cut" if steps[cnt]["status"] != "Success" else "width"))
    if any(s["tsq"] == case["tolerance"] for s in steps[:upd]):
        cov.tag("width exactly at tolerance")
    if upd >= 2:
        cov.nontrivial()


# ------------------------------------------------------------------ real spaces
@st.composite
def real_case(draw):
    n = draw(st.integers(2, 5))
    m = draw(st.integers(1, 6))
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable"])), init=draw(S.init_case(n, wide=False)),
                rows=[gen.vec(draw, n) for _ in range(m)], rhs=gen.reals(draw, m, 4.0),
                max_iters=draw(st.integers(0, 60)), tolerance=draw(st.sampled_from([1e-20, 1e-8, 1e-2])),
                default=draw(st.booleans()))


def run_real(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas

    n = case["n"]
    sp = S.make_space(S.classes()[case["space"]], case["init"], n)[0]
    A, b = np.array(case["rows"]), np.array(case["rhs"])
    log = []

    class Oracle:
        i = 0

        def assess_feas(self, x):
            if len(log) > 5000:
                raise script.Runaway("too many oracle calls")
            v = A @ x - b
            k = (self.i + np.arange(len(b))) % len(b)
            self.i += 1
            for j in k:
                if v[j] > 0:
                    log.append((x.copy(), False))
                    return A[j].copy(), float(v[j])
            log.append((x.copy(), True))
            return None

    if case["default"]:
        x, it = cutting_plane_feas(Oracle(), sp)
        lim = 2000
    else:
        x, it = cutting_plane_feas(Oracle(), sp, script.options(case))
        lim = case["max_iters"]
    require(len(log) <= lim, "%d oracle calls with a limit of %d", len(log), lim)
    if x is not None:
        require(log and log[-1][1] and np.array_equal(log[-1][0], x), "point returned was not accepted by the oracle")
        require(it == len(log) - 1, "reported %d iterations after %d cuts", it, len(log) - 1)
        require(bool(np.all(A @ x - b <= 1e-12)), "returned point is not feasible")
        cov.tag("point found")
    else:
        require(not any(a for _, a in log), "an accepted point was dropped")
        require(it == len(log) - 1 or it == lim == len(log), "reported %d iterations, %d oracle calls", it, len(log))
        cov.tag("no point")
    if len(log) >= 3:
        cov.nontrivial()


SUBS = [
    Sub("scripted", case_, run, quick=6000, shards=5),
    Sub("real", real_case, run_real, quick=1500, shards=3),
]
