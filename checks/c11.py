"""C11: optimization driver."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp.core import Sub, require
from vp import space as S

RULE = (
    "scripted: an oracle and a search space that follow a generated script (improved values in any order including "
    "zero, negative and equal ones; every status; widths above, at and below the tolerance; limits from 0; in "
    "half of the cases after up to 150 uneventful successful cuts, with centers that move, creep or stand still and "
    "improvements that creep, repeat or get worse), the "
    "space reusing one buffer for its center. Calls and result must be those of a reference loop. real: the driver "
    "on real spaces, result compared with what the oracle saw. Non-trivial: at least one improvement followed by at "
    "least one further update."
)


@st.composite
def case_(draw):
    tol = draw(st.sampled_from([1e-20, 1e-3, 0.25, 0.0]))
    k = draw(st.integers(0, 14))
    steps = script.space_script(draw, k, tol, ["NoSoln", "NoEffect", "Unknown"], p_stop=12)
    for s in steps:
        s["beta"] = script.betas(draw)
        s["better"] = draw(st.sampled_from([None, None, None, 0.0, 1.0, -1.0, 0, 5.5, 7, -3.25, 2 ** 60 + 1, -(10 ** 30) - 7, 1e-310, "-inf", "inf"]))
    pre = script.prefix_case(draw, better=True)
    return dict(n=draw(st.integers(1, 3)), tolerance=tol, max_iters=pre["len"] + draw(st.integers(0, 18)),
                steps=steps, prefix=pre,
                fresh=draw(st.booleans()), gamma=draw(st.sampled_from([0.0, 2.0, -1.0, 1e100, 3, 2 ** 70 + 1])))


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim

    n = case["n"]
    ev = []
    steps = [dict(s, better=float(s["better"]) if isinstance(s["better"], str) else s["better"]) for s in script.expand(case)]
    space = script.FakeSpace(n, steps, ev, case["fresh"], case["prefix"]["move"])

    class Oracle:
        i = 0

        def assess_optim(self, x, gamma):
            i = self.i
            self.i += 1
            if i > case["max_iters"] + 50:
                raise script.Runaway("oracle called %d times with a limit of %d" % (i, case["max_iters"]))
            ev.append(("assess", np.array(x, dtype=float).tolist(), gamma))
            s = steps[i] if i < len(steps) else dict(beta=0.0, better=None)
            return script.cut_token(i, n, s["beta"]), s["better"]

    want = []
    best, gamma, cnt = None, case["gamma"], case["max_iters"]
    x = np.arange(n, dtype=float)
    later = 0
    for i in range(case["max_iters"]):
        s = steps[i] if i < len(steps) else dict(beta=0.0, better=None, status="Success", tsq=1e9)
        want.append(("assess", x.tolist(), gamma))
        if s["better"] is not None:
            gamma, best = s["better"], x.copy()
            later = 0
        else:
            later += 1
        want.append(("central" if s["better"] is not None else "bias",) + script.exp_events(i, n, s["beta"]))
        if s["status"] == "Success":
            x = x + script.shift(case["prefix"]["move"], i + 1)
        if s["status"] != "Success" or s["tsq"] < case["tolerance"]:
            cnt = i
            break
    out = cutting_plane_optim(Oracle(), space, case["gamma"], script.options(case))
    require(isinstance(out, tuple) and len(out) == 3, "result is not a triple: %r", out)
    gx, gg, gn = out
    require(ev == want, "calls made %s, expected %s", ev[-4:], want[-4:])
    require(gg == gamma, "returned value %r, the last improved one is %r", gg, gamma)
    if best is None:
        require(gx is None, "returned %s without any improvement", gx)
    else:
        require(gx is not None, "the improving point was not returned")
        require(np.array_equal(S.as_vec(gx, n, "point"), best), "returned %s, the best value was reported at %s", gx,
                best)
        # the point must not follow the space around
        space.buf += 1.0
        require(np.array_equal(S.as_vec(gx, n, "point"), best), "the returned point changes with the search space")
    require(gn == cnt, "reported %r iterations, expected %d", gn, cnt)
    cov.tag("improved" if best is not None else "never improved")
    cov.tag("prefix: %s" % ("none" if not case["prefix"]["len"] else "long"))
    cov.tag("ended by " + ("limit" if cnt == case["max_iters"] else
                           "failed cut" if steps[cnt]["status"] != "Success" else "width"))
    if best is not None and later:
        cov.nontrivial()


@st.composite
def real_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, space=draw(st.sampled_from(["ell", "stable"])), init=draw(S.init_case(n, wide=False)),
                target=gen.reals(draw, n, 2.0), weights=[0.2 + abs(w) for w in gen.reals(draw, n, 2.0)],
                max_iters=draw(st.integers(0, 80)), tolerance=draw(st.sampled_from([1e-20, 1e-8, 1e-2])),
                gamma=draw(st.sampled_from([1e9, 1.0, 0.01])))


def run_real(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim

    n = case["n"]
    sp = S.make_space(S.classes()[case["space"]], case["init"], n)[0]
    t, w = np.array(case["target"]), np.array(case["weights"])
    log = []

    class Oracle:
        def assess_optim(self, x, gamma):
            if len(log) > 5000:
                raise script.Runaway("too many oracle calls")
            d = x - t
            f = float(np.sum(w * d * d))
            g = 2 * w * d
            if np.max(np.abs(g)) < 1e-9:
                g = np.eye(n)[0]
            if f < gamma:
                log.append((x.copy(), f))
                return (g, 0.0), f
            log.append((x.copy(), None))
            return (g, f - gamma), None

    x, gam, it = cutting_plane_optim(Oracle(), sp, case["gamma"], script.options(case))
    lim = case["max_iters"]
    require(len(log) <= lim, "%d oracle calls with a limit of %d", len(log), lim)
    good = [(p, f) for p, f in log if f is not None]
    if good:
        require(x is not None and np.array_equal(x, good[-1][0]), "returned point is not where the best was reported")
        require(gam == good[-1][1], "returned value is not the best reported")
    else:
        require(x is None and gam == case["gamma"], "a result was made up")
    require(it == len(log) - 1 or it == lim == len(log), "reported %d iterations, %d oracle calls", it, len(log))
    if len(good) >= 2:
        cov.nontrivial()
    cov.tag("improvements: %s" % ("0" if not good else "1" if len(good) == 1 else "2+"))


SUBS = [
    Sub("scripted", case_, run, quick=6000, shards=5),
    Sub("real", real_case, run_real, quick=1500, shards=3),
]
