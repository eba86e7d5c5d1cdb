"""C13: quantized driver."""
import numpy as np
from hypothesis import strategies as st

from vp import gen, script
from vp.core import Sub, require
from vp import space as S

RULE = (
    "A scripted oracle (improved values, evaluation points in one reused array or list, alternatives announced or not) and "
    "a scripted space (success / no solution / no effect, widths above, at and below the tolerance), in half of the "
    "cases after up to 150 uneventful cuts or retries with creeping or standing centers and improvements; the calls made, "
    "including the retry flag, and the result must be those of a reference loop. Non-trivial: at least one retry, or "
    "an improvement followed by a further update."
)


@st.composite
def case_(draw):
    tol = draw(st.sampled_from([1e-20, 1e-3, 0.25, 0.0]))
    k = draw(st.integers(0, 14))
    steps = script.space_script(draw, k, tol, ["NoSoln", "NoEffect", "NoEffect", "NoEffect", "NoEffect", "NoEffect"],
                                p_stop=3)
    for s in steps:
        s["beta"] = script.betas(draw)
        s["better"] = draw(st.sampled_from([None, None, None, 0.0, 1.0, -1.0, 0, 5.5, 2 ** 60 + 1, 1e-310, "-inf", "inf"]))
        s["alt"] = draw(st.integers(0, 4)) > 0
    pre = script.prefix_case(draw, better=True, retry=True)
    return dict(n=draw(st.integers(1, 3)), tolerance=tol, max_iters=pre["len"] + draw(st.integers(0, 18)),
                steps=steps, prefix=pre,
                fresh=draw(st.booleans()), reuse=draw(st.sampled_from([False, True, True, "list"])),
                gamma=draw(st.sampled_from([0.0, 2.0, -1.0, 3])))


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_optim_q

    n = case["n"]
    ev = []
    steps = [dict(s, better=float(s["better"]) if isinstance(s["better"], str) else s["better"]) for s in script.expand(case)]
    space = script.FakeSpace(n, steps, ev, case["fresh"], case["prefix"]["move"])
    buf, lst = np.zeros(n), [0.0] * n

    class Oracle:
        i = 0

        def assess_optim_q(self, x, gamma, retry):
            i = self.i
            self.i += 1
            if i > case["max_iters"] + 50:
                raise script.Runaway("oracle called %d times with a limit of %d" % (i, case["max_iters"]))
            ev.append(("assess", np.array(x, dtype=float).tolist(), gamma, bool(retry)))
            s = steps[i] if i < len(steps) else dict(beta=0.0, better=None, alt=False)
            if case["reuse"] == "list":
                lst[:] = [-1.0 - i] * n
                xq = lst
            elif case["reuse"]:
                buf[:] = -1.0 - i
                xq = buf
            else:
                xq = np.full(n, -1.0 - i)
            return script.cut_token(i, n, s["beta"]), xq, s["better"], s["alt"]

    want = []
    best, gamma, cnt, retry, why = None, case["gamma"], case["max_iters"], False, "limit"
    x = np.arange(n, dtype=float)
    later = retries = 0
    for i in range(case["max_iters"]):
        s = steps[i] if i < len(steps) else dict(beta=0.0, better=None, alt=False, status="Success",
                                                                 tsq=1e9)
        want.append(("assess", x.tolist(), gamma, retry))
        retries += retry
        if s["better"] is not None:
            gamma, best, later = s["better"], np.full(n, -1.0 - i), 0
        else:
            later += 1
        want.append(("q",) + script.exp_events(i, n, s["beta"]))
        if s["status"] == "Success":
            x = x + script.shift(case["prefix"]["move"], i + 1)
            retry = False
        elif s["status"] == "NoSoln":
            cnt, why = i, "no solution"
            break
        else:
            if not s["alt"]:
                cnt, why = i, "no alternatives"
                break
            retry = True
        if s["tsq"] < case["tolerance"]:
            cnt, why = i, "width"
            break
    out = cutting_plane_optim_q(Oracle(), space, case["gamma"], script.options(case))
    require(isinstance(out, tuple) and len(out) == 3, "result is not a triple: %r", out)
    gx, gg, gn = out
    require(ev == want, "calls made %s, expected %s", ev[-4:], want[-4:])
    require(gg == gamma, "returned value %r, the last improved one is %r", gg, gamma)
    if best is None:
        require(gx is None, "returned %s without any improvement", gx)
    else:
        require(gx is not None, "the improving point was not returned")
        require(np.array_equal(S.as_vec(gx, n, "point"), best), "returned %s, the best value came with %s", gx, best)
    require(gn == cnt, "reported %r iterations, expected %d", gn, cnt)
    cov.tag("prefix: %s" % ("none" if not case["prefix"]["len"] else "long"))
    cov.tag("ended by " + why)
    cov.tag("retries: %s" % ("0" if not retries else "1" if retries == 1 else "2+"))
    if retries or (best is not None and later):
        cov.nontrivial()


SUBS = [Sub("scripted", case_, run, quick=8000, shards=8)]
