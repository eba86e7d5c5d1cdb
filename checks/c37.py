"""C37: the power iterations of experiment/power_iteration.py."""
import contextlib
import importlib.util
import io
import math
import os

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp.core import Sub, require

RULE = (
    "The four power iterations of experiment/power_iteration.py on symmetric matrices Q diag(l) Q' with a dominant eigenvalue "
    "(|l_2| <= 0.9 |l_1|), in any units from 1e-6 to 1e6 and a starting vector of any length from 1e-70 to 1e70 with a component of at "
    "least 0.05 of its length along the dominant eigenvector; indefinite spectra for the two vector-based variants, positive ones for "
    "the two that watch the quotient. The vector returned has unit length and the value is its Rayleigh quotient (1e-9), the number of "
    "iterations is at most the limit, a run cut off by the limit returns the direction of that power of the matrix applied to the start, and with a sufficient limit the method stops "
    "early at the dominant eigenpair with an error within the bound that follows from the tolerance. "
    "Non-trivial: the method stopped early after at least five iterations."
)
_mod = {}


def module():
    if "m" not in _mod:
        src = os.environ.get("VP_REPO_SRC", "/repo/src")
        path = os.path.join(os.path.dirname(src.rstrip("/")), "experiment", "power_iteration.py")
        if not os.path.exists(path):
            path = "/repo/experiment/power_iteration.py"
        spec = importlib.util.spec_from_file_location("vp_power_iteration", path)
        m = importlib.util.module_from_spec(spec)
        with contextlib.redirect_stdout(io.StringIO()):
            spec.loader.exec_module(m)
        _mod["m"] = m
    return _mod["m"]


@st.composite
def case_(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, which=draw(st.sampled_from([1, 2, 3, 4])), unit=draw(st.sampled_from([0, 0, -6, -2, 2, 6])),
                xunit=draw(st.sampled_from([0, 0, -8, 8, -70, 70, 66])), tol=draw(st.sampled_from([-4, -7, -10, -12, -99])),
                neg=draw(st.booleans()), ratio=draw(st.sampled_from([0.9, 0.9, 0.7, 0.3])),
                limit=draw(st.one_of(st.just(4000), st.just(4000), st.integers(0, 60))), lead=draw(st.sampled_from([0.05, 0.3, 0.9])),
                basis=gen.i16s(draw, n * n), ev=gen.i16s(draw, n), x=gen.i16s(draw, n))


def run(case, cov):
    m = module()
    n, which = case["n"], case["which"]
    q, r = np.linalg.qr(np.array(case["basis"], dtype=float).reshape(n, n) / 32768.0 + 1e-3 * np.eye(n))
    unit = 10.0 ** case["unit"]
    signed = which in (1, 4)
    ev = np.array([v / 32768.0 for v in case["ev"]]) * case["ratio"]
    ev[1] = case["ratio"] * (-1.0 if signed and case["ev"][1] < 0 else 1.0)  # the runner-up sits at the ratio
    if not signed:
        ev = np.abs(ev)
    ev[0] = -1.0 if signed and case["neg"] else 1.0
    A = (q * (ev * unit)) @ q.T
    A = 0.5 * (A + A.T)
    c = np.array([v / 32768.0 for v in case["x"]])
    c[0] = 0.0
    if np.linalg.norm(c) > 0:
        c *= math.sqrt(1 - case["lead"] ** 2) / np.linalg.norm(c)
    c[0] = case["lead"] * (1 if case["x"][0] >= 0 else -1)
    x0 = q @ c * 10.0 ** case["xunit"]
    tol = 10.0 ** case["tol"]
    if case["tol"] < -12:  # never met: only runs cut off by the limit
        case["limit"] = min(case["limit"], 60)
        tol = 0.0
    atol = tol if signed else tol * unit  # the quotient-based variants compare eigenvalues
    f = getattr(m, "power_iteration" + ("" if which == 1 else str(which)))
    with np.errstate(all="ignore"):
        x, ld, k = f(A.copy(), x0.copy(), m.Options(max_iters=case["limit"], tolerance=atol))
    x, ld = np.asarray(x, dtype=float), float(ld)
    require(np.all(np.isfinite(x)) and math.isfinite(ld), "variant %d: vector %s, value %r", which, x, ld)
    require(abs(np.linalg.norm(x) - 1) <= 1e-9, "variant %d: the vector returned has length %.17g", which, np.linalg.norm(x))
    require(abs(ld - x @ (A @ x)) <= 1e-9 * unit, "variant %d: value %.17g, Rayleigh quotient %.17g", which, ld, x @ (A @ x))
    require(0 <= k <= case["limit"], "variant %d: %r iterations, limit %d", which, k, case["limit"])
    early = k < case["limit"]
    if case["limit"] == 4000:
        require(early, "variant %d did not stop within %d iterations (tolerance %g)", which, k, tol)
    if early:
        v = q[:, 0]
        s = float(np.linalg.norm(x - (v @ x) * v))
        dl = abs(ld - ev[0] * unit) / unit
        if signed:
            # a step no longer than tol: the residual is small, and the gap turns it into an angle (a start nearly
            # orthogonal to the dominant vector could fake it only below lead * (1 - ratio))
            bound = 1e-10 + tol * math.sqrt(n) * 4 / (1 - case["ratio"])
            cov.maximum("angle / bound", s / bound)
            require(s <= bound, "variant %d stopped at an angle of %g from the dominant eigenvector (tolerance %g)", which, s, tol)
        else:
            bound = 1e-10 + tol * 2 / (case["lead"] ** 2 * (1 - case["ratio"] ** 2))
            cov.maximum("value error / bound", dl / bound)
            require(dl <= bound, "variant %d stopped with the value %.12g, the dominant eigenvalue is %.12g (tolerance %g)",
                    which, ld / unit, ev[0], tol)
        if k >= 5:
            cov.nontrivial()
    else:
        # not stopped: exactly `limit` products with A were taken
        y = c * ev ** case["limit"]
        y = q @ (y / np.linalg.norm(y))
        require(min(np.abs(x - y).max(), np.abs(x + y).max()) <= 1e-6,
                "variant %d with %d iterations returned %s, A^%d x0 points along %s", which, k, x, case["limit"], y)
        cov.tag("limit reached")
    cov.tag("variant %d" % which)


SUBS = [Sub("variants", case_, run, quick=2500, thorough=60000, shards=4)]
