"""Scripted oracle and search space for the driver checks.

The space keeps its center in one buffer that every update overwrites, so a
driver that keeps a reference instead of a copy is found out.
"""
import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import Violation, fail, require


class Runaway(Violation):
    pass


def shift(mode, k):
    """how far update number k (from 1) moves the center"""
    if mode == "none":
        return 0.0
    if mode == "tiny":
        return 1e-13 / k
    if mode == "unit":
        return 1.0
    return 1000.0 + 7.0 * k


def prefix_case(draw, better=False, retry=False):
    """a long uneventful run before the scripted steps: mostly none, sometimes up to 150 successful cuts, rarely thousands"""
    ln = draw(st.sampled_from([0] * 50 + [5, 12, 40, 150] * 10 + [600, 1990, 2100, 4200, 9000]))
    if ln:
        ln += draw(st.integers(0, 4))
    return dict(
        len=ln, width=draw(st.sampled_from(["const", "const", "falling", "near", "rising"])),
        beta=betas(draw), status=draw(st.sampled_from(["Success", "NoEffect", "mixed"])) if retry else "Success",
        better=draw(st.sampled_from(["none", "same", "creep", "once", "worse", "alternate"])) if better else "none",
        move=draw(st.sampled_from(["big", "big", "none", "tiny", "unit"])))


def expand(case):
    """the steps of a case including its prefix"""
    p, tol, out = case["prefix"], case["tolerance"], []
    for i in range(p["len"]):
        w = {"const": 1.0, "falling": tol + 1.0 / (i + 1.0) ** 2, "rising": tol + 1e-3 * (i + 1.0),
             "near": tol * (1.0 + 1e-9) + 1e-300}[p["width"]]
        b = {"none": None, "same": 1.5, "creep": 1.5 - 1e-14 * i, "once": 1.5 if i == 1 else None,
             "worse": 1.0 * i, "alternate": 1.5 - 1e-12 * i if i % 2 else None}[p["better"]]
        status = {"mixed": "NoEffect" if i % 3 else "Success"}.get(p["status"], p["status"])
        out.append(dict(status=status, tsq=w, beta=p["beta"], better=b, accept=False,
                        alt=bool(i % 2) or status != "Success"))
    return out + case["steps"]


class FakeSpace:
    def __init__(self, n, script, events, fresh=False, move="big"):
        self.move = move
        self.n, self.script, self.events = n, script, events
        self.buf = np.arange(n, dtype=float)
        self.k = 0  # updates so far
        self._tsq = 0.0
        self.fresh = fresh

    def xc(self):
        return self.buf.copy() if self.fresh else self.buf

    def tsq(self):
        return self._tsq

    def set_xc(self, x):
        self.events.append(("set_xc", np.array(x, dtype=float).tolist()))
        self.buf = np.array(x, dtype=float)

    def _update(self, kind, cut):
        from ellalgo.ell_config import CutStatus

        if self.k > len(self.script) + 300:
            raise Runaway("driver does not stop")
        s = self.script[self.k] if self.k < len(self.script) else dict(status="Success", tsq=1e9)
        g, beta = cut
        b = [float(x) for x in np.atleast_1d(np.array(beta, dtype=float))]
        self.events.append((kind, np.array(g, dtype=float).tolist(), b))
        self.k += 1
        self._tsq = s["tsq"]
        if s["status"] == "Success":
            # overwrite the buffer in place, as an in-place implementation would
            self.buf += shift(self.move, self.k)
        return CutStatus[s["status"]]

    def update_bias_cut(self, cut):
        return self._update("bias", cut)

    def update_central_cut(self, cut):
        return self._update("central", cut)

    def update_q(self, cut):
        return self._update("q", cut)


def options(case):
    from ellalgo.ell_config import Options

    o = Options()
    o.max_iters = case["max_iters"]
    o.tolerance = case["tolerance"]
    return o


def cut_token(i, n, beta):
    g = np.zeros(n)
    g[0] = i + 1.0
    g[-1] = -2.0 * (i + 1.0)
    if isinstance(beta, list):
        return g, tuple(beta) if i % 2 else list(beta)
    return g, beta


def space_script(draw, n_steps, tol, statuses, p_stop=8):
    """mostly successes with a width above tolerance, sometimes on or below it"""
    out = []
    for _ in range(n_steps):
        if draw(st.integers(0, p_stop)) == 0:
            status = draw(st.sampled_from(statuses))
        else:
            status = "Success"
        w = draw(st.sampled_from(["hi"] * 20 + ["at", "below", "zero"]))
        tsq = {"hi": 1.0, "at": tol, "below": tol * 0.5, "zero": 0.0}[w]
        if tol <= 0 and w == "below":
            tsq = tol
        out.append(dict(status=status, tsq=tsq))
    return out


def betas(draw):
    return draw(st.sampled_from([0.0, 0.5, 0, 3, [0.25, 0.75], [0.0, 1.0], [0.5]]))


def exp_events(i, n, beta):
    g, b = cut_token(i, n, beta)
    return g.tolist(), [float(x) for x in np.atleast_1d(np.array(b, dtype=float))]


def same_num(a, b):
    return type(a) is type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool)
                                              and a is not None and b is not None and a == b)
