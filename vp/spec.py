"""Impulse responses with chosen zeros."""
import numpy as np
from hypothesis import strategies as st

from vp import gen


def roots_case(draw, maxdeg=9, circle=False, mindeg=0, rmax=0.93):
    deg = draw(st.integers(max(mindeg, 1 if circle else 0), maxdeg))
    out = []
    left = deg
    first = True
    while left > 0:
        on = circle and (first or draw(st.integers(0, 2)) == 1)
        first = False
        if left >= 2 and draw(st.integers(0, 2)) != 0:
            th = draw(st.sampled_from(["free", "free", "grid"]))
            ang = np.pi * gen.unit(draw) if th == "free" else np.pi * draw(st.integers(0, deg + 1)) / (deg + 1)
            rad = 1.0 if on else rmax * gen.unit(draw)
            out.append([float(rad), float(ang), bool(draw(st.booleans()))])
            left -= 2
        else:
            rad = (1.0 if on else rmax * gen.unit(draw)) * (1 if draw(st.booleans()) else -1)
            out.append([float(rad), None, bool(draw(st.booleans()))])
            left -= 1
    return out


def poly(roots, flip=False):
    """leading coefficient 1; flip: selected zeros moved outside the unit circle"""
    h = np.array([1.0])
    for rad, ang, fl in roots:
        if ang is None:
            f = np.array([1.0, -rad])
        else:
            f = np.array([1.0, -2.0 * rad * np.cos(ang), rad * rad])
        if flip and fl:
            f = f[::-1]
        h = np.convolve(h, f)
    return h


def autocorr(h):
    n = len(h)
    return np.array([float(np.dot(h[: n - k], h[k:])) for k in range(n)])


def spectrum(r, m=4096):
    w = np.linspace(0, np.pi, m)
    return r[0] + 2.0 * sum((r[k] * np.cos(k * w) for k in range(1, len(r))), np.zeros(m))
