"""Generators. Every random choice is drawn from Hypothesis; results are JSON-able."""
import struct

from hypothesis import strategies as st


def i16s(draw, k):
    """k signed 16-bit integers in one draw (fast, shrinks to zero)."""
    if k == 0:
        return []
    b = draw(st.binary(min_size=2 * k, max_size=2 * k))
    return list(struct.unpack("<%dh" % k, b))


def reals(draw, k, scale=1.0):
    """k numbers in [-scale, scale], multiples of scale/32768."""
    return [v / 32768.0 * scale for v in i16s(draw, k)]


def unit(draw):
    """one number in [0, 1)"""
    return draw(st.integers(0, 65535)) / 65536.0


def log_uniform(draw, lo, hi):
    """10**u, u uniform in [lo, hi]"""
    return float(10.0 ** (lo + (hi - lo) * unit(draw)))


def vec(draw, n, styles=("dense", "int", "sparse", "axis", "near_axis")):
    """A non-zero vector of a drawn style."""
    style = draw(st.sampled_from(styles))
    raw = i16s(draw, n)
    if style == "dense":
        v = [r / 8192.0 for r in raw]
    elif style == "int":
        v = [float(r % 7 - 3) for r in raw]
    elif style == "sparse":
        v = [r / 8192.0 if (r >> 3) % 3 == 0 else 0.0 for r in raw]
    elif style == "axis":
        v = [0.0] * n
        k = draw(st.integers(0, n - 1))
        v[k] = float(2.0 ** (raw[0] % 5 - 2)) * (1.0 if raw[1] % 2 == 0 else -1.0)
    else:  # near_axis
        v = [r / 32768.0 * 1e-3 for r in raw]
        k = draw(st.integers(0, n - 1))
        v[k] = 1.0 if raw[0] % 2 == 0 else -1.0
    if all(x == 0.0 for x in v):
        v[raw[0] % n] = 1.0
    return v


def dims(draw, hi=8, big=0):
    """Dimension, biased to small; rarely a large one."""
    n = draw(st.one_of(st.integers(2, 4), st.integers(2, hi)))
    if big and draw(st.integers(0, 49)) == 49:
        n = draw(st.integers(hi + 1, big))
    return n


def perm(draw, n):
    return list(draw(st.permutations(list(range(n)))))
