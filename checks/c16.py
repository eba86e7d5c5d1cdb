"""C16: factorization decides positive definiteness."""
from vp import ldlt
from vp.core import Sub

RULE = (
    "Histories of up to six factorizations on one manager (from an array, from a callback, and the semidefinite "
    "variant in between), over integer LDL' constructions with exact zero, negative and positive pivots, random "
    "integer, real, low-rank and one-bad-direction matrices, sizes 1 to 16 and several scales, plus orders up to 110. The verdict is "
    "compared with an exact rational factorization where floating point must agree, and with the smallest "
    "eigenvalue outside a rounding band otherwise. Non-trivial: the manager was used before or the matrix is not "
    "positive definite."
)


def run(case, cov):
    ldlt.play(case, cov, strict=True)


SUBS = [
    Sub("giant", ldlt.giant_case, lambda case, cov: ldlt.play_giant(case, cov, strict=True), quick=24, thorough=800, shards=8),
    Sub("histories", ldlt.histories, run, quick=6000, shards=8),
    Sub("large", lambda: ldlt.histories(lo=12, hi=28, max_len=3), run, quick=80, thorough=2000, shards=8),
    Sub("long", lambda: ldlt.histories(max_len=40), run, quick=200, thorough=4000, shards=8),
]
