"""C17: a rejected matrix always comes with a valid witness."""
from vp import ldlt
from vp.core import Sub

RULE = (
    "The histories of C16. After every rejection the witness is asked for (sometimes twice), v'Av is recomputed in "
    "exact rational arithmetic from the vector left behind and compared with -ep, entries outside the reported range "
    "must be zero, and quadratic forms with other matrices are compared with exact ones; a witness after acceptance "
    "must be refused. Non-trivial: at least one witness was checked."
)


def run(case, cov):
    ldlt.play(case, cov, wit=True)


SUBS = [
    Sub("giant", ldlt.giant_case, lambda case, cov: ldlt.play_giant(case, cov, wit=True), quick=24, thorough=800, shards=8),
    Sub("histories", ldlt.histories, run, quick=6000, shards=8),
    Sub("large", lambda: ldlt.histories(lo=12, hi=28, max_len=3), run, quick=80, thorough=2000, shards=8),
    Sub("long", lambda: ldlt.histories(max_len=40), run, quick=200, thorough=4000, shards=8),
]
