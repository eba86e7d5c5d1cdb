"""C30: the semidefinite-tolerant factorization never rejects a semidefinite matrix."""
from hypothesis import strategies as st

from vp import ldlt
from vp.core import Sub, load_known

RULE = (
    "Histories on one manager in which most factorizations use the tolerant variant, over the matrices of C16 "
    "(exact zero pivots are frequent). Semidefiniteness is decided by exact rational elimination; acceptance is "
    "required where floating point follows the exact computation or the matrix is definite with margin; a rejection "
    "needs a vector with negative exact quadratic form; an accepted matrix with a clearly negative eigenvalue is a "
    "violation unless it is the recorded restart defect (an exact zero pivot followed by a restart that an exact "
    "model of the restart also accepts). Non-trivial: not positive definite, or a reused manager."
)
ASSUMPTIONS = ["The recorded defect (acceptance of some indefinite matrices with an exact zero pivot) is excepted."]
KNOWN = "C30-restart"


@st.composite
def case_(draw, **kw):
    return draw(ldlt.histories(ops=("semi", "semi", "semi", "factor"), **kw))


def _known():
    ids = [k["id"] for k in load_known("C30")]
    return KNOWN if KNOWN in ids else None


def run(case, cov):
    ldlt.play(case, cov, semi=True, known=_known())


def run_known(case, cov):
    """the recorded inputs, every run"""
    from ellalgo.oracles.ldlt_mgr import LDLTMgr
    import numpy as np

    A = np.array([[0.0, 1.0], [1.0, 0.0]])
    if LDLTMgr(2).factor_with_allow_semidefinite(lambda i, j: A[i, j]):
        if _known():
            cov.known_finding(KNOWN)
        else:
            from vp.core import fail

            fail("accepted [[0, 1], [1, 0]]")


SUBS = [
    Sub("giant", ldlt.giant_case, lambda case, cov: ldlt.play_giant(case, cov, semi=True), quick=24, thorough=800, shards=8),
    Sub("histories", case_, run, quick=6000, shards=7),
    Sub("large", lambda: case_(lo=12, hi=24, max_len=3), run, quick=200, shards=4),
    Sub("long", lambda: case_(max_len=40), run, quick=200, shards=2),
    Sub("recorded", lambda: st.just({}), run_known, quick=1, thorough=1, shards=1),
]
