"""Shared pieces of every check: violations, coverage counters, SUT calls."""
import hashlib
import json
import os
import sys
import traceback

REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The case turned out to be outside the property's domain (counted)."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def setup_import():
    """Import the code under test from /repo's working tree, nothing else."""
    sys.dont_write_bytecode = True
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import ellalgo

    where = os.path.realpath(ellalgo.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError("ellalgo imported from %s, not from %s" % (where, REPO_SRC))


def through_sut(exc):
    """True when the exception was raised in (or below) the code under test."""
    return bool(sut_where(exc))


def sut_where(exc):
    src = os.path.realpath(REPO_SRC)
    roots = (src + os.sep, os.path.join(os.path.dirname(src), "experiment") + os.sep, "/repo/experiment/")
    out = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(fr.filename).startswith(roots):
            out = "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return out


class Cov:
    """Counts what a run generated; one per shard, merged by the parent."""

    MAX_SAMPLES = 2

    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.hashes = set()
        self.classes = {}
        self.samples = []
        self.known = {}
        self._case = None
        self._nt = False
        self._seen = set()
        self.maxima = {}

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._nt = False
        self._seen = set()

    def nontrivial(self):
        self._nt = True

    def tag(self, name):
        """Count at most once per case."""
        if name not in self._seen:
            self._seen.add(name)
            self.classes[name] = self.classes.get(name, 0) + 1

    def count(self, name, k=1):
        self.classes[name] = self.classes.get(name, 0) + k

    def maximum(self, name, v):
        v = float(v)
        if v > self.maxima.get(name, float("-inf")):
            self.maxima[name] = v

    def known_finding(self, ident):
        self.known[ident] = self.known.get(ident, 0) + 1

    def end(self):
        if self._nt:
            text = json.dumps(self._case, sort_keys=True)
            self.hashes.add(hashlib.blake2b(text.encode(), digest_size=8).hexdigest())
            if len(self.samples) < self.MAX_SAMPLES and len(text) < 3000:
                # skip the very first, minimal cases
                if self.evaluations > 40 * (1 + len(self.samples)) or self.evaluations > 10 and not self.samples and self.evaluations % 7 == 0:
                    self.samples.append(self._case)

    def dump(self):
        return dict(
            evaluations=self.evaluations,
            discarded=self.discarded,
            hashes=sorted(self.hashes),
            classes=self.classes,
            samples=self.samples,
            known=self.known,
            maxima=self.maxima,
        )


class Buffer:
    """How the caller holds its points: a new array per call, or one array that it overwrites."""

    def __init__(self, reuse):
        self.reuse, self.arr = reuse, None

    def put(self, x):
        if not self.reuse:
            return x
        if self.arr is None or self.arr.shape != x.shape or self.arr.dtype != x.dtype:
            self.arr = x.copy()
        else:
            self.arr[:] = x
        return self.arr


class Sub:
    """One generated check of a property."""

    def __init__(self, name, strategy, run, quick, thorough=None, shards=2, doc=""):
        self.name = name
        self.strategy = strategy  # () -> hypothesis strategy of JSON-able cases
        self.run = run  # (case, cov) -> None, raises Violation
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.doc = doc


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == prop]
