"""C29: the demonstration command prints the requested Fibonacci number."""
import contextlib
import io
import logging
import os
import subprocess
import sys

from hypothesis import strategies as st

from vp.core import REPO_SRC, Sub, require

RULE = (
    "values: n from 1 to 60000 (small, around machine-word limits, large), compared with the fast-doubling identities "
    "in exact integers. command: n with any list of verbosity flags (short, long, repeated, before or after n, "
    "abbreviated), called in process; module: the same through 'python -m'. Non-positive n and malformed command lines "
    "must end in an error without a result line. Non-trivial: n greater than 12 (beyond the tested values), or a "
    "refused input."
)

ASSUMPTIONS = [
    "the interpreter refuses to print integers of more than 4300 digits (n beyond 20576), so the command is run below that",
    "assertions are enabled (the refusal of non-positive n is an assert)",
]

FLAGS = ["-v", "-vv", "--verbose", "--very-verbose"]


def fast(n):
    """F(n), F(n+1) by doubling"""
    if n == 0:
        return 0, 1
    a, b = fast(n // 2)
    c = a * (2 * b - a)
    d = a * a + b * b
    return (d, c + d) if n % 2 else (c, d)


def n_of(draw):
    return draw(st.one_of(st.integers(1, 100), st.integers(40, 50), st.integers(75, 100), st.integers(101, 2000), st.integers(2001, 12000),
                          st.sampled_from([1, 2, 46, 47, 48, 92, 93, 94, 1476, 1477, 5000, 20000, 20576])))


def brief(v):
    return ("%x" % v)[:60] + "... (hexadecimal)" if isinstance(v, int) and v.bit_length() > 300 else repr(v)[:80]


@st.composite
def val_case(draw):
    bad = draw(st.integers(0, 9)) == 9
    if bad:
        return dict(n=draw(st.integers(-50, 0)))
    return dict(n=draw(st.integers(20000, 60000)) if draw(st.integers(0, 29)) == 11 else n_of(draw))


def run_val(case, cov):
    from ellalgo.skeleton import fib

    n = case["n"]
    if n <= 0:
        try:
            v = fib(n)
        except Exception:
            cov.tag("refused")
            cov.nontrivial()
            return
        require(False, "fib(%d) returned %r instead of refusing", n, v)
    v = fib(n)
    want = fast(n)[0]
    require(isinstance(v, int) and v == want, "fib(%d) is %s, the n-th Fibonacci number is %s", n, brief(v), brief(want))
    cov.tag("n>92" if n > 92 else "n<=92")
    if n > 12:
        cov.nontrivial()


@st.composite
def cmd_case(draw):
    kind = draw(st.sampled_from(["ok", "ok", "ok", "ok", "ok", "nonpos", "junk"]))
    if kind == "ok":
        n = str(n_of(draw))
    elif kind == "nonpos":
        n = draw(st.sampled_from(["0", "-1", "-7"]))
    else:
        n = draw(st.sampled_from(["x", "1.5", "", "3 4", "1e2"]))
    k = draw(st.integers(0, 3))
    return dict(kind=kind, n=n, flags=[draw(st.sampled_from(FLAGS)) for _ in range(k)], pos=draw(st.integers(0, k)))


def judge(case, out, failed, where, cov):
    lines = [ln for ln in out.splitlines() if ln.startswith("The ") and "Fibonacci" in ln]
    if case["kind"] == "ok":
        want = "The %s-th Fibonacci number is %d" % (case["n"], fast(int(case["n"]))[0])
        require(not failed, "%s failed: %s", where, out[-200:])
        require(lines == [want], "%s printed %s, expected %s", where, str(lines)[:120], want[:120])
        cov.tag("%d flags" % len(case["flags"]))
        if int(case["n"]) > 12:
            cov.nontrivial()
    else:
        require(failed, "%s did not fail", where)
        require(not lines, "%s printed a result: %s", where, lines)
        cov.tag("refused " + case["kind"])
        cov.nontrivial()


def args_of(case):
    a = list(case["flags"])
    a.insert(case["pos"], case["n"])
    return a


def run_cmd(case, cov):
    from ellalgo.skeleton import main

    root = logging.getLogger()
    old, lev = list(root.handlers), root.level
    root.handlers[:] = []
    buf, failed = io.StringIO(), False
    args = args_of(case)
    argv = list(args)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            main(args)
    except (Exception, SystemExit) as e:
        failed = True
        buf.write("\n%s: %s" % (type(e).__name__, e))
    finally:
        root.handlers[:] = old
        root.setLevel(lev)
    require(args == argv, "main modified its arguments")
    judge(case, buf.getvalue(), failed, "main(%s)" % argv, cov)


def run_mod(case, cov):
    env = dict(os.environ, PYTHONPATH=REPO_SRC, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "ellalgo.skeleton"] + args_of(case), env=env, capture_output=True,
                       text=True, timeout=120, cwd="/")
    judge(case, p.stdout, p.returncode != 0, "python -m ellalgo.skeleton %s" % args_of(case), cov)


SUBS = [
    Sub("values", val_case, run_val, quick=1500, shards=2),
    Sub("command", cmd_case, run_cmd, quick=1200, shards=2),
    Sub("module", cmd_case, run_mod, quick=12, thorough=80, shards=4),
]
