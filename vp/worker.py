"""Runs one shard of one sub-check in a fresh process; writes a JSON report."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core  # noqa: E402


def derive(seed, prop, sub, shard):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, sub, shard)).encode()).digest()
    return int.from_bytes(h[:7], "big")


CASE_CPU_S = 40  # cases take milliseconds; only a run that does not end comes near this


class Hang(BaseException):
    pass


def on_alarm(_sig, _frame):
    raise Hang()


def execute(sub, case, cov):
    """Run one case. Raises Violation, Hang, or a harness exception."""
    cov.begin(case)
    t0 = time.process_time()
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        _execute(sub, case, cov)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        cov.maximum("case_cpu_s", time.process_time() - t0)


def _execute(sub, case, cov):
    try:
        # hand the check its own copy: no state shared between cases
        sub.run(json.loads(json.dumps(case)), cov)
    except core.Violation:
        raise
    except core.Discard:
        cov.discarded += 1
    except (Exception, SystemExit) as e:
        if core.through_sut(e):
            raise core.Violation(
                "unexpected %s in %s: %s" % (type(e).__name__, core.sut_where(e), str(e)[:200])
            ) from e
        if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # what the code returned has the wrong form: the check could not even take it apart
            fr = traceback.extract_tb(e.__traceback__)[-1]
            raise core.Violation(
                "the result has an unexpected form: %s: %s (used in %s:%s)"
                % (type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)
            ) from e
        raise
    cov.end()


def main():
    prop, subname, shard, nshards, seed, n, out = sys.argv[1:8]
    shard, nshards, seed, n = int(shard), int(nshards), int(seed), int(n)
    core.setup_import()
    mod = importlib.import_module("checks." + prop.lower())
    sub = [s for s in mod.SUBS if s.name == subname][0]
    cov = core.Cov()
    rep = dict(sub=subname, shard=shard, status="ok")

    def finish():
        rep["cov"] = cov.dump()
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(rep, f)
        os.replace(tmp, out)

    def hung(case, e):
        if core.through_sut(e):
            rep.update(status="violation", case=case,
                       msg="did not end within %d s of processor time (in %s)" % (CASE_CPU_S, core.sut_where(e)))
        else:
            rep.update(status="error", case=case, msg="the check itself did not end:\n" + traceback.format_exc())
        finish()

    # saved cases first
    if shard == 0:
        path = os.path.join(core.VERIF, "corpus", prop + ".json")
        if os.path.exists(path):
            for item in json.load(open(path)):
                if item["sub"] != subname:
                    continue
                try:
                    execute(sub, item["case"], cov)
                except core.Violation as e:
                    rep.update(status="violation", case=item["case"], msg=str(e), saved=True)
                    return finish()
                except Hang as e:
                    return hung(item["case"], e)
                except Exception:
                    rep.update(status="error", msg=traceback.format_exc(), case=item["case"])
                    return finish()

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 40
    last = {}

    @hypothesis.seed(derive(seed, prop, subname, shard))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(sub.strategy())
    def test(case):
        try:
            execute(sub, case, cov)
        except Hang as e:
            # not shrunk: every attempt would cost the full limit
            hung(case, e)
            os._exit(0)
        except core.Violation as e:
            last["case"], last["msg"] = case, str(e)
            if "first" not in last:
                last["first"] = case
                last["first_n"] = cov.evaluations
            raise

    try:
        test()
    except core.Violation:
        rep.update(status="violation", case=last["case"], msg=last["msg"], first_n=last.get("first_n"))
    except Exception as e:
        if last:  # not reproducible inside the process: state leaks between cases
            rep.update(
                status="violation",
                case=last["first"],
                msg=last["msg"] + " [depends on earlier cases: %s]" % type(e).__name__,
                flaky=True,
            )
        else:
            rep.update(status="error", msg=traceback.format_exc())
    finish()


if __name__ == "__main__":
    main()
