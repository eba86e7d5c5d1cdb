#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only SUB] | --replay FILE

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ,
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    OPENBLAS_NUM_THREADS="1",
    OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
)


def reexec():
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0" \
            or sys.prefix != "/opt/venv":
        if os.environ.get("VP_REEXEC") != "1":
            os.execve(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:], dict(ENV, VP_REEXEC="1"))


def replay(path):
    sys.path.insert(0, VERIF)
    from vp import core, worker

    rec = json.load(open(path))
    core.setup_import()
    mod = importlib.import_module("checks." + rec["property"].lower())
    sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
    try:
        worker.execute(sub, rec["case"], core.Cov())
    except core.Violation as e:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("  %s" % e)
        return 1
    except worker.Hang as e:
        if not core.through_sut(e):
            raise
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("  did not end within %d s of processor time" % worker.CASE_CPU_S)
        return 1
    print("replay: property %s holds on this case" % rec["property"])
    return 0


def selftest():
    """setup: nothing to build (pure Python, run from /repo/src); make sure all is importable"""
    sys.path.insert(0, VERIF)
    import hypothesis, mpmath, numpy, scipy  # noqa: E401,F401

    names = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith("c"))
    for n in names:
        importlib.import_module("checks." + n)
    print("setup: %d checks importable" % len(names))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="import everything once, decide nothing")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.path.insert(0, VERIF)
    # the parent must know the sub-checks; listing them imports no code under test
    mod = importlib.import_module("checks." + prop.lower())
    subs = [s for s in mod.SUBS if not a.only or s.name == a.only]
    jobs = []
    for s in subs:
        total = 2 * s.quick if tier == "quick" else max(s.thorough, 2 * s.quick)
        total = max(1, int(total * a.scale))
        shards = s.shards if tier == "quick" else max(8, s.shards)
        shards = max(1, min(shards, total))
        for k in range(shards):
            jobs.append((s.name, k, shards, total // shards + (1 if k < total % shards else 0)))
    ncpu = a.jobs or min(8, os.cpu_count() or 1)
    limit = 800 if tier == "quick" else 24 * 3600
    reports, errors, running = [], [], []
    jobs_left = list(jobs)
    stop = False
    with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
        while jobs_left or running:
            while jobs_left and len(running) < ncpu and not stop:
                name, k, shards, n = jobs_left.pop(0)
                out = os.path.join(tmp, "%s-%d.json" % (name, k))
                log = open(out + ".log", "wb")
                p = subprocess.Popen(
                    [PY, os.path.join(VERIF, "vp", "worker.py"), prop, name, str(k), str(shards),
                     str(seed), str(n), out],
                    cwd=VERIF, env=ENV, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                )
                running.append((p, out, name, k, n))
            if stop:
                jobs_left = []
            time.sleep(0.02)
            for item in list(running):
                p, out, name, k, n = item
                if p.poll() is None:
                    continue
                running.remove(item)
                if os.path.exists(out):
                    rep = json.load(open(out))
                    rep["n"] = n
                    reports.append(rep)
                    if rep["status"] == "violation":
                        stop = True
                    elif rep["status"] == "error":
                        errors.append("%s/%d: %s" % (name, k, rep["msg"]))
                else:
                    tail = open(out + ".log", "rb").read()[-1500:].decode(errors="replace")
                    errors.append("%s/%d: worker died (rc %s): %s" % (name, k, p.returncode, tail))
            if stop and running:
                # a violation is in hand: the other shards are not needed
                for p, *_ in running:
                    p.kill()
                    p.wait()
                running = []
            if time.time() - t0 > limit and running:
                for p, *_ in running:
                    p.kill()
                    p.wait()
                errors.append("time limit of %d s reached" % limit)
                running, jobs_left = [], []

    bad = [r for r in reports if r["status"] == "violation"]
    cov = merge(reports)
    replay_path = None
    if bad:
        r = bad[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rec = dict(property=prop, sub=r["sub"], case=r["case"], msg=r["msg"], seed=seed, tier=tier,
                   shard=r["shard"], shard_cases=r["n"], flaky=bool(r.get("flaky")),
                   how="python3 check.py --replay <this file>")
        text = json.dumps(rec, indent=1, sort_keys=True)
        replay_path = os.path.join(
            VERIF, "replays", "%s-%s-%s.json" % (prop, r["sub"], hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(replay_path, "w") as f:
            f.write(text + "\n")
    from vp.core import load_known

    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=cov["evaluations"],
            distinct_nontrivial=cov["distinct"],
            rule=mod.RULE,
            samples=cov["samples"][:8],
            per_subcheck=cov["per_sub"],
            classes=cov["classes"],
            discarded_outside_domain=cov["discarded"],
            known_finding_hits=cov["known"],
            maxima=cov["maxima"],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(bad),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(evp + ".tmp", evp)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, cov["evaluations"], cov["distinct"], time.time() - t0))
    for k in load_known(prop):
        if cov["known"].get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        print("  sub-check %s: %s" % (bad[0]["sub"], bad[0]["msg"]))
        return 1
    if errors:
        print("CHECK ERROR (not a verdict):\n" + "\n".join(errors)[:4000], file=sys.stderr)
        return 2
    return 0


def merge(reports):
    out = dict(evaluations=0, discarded=0, classes={}, samples=[], known={}, per_sub={}, maxima={})
    hashes = set()
    reports = sorted(reports, key=lambda r: (r["sub"], r["shard"]))
    for r in reports:
        c = r["cov"]
        out["evaluations"] += c["evaluations"]
        out["discarded"] += c["discarded"]
        for h in c["hashes"]:
            hashes.add(r["sub"] + h)
        ps = out["per_sub"].setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=set()))
        ps["evaluations"] += c["evaluations"]
        ps["distinct_nontrivial"].update(c["hashes"])
        for k, v in c["classes"].items():
            key = r["sub"] + ": " + k
            out["classes"][key] = out["classes"].get(key, 0) + v
        for k, v in c["maxima"].items():
            key = r["sub"] + ": " + k
            out["maxima"][key] = max(v, out["maxima"].get(key, float("-inf")))
        for k, v in c["known"].items():
            out["known"][k] = out["known"].get(k, 0) + v
        if r["shard"] == 0:
            for s in c["samples"][:1]:
                out["samples"].append(dict(sub=r["sub"], case=s))
    for ps in out["per_sub"].values():
        ps["distinct_nontrivial"] = len(ps["distinct_nontrivial"])
    out["distinct"] = len(hashes)
    return out


if __name__ == "__main__":
    reexec()
    sys.exit(main())
