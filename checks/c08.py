"""C08: search spaces never modify the caller's data or each other."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gen
from vp import space as S
from vp.core import Sub, require

RULE = (
    "A case is a sequence of operations over several spaces that share the caller's arrays: build (also twice from "
    "the same arrays), cut, assign a center, deep-copy, read the center, run a driver. After every operation all "
    "arrays the caller ever passed in or received are compared with snapshots, and every space not touched by the "
    "operation with its earlier fingerprint (center, width, widths of probe cuts). Non-trivial: at least two "
    "successful cuts and at least two live spaces."
)


@st.composite
def case_(draw, lo=2, hi=5):
    n = draw(st.integers(lo, hi))
    narr = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["new", "new", "cut", "cut", "cut", "cut", "set_xc", "deepcopy", "read", "drive", "switch"]))
        ops.append(dict(op=k, i=draw(st.integers(0, 7)), j=draw(st.integers(0, 7)), sel=draw(st.integers(0, 7)),
                        cut=draw(S.cut_case(n)) if k == "cut" else None,
                        g=gen.vec(draw, n) if k == "drive" else None))
    return dict(
        n=n,
        centers=[gen.reals(draw, n, 2.0) for _ in range(narr)],
        int_center=draw(st.booleans()),
        diags=[[0.5 + abs(r) for r in gen.reals(draw, n, 3.0)] for _ in range(narr)],
        ops=ops,
    )


def fingerprint(sp, n, dirs):
    x = S.as_vec(sp.xc(), n)
    out = [tuple(x), S.as_num(sp.tsq(), "tsq")]
    for d in dirs:
        out.append(S.tsq_along(sp, d))
    c = copy.deepcopy(sp)  # a pair shows whether parallel cuts are on
    t = max(0.0, out[-1]) ** 0.5
    out.append(S.as_status(c.update_bias_cut((np.array(dirs[-1]), (0.1 * t, 0.3 * t)))) if t > 0 else None)
    out.append(tuple(S.as_vec(c.xc(), n)))
    return out


def run(case, cov):
    from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim
    from ellalgo.ell_config import Options

    n = case["n"]
    cl = S.classes()
    centers = [np.array(c) for c in case["centers"]]
    if case["int_center"]:
        centers.append(np.arange(n))
    diags = [np.array(d) for d in case["diags"]]
    tracked = []  # (what, array, snapshot)

    def track(what, arr):
        if isinstance(arr, np.ndarray):
            tracked.append((what, arr, arr.copy()))

    for c in centers:
        track("center array passed in", c)
    for d in diags:
        track("shape array passed in", d)
    dirs = [np.eye(n)[0], np.eye(n)[-1], np.ones(n), np.arange(1.0, n + 1)]
    live = []  # [space, fingerprint]
    ncuts = 0

    def check(touched, what):
        for w, arr, snap in tracked:
            require(np.array_equal(arr, snap), "%s changed by: %s (%s became %s)", w, what, snap.tolist(),
                    arr.tolist())
        for k, item in enumerate(live):
            fp = fingerprint(item[0], n, dirs)
            if k != touched:
                require(fp == item[1], "space %d changed by an operation on another object: %s", k, what)
            item[1] = fp
            fp2 = fingerprint(item[0], n, dirs)
            require(fp2 == fp, "probing a deep copy changed the original")

    for op in case["ops"]:
        k = op["op"]
        touched = None
        if k == "new" or not live:
            if len(live) >= 4:
                continue
            c = centers[op["i"] % len(centers)]
            d = diags[op["j"] % len(diags)]
            cls = cl["ell" if op["sel"] % 2 == 0 else "stable"]
            sp = cls(2.0 if op["sel"] % 3 == 0 else d, c)
            if op["sel"] == 5:
                sp.no_defer_trick = True
            live.append([sp, fingerprint(sp, n, dirs)])
            require(np.array_equal(S.as_vec(sp.xc(), n), c.astype(float)), "center of a new space is not the given one")
            touched = len(live) - 1
            what = "construction"
        elif k == "cut":
            touched = op["i"] % len(live)
            sp = live[touched][0]
            cut = op["cut"]
            if not S.in_domain(cut) or cut["kind"] == "bias" and cut["a"][0] < 0 and not sp.helper.use_parallel_cut:
                continue
            g = S.grad_of(cut)
            t = S.tsq_along(sp, g.astype(float))
            if not t > 1e-12 * float(np.dot(g.astype(float), g.astype(float))):
                continue
            beta = S.beta_of(cut, t ** 0.5)
            track("gradient passed in", g)
            if isinstance(beta, (np.ndarray, list)):
                keep = list(beta)
            track("offset array passed in", beta)
            before = S.as_vec(sp.xc(), n)
            st_ = S.apply_cut(sp, cut, g, beta)
            if isinstance(beta, list):
                require(beta == keep, "offset list passed in was changed")
            if st_ == "Success":
                ncuts += 1
            what = "%s cut %s (%s)" % (cut["kind"], cut["a"], st_)
        elif k == "set_xc":
            touched = op["i"] % len(live)
            sp = live[touched][0]
            x = centers[op["j"] % len(centers)]
            old = live[touched][1]
            sp.set_xc(x)
            fp = fingerprint(sp, n, dirs)
            require(np.array_equal(S.as_vec(sp.xc(), n), x.astype(float)), "set_xc did not replace the center")
            require(fp[1:-1] == old[1:-1], "set_xc changed more than the center")
            what = "assigning a center"
            cov.tag("assigned a center")
        elif k == "deepcopy":
            if len(live) >= 4:
                continue
            src = live[op["i"] % len(live)]
            sp = copy.deepcopy(src[0])
            fp = fingerprint(sp, n, dirs)
            require(fp == src[1], "a deep copy differs from its original")
            live.append([sp, fp])
            touched = len(live) - 1
            what = "deep copy"
            cov.tag("deep copy")
        elif k == "switch":  # options of one space; its own results may change, the others' not
            touched = op["i"] % len(live)
            sp = live[touched][0]
            if op["sel"] % 2:
                sp.helper.use_parallel_cut = bool(op["j"] % 2)
            else:
                sp.no_defer_trick = bool(op["j"] % 2)
            what = "switching an option"
            cov.tag("switched an option")
        elif k == "read":
            sp = live[op["i"] % len(live)][0]
            x = sp.xc()
            track("center returned earlier", x)
            what = "reading the center"
        elif k == "drive":
            touched = op["i"] % len(live)
            sp = live[touched][0]
            g0 = np.array(op["g"])

            class Feas:
                calls = 0

                def assess_feas(self, x):
                    self.calls += 1
                    track("center given to an oracle", x)
                    return None if self.calls > 2 else (g0 * (-1) ** self.calls, 0.0)

            class Opt:
                def assess_optim(self, x, gamma):
                    track("center given to an oracle", x)
                    return (g0, 0.0), gamma + 1.0

            t = S.tsq_along(sp, g0)
            if not t > 1e-10:
                continue
            o = Options()
            o.max_iters = 3
            if op["sel"] % 2:
                x, _ = cutting_plane_feas(Feas(), sp, o)
            else:
                x, _, _ = cutting_plane_optim(Opt(), sp, 0.0, o)
            if x is not None:
                track("point returned by a driver", x)
            what = "driver run"
            cov.tag("driver run")
        check(touched, what)
    if ncuts >= 2 and len(live) >= 2:
        cov.nontrivial()
    cov.tag("spaces: %d" % len(live))


SUBS = [
    Sub("sequences", case_, run, quick=3000, shards=8),
    Sub("large", lambda: case_(6, 40), run, quick=60, thorough=1500, shards=8),
]
