"""Coordinates depend only on the metric and extend point by point."""
import numpy as np

from .. import gen, pipe, ref, same
from ..core import Skip

RULE = ("pairs of runs on transformed data: rotations with reflections and translations, zero padding, rescaling (exact and inexact), relabelling of all points but the "
        "first, adding, duplicating, reordering and removing non-landmark points, through point clouds and distance matrices, all five classes; non-trivial: landmarks, diagrams, "
        "radius and coordinates of the pair compared; distinct by (dataset, transformation, coordinates, class)")
MIN_DISTINCT = {"quick": 300, "thorough": 3000}
NEED = ["isometry", "rescaling", "relabelling", "points added", "points removed", "points duplicated"]
CASE_TIMEOUT = 90
COST = {"jit": 5.0, "bc": 5.0, "interp": 0.4}
ASSUMPTIONS = ["pairs are compared when no farthest-point choice, no order of two landmark distances and no comparison with the radius can depend on rounding"]

TRANS = ["isometry", "rescaling", "relabelling", "points added", "points removed", "points duplicated"]


def cases(rng, tier):
    n = 550 if tier == "quick" else 6500
    for i in range(n):
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.3, 0.2, 0.17, 0.17, 0.16]))
        s = pipe.case(rng, cls, **({"mmax": 13, "nmin": 20, "nmax": 50} if cls == "cplx" else {"mmax": 20, "nmin": 24, "nmax": 90}))
        s["rep"] = str(rng.choice(["pc", "pc", "dm"]))
        s.pop("store", None)
        s["nclass"] = int(rng.choice([1, 1, 2, 3]))
        s["vs"] = int(rng.integers(1 << 30))
        if rng.random() < 0.25:
            s["data"]["outliers"] = int(rng.integers(1, 4))
        if i % 40 == 0 and cls in ("circ", "tor"):
            s["data"] = {"space": "circle", "n": 1500, "seed": s["vs"]}
            s.update(rep="pc", m=24)
        if i % 40 == 7 and cls != "cplx":
            rep = s["rep"]
            s = dict(pipe.crowd(rng, s, "landmarks"), rep=rep)
            yield "jit", s
            continue
        yield ("jit" if rng.random() < 0.1 else "interp"), s


def geo(obj, s, arr, dm, D):
    g = pipe.Geo.__new__(pipe.Geo)
    g.idx = pipe.landmarks(obj, s, arr, dm)
    g.m = len(g.idx)
    g.DL = np.asarray(D, float)[g.idx]
    g.DLL = g.DL[:, g.idx]
    g.N = g.DL.shape[1]
    g.scale = ref.top(g.DL)
    return g


def run(spec, ctx):
    rng = np.random.default_rng(spec["vs"])
    arr, dm, D, rep = pipe.arrays(spec)
    D = np.asarray(D, float)
    N = len(D)
    L, _ = same.unique_greedy(D, min(spec["m"], N))
    if L is None:
        raise Skip("sampling depends on rounding")
    m = len(L)
    s = dict(spec, m=m)
    if m >= N:
        s["m"] = 10 ** 6
    obj = pipe.construct(ctx, s, arr, dm)
    g = geo(obj, s, arr, dm, D)
    full = m >= N
    if not full:
        ctx.check(np.array_equal(g.idx, L), "landmarks are a farthest point sample", lambda: "landmarks %s, farthest point sample %s" % (g.idx[:9], L[:9]))
    dim = pipe.DIM[spec["cls"]]
    tab = pipe.class_table(obj, dim)
    if not tab:
        raise Skip("no class")
    k, std = same.pick(tab, spec)
    A = same.run(ctx, obj, spec, k, std, g.m)
    if A.r is None:
        raise Skip("radius not observed")
    near = min(np.min(np.abs(g.DL - A.r)), np.min(np.abs(g.DLL[np.triu_indices(g.m, 1)] - 2 * A.r))) < 1e-6 * g.scale
    if near:
        raise Skip("distance ties with the scale")
    cov = (g.DL < A.r).any(0)
    if cov.sum() < 3:
        raise Skip("nothing covered")
    ties = pipe.subtle_ties(g.DLL)
    lab = same.labels(g, A.r)
    others = np.setdiff1d(np.arange(N), g.idx)
    for t in TRANS:
        exact = dm
        scale = 1.0
        src = np.arange(N)  # point of the original data at each position, -1: new
        D2 = D
        if t == "isometry":
            if dm:
                continue
            d0 = arr.shape[1]
            d1 = d0 + int(rng.choice([0, 0, 1, 3]))
            Q = np.linalg.qr(rng.normal(size=(d1, d1)))[0]
            arr2 = np.c_[arr, np.zeros((N, d1 - d0))] @ Q + rng.normal(size=d1) * rng.choice([0, 1, 10, 100]) * g.scale
        elif t == "rescaling":
            scale = float(rng.choice([2.0 ** rng.integers(-12, 13), 2.0 ** rng.integers(-36, 37), 2.0 ** rng.integers(-3, 4), 3.0, 0.1]))
            exact = bool(np.log2(scale) == np.rint(np.log2(scale)))
            arr2 = arr * scale
            D2 = D * scale
        elif t == "relabelling":
            if full:
                continue
            src = np.r_[0, 1 + rng.permutation(N - 1)]
            arr2 = arr[src] if not dm else arr[src][:, src]
            exact = False if not dm else exact
        elif t == "points added":
            if dm or full:
                continue
            q = int(rng.choice([1, 5, N // 2, 2 * N]))
            w = arr[rng.integers(0, N, q)]
            new = w + rng.normal(size=w.shape) * rng.choice([1e-2, 1e-1]) * g.scale * rng.choice([1e-2, 1.0])
            arr2 = np.r_[arr, new]
            src = np.r_[np.arange(N), -np.ones(q, int)]
            perm = np.r_[0, 1 + rng.permutation(N + q - 1)]
            arr2, src = arr2[perm], src[perm]
        elif t == "points removed":
            if full or len(others) < 2:
                continue
            drop = rng.permutation(others)[: int(rng.integers(1, len(others)))]
            src = np.setdiff1d(np.arange(N), drop)
            arr2 = arr[src] if not dm else arr[src][:, src]
        else:
            if full:
                continue
            q = int(rng.integers(1, N))
            src = np.r_[np.arange(N), rng.integers(0, N, q)]
            arr2 = arr[src] if not dm else arr[src][:, src]
        if dm:
            D2 = np.asarray(arr2, float)
        elif t not in ("isometry", "rescaling"):
            D2 = ref.dist(arr2)
        elif t == "isometry":
            D2 = D
        if t not in ("isometry", "rescaling"):
            if g.m >= len(arr2):
                continue
            # duplicates of landmarks are landmarks as well as the landmarks
            L2, _ = same.unique_greedy(D2, g.m) if t != "points duplicated" else (g.idx, True)
            if L2 is None or len(L2) < g.m or not np.array_equal(src[L2], g.idx):
                ctx.ev("other landmarks")
                continue
        o2 = pipe.construct(ctx, s, arr2, dm)
        g2 = geo(o2, s, arr2, dm, D2)
        what = "%s %s after %s%s, classes %s" % (spec["cls"], rep, t, " by %g" % scale if scale != 1 else "", k)
        if t == "points duplicated":
            okl = np.array_equal(src[g2.idx], g.idx)
        else:
            okl = len(g2.idx) == len(g.idx) and np.array_equal(src[g2.idx], g.idx)
        if not ctx.check(okl, t + ": landmarks", lambda: "%s: landmarks %s become %s" % (what, g.idx[:9], src[g2.idx][:9])):
            continue
        t2 = pipe.class_table(o2, dim)
        from .p01 import match

        eps = 2e-5 * g.scale
        e = match([(b, d) for b, d, _ in tab], [(b / scale, d / scale) for b, d, _ in t2], eps)
        ctx.check(e <= eps, t + ": diagrams", lambda: "%s: diagrams differ by %g" % (what, e))
        if not same.same_rows(tab, t2, k):
            if ties or not exact:
                ctx.ev("not compared: other representatives")
            else:
                ctx.viol(t, "%s: representatives change" % what)
            continue
        B = same.run(ctx, o2, spec, k, std, g.m, label=t, red=t in ("isometry", "rescaling", "relabelling"))
        ctx.check(B.r is not None and abs(B.r / scale - A.r) < 1e-6 * A.r, t + ": radius", lambda: "%s: radius %g becomes %g" % (what, A.r, B.r))
        # positions of covered points in both
        pos = np.nonzero(src >= 0)[0]
        ia, ib = src[pos], pos
        w = cov[ia]
        same.compare(ctx, spec, A, B, (ia[w], ib[w]), lab[ia][w], t, what, exact=t.startswith("points"))
        FB = B.full if spec["cls"] in pipe.PROJ else B.full.T
        ctx.check(np.isnan(FB[ib[~w]]).all(), t, lambda: "%s: uncovered points get coordinates" % what)
        if t in ("points added",):
            U2 = (g2.DL < B.r).any(0)
            fin = np.isfinite(FB).all(1)
            nr = np.min(np.abs(g2.DL - B.r), 0) > 1e-6 * g.scale
            ctx.check(np.array_equal(fin[nr], U2[nr]), t, lambda: "%s: added points" % what)
        ctx.sig(spec["data"], t, spec["cls"], k, g.m)
