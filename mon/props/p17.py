"""Landmark subsampling is a farthest point sample with true distances."""
import numpy as np

from .. import gen, ref
from ..core import Skip

RULE = ("random point clouds (1..12 dimensions, repeated and integer points, disconnected clusters, large offsets), spheres with antipodal pairs, distance matrices in several dtypes, landmark counts from 1 to N, "
        "neighbour counts from 1 to N, three cross-similarity functions; non-trivial: one sample whose every step was compared with all distances; distinct by (data, function, count)")
MIN_DISTINCT = {"quick": 700, "thorough": 8000}
NEED = ["csm", "projarc", "farthest", "farthest (projective)", "farthest (custom)", "distance matrix", "geodesic", "geodesic disconnected", "repeated points", "all points chosen", "one landmark"]
COST = {"jit": 0.05, "bc": 0.05, "interp": 0.05}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["geodesic cases in which rounding or ties make the k nearest neighbours ambiguous decide only the order and the permutation"]


def cases(rng, tier):
    n = 4800 if tier == "quick" else 20000
    for i in range(n):
        kind = str(rng.choice(["pc", "proj", "custom", "dm", "geo", "geo", "csm"]))
        s = {"kind": kind, "vs": int(rng.integers(1 << 30)), "N": int(rng.choice([1, 2, 3, int(rng.integers(4, 60)), int(rng.integers(4, 60)), int(rng.integers(60, 200))])),
             "d": int(rng.integers(1, 12)), "rep": float(rng.choice([0, 0, 0.3, 0.7])), "shape": str(rng.choice(["normal", "int", "clusters", "line", "offset", "tiny", "circle"])),
             "M": float(rng.choice([0.0, 1.0, rng.uniform(), rng.uniform()])), "k": float(rng.choice([0.0, 1.0, rng.uniform(), rng.uniform(0, 0.3)])), "dtype": str(rng.choice(["f8", "f8", "f4", "i8", "i4"]))}
        yield "interp", s


def cloud(spec, rng):
    N, d = spec["N"], spec["d"]
    sh = spec["shape"]
    X = rng.normal(size=(N, d))
    if sh == "int":
        X = np.round(2 * X)
    elif sh == "clusters":
        X = 0.2 * X + 8 * rng.integers(0, 3, N)[:, None]
    elif sh == "line":
        X[:, 1:] = 0
    elif sh == "offset":
        X = X + 50
    elif sh == "tiny":
        X = X * 1e-6
    elif sh == "circle":
        t = rng.uniform(0, 2 * np.pi, N)
        X = np.zeros((N, max(d, 2)))
        X[:, 0], X[:, 1] = np.cos(t), np.sin(t)
    nr = int(spec["rep"] * N)
    if nr:
        X[rng.permutation(N)[:nr]] = X[rng.integers(0, N, nr)]
    return X


def l1(X, Y):
    return np.abs(X[:, None, :] - Y[None, :, :]).sum(-1)


def steps(ctx, name, idx, dist, tol, lam=None, exact=False):
    """every selected point distinct and the farthest of all the points from those before it"""
    idx = [int(i) for i in idx]
    N = dist.shape[1]
    ok = ctx.check(idx[0] == 0, name, lambda: "starts at point %d" % idx[0])
    ok &= ctx.check(len(set(idx)) == len(idx) and min(idx) >= 0 and max(idx) < N, name, lambda: "points selected more than once: %s" % idx)
    if not ok:
        raise Skip("bad sample")
    ds = np.array(dist[idx[0]], float)
    taken = [idx[0]]
    for q, i in enumerate(idx[1:], 1):
        free = np.setdiff1d(np.arange(N), taken)
        best = ds[free].max()
        t = tol(max(best, 0)) if np.isfinite(best) else 0
        good = ds[i] >= best - t if np.isfinite(best) else ds[i] == best
        if not ctx.check(good, name, lambda: "step %d selects point %d at distance %r although another point is at %r" % (q, i, ds[i], best)):
            return
        if lam is not None:
            same = lam[q] == ds[i] or abs(lam[q] - ds[i]) <= tol(ds[i])
            if not ctx.check(same, name, lambda: "insertion radius of landmark %d reported %r, is %r" % (q, lam[q], ds[i])):
                return
        taken.append(i)
        ds = np.minimum(ds, dist[i])


def rows_equal(ctx, name, got, want, tol):
    got = np.asarray(got, float)
    if not ctx.check(got.shape == want.shape, name, lambda: "distances have shape %s, expected %s" % (got.shape, want.shape)):
        return
    with np.errstate(invalid="ignore"):
        bad = ~((got == want) | (np.abs(got - want) <= tol(want)))
    ctx.check(not bad.any(), name, lambda: "%d reported distances are wrong, e.g. %r instead of %r" % (bad.sum(), got[bad][0], want[bad][0]))


def run(spec, ctx):
    from dreimac.utils import GeometryUtils as gu

    rng = np.random.default_rng(spec["vs"])
    X = cloud(spec, rng)
    N = len(X)
    M = 1 + int(round(spec["M"] * (N - 1)))
    if spec["rep"] and N > 4:
        ctx.ev("repeated points")
    if M == N:
        ctx.ev("all points chosen")
    if M == 1:
        ctx.ev("one landmark")
    kind = spec["kind"]
    sq = float((X ** 2).sum(1).max()) or 1.0

    # the quadratic formula for Euclidean distances: errors of size eps |x|^2 in the square
    def tol(v):
        v = np.where(np.isfinite(v), v, 0)
        e = 4e-15 * X.shape[1] * sq + 1e-15 * sq
        return e / np.maximum(v, np.sqrt(e)) + 1e-14 * v

    if kind == "csm":
        Y = cloud(dict(spec, N=max(1, N // 2)), rng)
        sq = max(sq, float((Y ** 2).sum(1).max()))
        rows_equal(ctx, "csm", ctx.real("get_csm", gu.get_csm, X, Y), ref.dist(X, Y), tol)
        rows_equal(ctx, "csm", ctx.real("get_ssm", gu.get_ssm, X), ref.dist(X), tol)
        d = max(2, spec["d"])
        U, V = rng.normal(size=(N, d)), rng.normal(size=(max(1, N // 2), d))
        U /= np.linalg.norm(U, axis=1)[:, None]
        V /= np.linalg.norm(V, axis=1)[:, None]
        V[: len(V) // 3] = -U[: len(V) // 3]
        A = ctx.real("get_csm_projarc", gu.get_csm_projarc, U, V)
        projarc(ctx, A, U, V)
        ctx.sig("csm", spec["vs"], N)
    elif kind in ("pc", "custom"):
        csm = None if kind == "pc" else l1
        if kind == "custom":
            tol = lambda v: 1e-13 * np.sqrt(sq) * X.shape[1] + 0 * np.asarray(v)  # noqa
        X0 = X.copy()
        r = ctx.real("get_greedy_perm_pc", gu.get_greedy_perm_pc, X, M) if csm is None else ctx.real("get_greedy_perm_pc", gu.get_greedy_perm_pc, X, M, l1)
        D = ref.dist(X) if csm is None else l1(X, X)
        name = "farthest" if csm is None else "farthest (custom)"
        common(ctx, name, r, X, M, D, tol)
        ctx.check(np.array_equal(X, X0), name, "point cloud modified")
        ctx.sig(kind, spec["vs"], M)
    elif kind == "proj":
        d = max(2, spec["d"])
        U = rng.normal(size=(N, d))
        U /= np.linalg.norm(U, axis=1)[:, None]
        nr = int(spec["rep"] * N)
        U[rng.permutation(N)[:nr]] = rng.choice([-1, 1], nr)[:, None] * U[rng.integers(0, N, nr)]
        D = np.arccos(np.clip(np.abs(U @ U.T), 0, 1))
        r = ctx.real("get_greedy_perm_pc", gu.get_greedy_perm_pc, U, M, gu.get_csm_projarc)
        common(ctx, "farthest (projective)", r, U, M, D, lambda v: 5e-8 + 0 * np.asarray(v))
        projarc(ctx, np.asarray(r["D"]), U[np.asarray(r["perm"])], U)
        ctx.sig(kind, spec["vs"], M)
    elif kind == "dm":
        D = ref.dist(X)
        dt = spec["dtype"]
        D = (np.round(D / (D.max() or 1) * 20) if dt[0] == "i" else D).astype(dt)
        if rng.random() < 0.3:
            D = np.asfortranarray(D)
        D0 = D.copy()
        r = ctx.real("get_greedy_perm_dm", gu.get_greedy_perm_dm, D, M)
        idx = np.asarray(r["perm"])
        lam = np.asarray(r["lambdas"], float)
        ctx.check(len(idx) == M and len(lam) == M, "distance matrix", lambda: "%d landmarks instead of %d" % (len(idx), M))
        z = lambda v: 0 * np.asarray(v, float)  # noqa
        steps(ctx, "distance matrix", idx, D0.astype(float), z, lam)
        rows_equal(ctx, "distance matrix", r["DLandmarks"], D0.astype(float)[idx], z)
        ctx.check(np.array_equal(D, D0), "distance matrix", "distance matrix modified")
        ctx.sig(kind, spec["vs"], M, dt)
    else:
        geodesic(spec, ctx, gu, X, M)


def projarc(ctx, A, U, V):
    A = np.asarray(A)
    want = np.abs(U @ V.T)
    ok = A.shape == want.shape and np.isfinite(A).all() and A.min() >= 0 and A.max() <= np.pi / 2 + 1e-12
    ctx.check(ok, "projarc", lambda: "arcs of shape %s not between 0 and pi/2" % (A.shape,))
    if ok:
        e = np.abs(np.cos(A) - want).max()
        ctx.check(e < 1e-12, "projarc", lambda: "cosine of the arcs off by %g" % e)


def common(ctx, name, r, X, M, D, tol):
    idx, lam = np.asarray(r["perm"]), np.asarray(r["lambdas"], float)
    if not ctx.check(len(idx) == M and len(lam) == M, name, lambda: "%d landmarks instead of %d" % (len(idx), M)):
        return
    steps(ctx, name, idx, D, tol, lam)
    ctx.check(np.array_equal(np.asarray(r["Y"]), X[idx]), name, "reported landmarks are not the selected points")
    rows_equal(ctx, name, r["D"], D[idx], tol)


def geodesic(spec, ctx, gu, X, M):
    N = len(X)
    k = 1 + int(round(spec["k"] * (N - 1)))
    if N < 2:
        raise Skip("one point")
    X0 = X.copy()
    dist, perm = ctx.real("landmark_geodesic_distance", gu.landmark_geodesic_distance, X, M, k)
    dist, perm = np.asarray(dist, float), np.asarray(perm)
    ctx.check(np.array_equal(X, X0), "geodesic", "point cloud modified")
    if not ctx.check(dist.shape == (M, N) and sorted(int(i) for i in perm) == list(range(N)), "geodesic", lambda: "shape %s, order %s" % (dist.shape, perm)):
        return
    D = ref.dist(X)
    S = np.sort(D, 1)
    amb = k < N and bool(np.any(S[:, k] - S[:, k - 1] <= 1e-9 * (1 + S[:, k])))
    G = np.full((N, N), np.inf)
    nn = np.argsort(D, 1, kind="stable")[:, :k]
    for i in range(N):
        G[i, nn[i]] = D[i, nn[i]]
    G = np.minimum(G, G.T)
    np.fill_diagonal(G, 0)
    for j in range(N):
        G = np.minimum(G, G[:, j][:, None] + G[j][None, :])
    tol = lambda v: 1e-9 * np.where(np.isfinite(v), v, 0) + 1e-12  # noqa
    if amb:
        # only what is certain: nobody is closer than along the straight line, first rows consistent
        with np.errstate(invalid="ignore"):
            ctx.check(np.all(dist >= D[perm[:M]][:, perm] * (1 - 1e-9) - 1e-12), "geodesic", "a path shorter than the straight line")
        raise Skip("ambiguous neighbours")
    if np.isinf(G).any():
        ctx.ev("geodesic disconnected")
    steps(ctx, "geodesic", perm[:M], G, tol)
    rows_equal(ctx, "geodesic", dist, G[perm[:M]][:, perm], tol)
    ctx.sig("geo", spec["vs"], M, k)
