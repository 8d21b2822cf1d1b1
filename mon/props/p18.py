"""Example generators sample the spaces they name."""
import numpy as np

from .. import ref
from ..core import Skip

RULE = ("every generator called with random parameters (sizes from 1 up, radii, widths, noise, seeds including 0, primes, patch sizes), twice with the random state disturbed in between; equations of the named space "
        "evaluated at every sample; non-trivial: one parameter setting of one generator; distinct by generator and parameters")
MIN_DISTINCT = {"quick": 300, "thorough": 3000}
NEED = ["line_patches", "moving_dot", "rp2_metric", "torus_3d", "klein_bottle_4d", "genus_two_surface", "trefoil", "bullseye", "three_circles", "sphere", "noisy_circle", "moore", "seed", "reproducible"]
COST = {"jit": 2.0, "bc": 2.0, "interp": 0.1}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["samplings of at least 200 random points are expected to reach every octant (failure probability below 1e-10)",
               "the Moore space distances are bounded below by the quotient metric and above by the straight and the radial paths"]
GENS = ["line_patches", "moving_dot", "rp2_metric", "torus_3d", "klein_bottle_4d", "trefoil", "sphere", "noisy_circle", "moore"]


def cases(rng, tier):
    yield "interp", {"gen": "bullseye"}
    yield "interp", {"gen": "three_circles"}
    yield "interp", {"gen": "genus_two_surface"}
    n = 700 if tier == "quick" else 7000
    for i in range(n):
        g = str(rng.choice(GENS))
        s = {"gen": g, "vs": int(rng.integers(1 << 30)), "n": int(rng.choice([1, 2, 3, int(rng.integers(4, 200)), int(rng.integers(4, 200)), int(rng.integers(200, 1500))]))}
        s["R"] = float(rng.choice([2.0, 5.0, rng.uniform(0.5, 10)]))
        s["r"] = float(s["R"] * rng.choice([0.3, 0.5, rng.uniform(0.01, 0.95)]))
        s["seed"] = [None, 0, 1, int(rng.integers(0, 1 << 31)), int(rng.integers(1 << 31, (1 << 32) - 2))][int(rng.integers(5))]
        s["dim"] = int(rng.choice([2, 3, 10, int(rng.integers(2, 25))]))
        s["a"], s["b"] = int(rng.integers(1, 12)), int(rng.integers(1, 10))
        s["sigma"] = float(rng.choice([0.25, 0.5, 1.0, rng.uniform(0.2, 4), rng.uniform(4, 30)]))
        s["noise"] = float(rng.choice([0.0, 0.2, 1.0, rng.uniform(0, 1)]))
        s["prime"] = int(rng.choice([2, 3, 5, 7, 11]))
        yield ("jit" if g == "moore" and rng.random() < 0.2 else "interp"), s


def run(spec, ctx):
    from dreimac import GeometryExamples as ge

    g = spec["gen"]
    if g in ("bullseye", "three_circles", "genus_two_surface"):
        fn, kw = getattr(ge, g), {}
    elif g == "line_patches":
        fn, kw = ge.line_patches, dict(dim=spec["dim"], n_angles=spec["a"], n_offsets=spec["b"], sigma=spec["sigma"])
    elif g == "moving_dot":
        fn, kw = ge.moving_dot, dict(sqrt_num_images=spec["a"], sigma=max(1.0, spec["sigma"]), dim=spec["dim"])
        if spec["vs"] % 4 == 0:
            kw.pop("dim")
        if spec["vs"] % 4 == 1:
            kw.pop("sigma")
    elif g == "rp2_metric":
        fn, kw = ge.rp2_metric, dict(n_samples=spec["n"], seed=spec["seed"])
    elif g in ("torus_3d", "klein_bottle_4d"):
        fn, kw = getattr(ge, g), dict(n_samples=spec["n"], R=spec["R"], r=spec["r"], seed=spec["seed"])
    elif g == "trefoil":
        fn, kw = ge.trefoil, dict(n_samples=spec["n"], horizontal_width=spec["R"] + 1.2, noisy=bool(spec["vs"] % 2))
        if spec["vs"] % 4 < 2:
            kw.pop("horizontal_width")
        if spec["vs"] % 5 == 1 and kw["noisy"]:
            kw.pop("noisy")
    elif g == "sphere":
        fn, kw = ge.sphere, dict(n_samples=spec["n"])
    elif g == "noisy_circle":
        fn, kw = ge.noisy_circle, dict(n_samples=spec["n"], noise_size=spec["noise"], seed=spec["seed"] or 0)
    else:
        fn, kw = ge.moore_space_distance_matrix, dict(rough_n_points=min(spec["n"], 120) + 3, prime=spec["prime"])
    if kw.get("seed", 0) is None:
        kw.pop("seed")
    np.random.seed(5)
    a = ctx.real(g, fn, **kw)
    np.random.seed(12345)
    np.random.random(7)
    b = ctx.real(g, fn, **kw)
    ta = a if isinstance(a, tuple) else (a,)
    tb = b if isinstance(b, tuple) else (b,)
    ctx.check(len(ta) == len(tb) and all(np.array_equal(x, y) for x, y in zip(ta, tb)), "reproducible", lambda: "%s(%s) gives different samples when called twice" % (g, kw))
    ctx.check(all(x is not y and not np.shares_memory(x, y) for x, y in zip(ta, tb)), "reproducible", lambda: "%s returns shared memory" % g)
    ctx.check(all(np.isfinite(np.asarray(x, float)).all() for x in ta), g, lambda: "%s(%s) has undefined entries" % (g, kw))
    if "n_samples" in kw and g in ("rp2_metric", "torus_3d", "klein_bottle_4d", "noisy_circle"):
        seeds(ctx, g, fn, kw, ta)
    globals()["c_" + g](ctx, kw, *ta)
    ctx.sig(g, sorted(kw.items()))


def seeds(ctx, g, fn, kw, ta):
    k0 = {k: v for k, v in kw.items() if k != "seed"}
    if g != "noisy_circle" and "seed" not in kw:
        same = ctx.real(g, fn, seed=kw["n_samples"], **k0)
        same = same if isinstance(same, tuple) else (same,)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(ta, same)), "seed", lambda: "%s: the default seed is not the number of samples" % g)
    s = kw.get("seed", kw["n_samples"] if g != "noisy_circle" else 0)
    other = ctx.real(g, fn, seed=s + 1, **k0)
    other = other if isinstance(other, tuple) else (other,)
    ctx.check(not np.array_equal(ta[0], other[0]), "seed", lambda: "%s: seeds %d and %d give the same sample" % (g, s, s + 1))


def octants(ctx, g, X, c=0.0):
    n, d = X.shape
    if n >= 60 * 2 ** d:
        k = len(np.unique((X - c > 0) @ (2 ** np.arange(d))))
        ctx.check(k == 2 ** d, g + " everywhere", lambda: "%s: %d samples reach only %d of %d octants" % (g, n, k, 2 ** d))


def shape(ctx, g, X, want):
    return ctx.check(np.shape(X) == tuple(want), g, lambda: "%s returned shape %s, documented %s" % (g, np.shape(X), tuple(want)))


def c_line_patches(ctx, kw, P):
    d, na, no, sg = kw["dim"], kw["n_angles"], kw["n_offsets"], kw["sigma"]
    if not shape(ctx, "line_patches", P, (na * no, d * d)):
        return
    th = np.arange(na) * np.pi / na
    off = np.linspace(-1, 1, no)
    x = np.linspace(-0.5, 0.5, d)
    best = np.inf
    from scipy.optimize import linear_sum_assignment

    for X, Y in (np.meshgrid(x, x), np.meshgrid(x, x)[::-1]):
        W = np.array([np.exp(-((X * np.cos(t) + Y * np.sin(t) + o) ** 2) / sg ** 2).ravel() for t in th for o in off])
        C = np.abs(P[:, None, :] - W[None]).max(-1)
        i, j = linear_sum_assignment(C)
        best = min(best, C[i, j].max())
    ctx.check(best < 1e-9, "line_patches", lambda: "patches are not those of %d angles in [0, pi) and %d offsets blurred by %g (%g)" % (na, no, sg, best))


def c_moving_dot(ctx, kw, P):
    n, sg, d = kw["sqrt_num_images"], kw.get("sigma", 3), kw.get("dim", 10)
    if not shape(ctx, "moving_dot", P, (n * n, d * d)):
        return
    ax = np.arange(d) - (d - 1) / 2
    cen = []
    for q, p in enumerate(P.reshape(-1, d, d)):
        if p.min() < 1e-290:
            ctx.ev("underflowing patch")
            return
        L = np.log(p)
        # log p = -((x - a)^2 + (y - b)^2) / (2 sigma^2)
        ok = True
        if d >= 2:
            ga = (L[1:] - L[:-1]) * sg ** 2  # = a - (x + 1/2)
            gb = (L[:, 1:] - L[:, :-1]) * sg ** 2
            A = ga + (ax[:-1, None] + 0.5)
            B = gb + (ax[None, :-1] + 0.5)
            a, b = A.mean(), B.mean()
            model = -((ax[:, None] - a) ** 2 + (ax[None] - b) ** 2) / (2 * sg ** 2)
            ok = np.abs(model - L).max() < 1e-6 * (1 + np.abs(L).max())
            cen.append((a, b))
        if not ctx.check(ok, "moving_dot", lambda: "patch %d is not a dot blurred by %g" % (q, sg)):
            return
    lev = []
    for col in np.array(cen).T:
        v = np.sort(col)
        lev.append(np.array([z.mean() for z in np.split(v, np.nonzero(np.diff(v) > 1e-3)[0] + 1)]))
    xs, ys = lev
    pairs = {(int(np.argmin(np.abs(xs - a))), int(np.argmin(np.abs(ys - b)))) for a, b in cen}
    ctx.check(len(xs) == n and len(ys) == n and len(pairs) == n * n, "moving_dot", lambda: "%d patches show %d x %d positions" % (n * n, len(xs), len(ys)))
    if len(xs) != n or len(ys) != n:
        return
    if n > 1:
        ctx.check(np.allclose(xs, -xs[::-1], atol=1e-4) and np.allclose(ys, -ys[::-1], atol=1e-4) and np.allclose(xs, ys, atol=1e-4), "moving_dot", lambda: "dots are not spread symmetrically: %s %s" % (xs, ys))


def sphere_ok(ctx, g, X):
    e = np.abs(np.linalg.norm(X, axis=1) - 1).max()
    ctx.check(e < 1e-12, g, lambda: "%s: norms off by %g" % (g, e))
    octants(ctx, g, X)


def c_rp2_metric(ctx, kw, X, D):
    n = kw["n_samples"]
    if not (shape(ctx, "rp2_metric", X, (n, 3)) and shape(ctx, "rp2_metric", D, (n, n))):
        return
    sphere_ok(ctx, "rp2_metric", X)
    e = np.abs(np.cos(D) - np.abs(X @ X.T)).max()
    ctx.check(e < 1e-12 and D.min() >= 0 and D.max() <= np.pi / 2 + 1e-12, "rp2_metric", lambda: "distances are not angles between lines (%g)" % e)
    ctx.check(np.abs(D - D.T).max() < 1e-7 and np.abs(np.diag(D)).max() < 1e-7, "rp2_metric", "distance matrix is not symmetric with zero diagonal")


def c_torus_3d(ctx, kw, X):
    if not shape(ctx, "torus_3d", X, (kw["n_samples"], 3)):
        return
    R, r = kw["R"], kw["r"]
    rho = np.hypot(X[:, 0], X[:, 1])
    e = np.abs((rho - R) ** 2 + X[:, 2] ** 2 - r * r).max() / R ** 2
    ctx.check(e < 1e-12, "torus_3d", lambda: "R=%g r=%g: equation off by %g" % (R, r, e))
    octants(ctx, "torus_3d", X)
    octants(ctx, "torus_3d", np.c_[rho - R, X[:, 2]])


def c_klein_bottle_4d(ctx, kw, X):
    if not shape(ctx, "klein_bottle_4d", X, (kw["n_samples"], 4)):
        return
    R, r = kw["R"], kw["r"]
    rho, phi = np.hypot(X[:, 0], X[:, 1]), np.arctan2(X[:, 1], X[:, 0])
    e1 = np.abs((rho - R) ** 2 + X[:, 2] ** 2 + X[:, 3] ** 2 - r * r).max() / R ** 2
    e2 = np.abs(X[:, 2] * np.sin(phi / 2) - X[:, 3] * np.cos(phi / 2)).max() / r
    ctx.check(e1 < 1e-12 and e2 < 1e-9, "klein_bottle_4d", lambda: "R=%g r=%g: equations off by %g %g" % (R, r, e1, e2))
    octants(ctx, "klein_bottle_4d", X[:, :2])
    octants(ctx, "klein_bottle_4d", X[:, 2:])
    octants(ctx, "klein_bottle_4d", np.c_[rho - R, X[:, 2]])


def c_genus_two_surface(ctx, kw, X):
    ctx.check(X.ndim == 2 and X.shape[1] == 3, "genus_two_surface", "not points in 3D")
    A = X.copy()
    A[:, 0] = np.where(X[:, 0] > 4.5, X[:, 0] - 9, X[:, 0])
    mid = X[:, 0] == 4.5
    e = np.abs((np.hypot(A[:, 0], A[:, 1]) - 5) ** 2 + A[:, 2] ** 2 - 4)[~mid].max()
    ctx.check(e < 1e-10, "genus_two_surface", lambda: "equation off by %g" % e)
    # every part of the surface is sampled
    s, t = np.random.default_rng(0).uniform(0, 2 * np.pi, (2, 3000))
    Y = np.c_[(5 + 2 * np.cos(s)) * np.cos(t), (5 + 2 * np.cos(s)) * np.sin(t), 2 * np.sin(s)]
    Y = Y[Y[:, 0] <= 4.5]
    Z = Y * np.array([-1, 1, 1]) + np.array([9, 0, 0])
    from scipy.spatial import cKDTree

    d = cKDTree(X).query(np.r_[Y, Z])[0].max()
    ctx.check(d < 0.45, "genus_two_surface", lambda: "a point of the surface is at %g from every sample" % d)
    ctx.check(len(np.unique(np.round(X, 9), axis=0)) == len(X), "genus_two_surface", "repeated samples")


def c_trefoil(ctx, kw, X):
    if not shape(ctx, "trefoil", X, (kw["n_samples"], 3)):
        return
    w, noisy = kw.get("horizontal_width", 6), kw.get("noisy", True)
    rho, phi = np.hypot(X[:, 0], X[:, 1]), np.arctan2(X[:, 1], X[:, 0])
    off = []
    for e in (1, -1):
        c, s = e * np.cos(1.5 * phi), e * np.sin(1.5 * phi)
        off.append((rho - w * (1.5 + s / 2), X[:, 2] - 4 * c))
    off = np.array(off)
    if noisy:
        err = np.abs(np.hypot(off[:, 0], off[:, 1]) - 1).min(0)
    else:
        err = (np.abs(off[:, 0] - 1) + np.abs(off[:, 1])).min(0)
    ctx.check(err.max() < 1e-9, "trefoil", lambda: "width %g noisy %s: %d samples are not on the knot (%g)" % (w, noisy, (err > 1e-9).sum(), err.max()))
    n = len(X)
    ctx.check(len(np.unique(np.round(X, 9), axis=0)) == n, "trefoil", "repeated samples")
    if not noisy:
        # equally spaced parameters cover both strands: recover the parameter in [0, 4 pi)
        c = X[:, 2] / 4
        two = np.abs(np.cos(1.5 * (phi % (2 * np.pi))) - c) > np.abs(np.cos(1.5 * (phi % (2 * np.pi)) + 3 * np.pi) - c)
        s2 = (rho - 1) / w * 2 - 3
        two = np.where(np.abs(c) < 0.5, np.abs(np.sin(1.5 * (phi % (2 * np.pi))) - s2) > np.abs(np.sin(1.5 * (phi % (2 * np.pi)) + 3 * np.pi) - s2), two)
        u = np.sort(np.mod(phi, 2 * np.pi) + 2 * np.pi * two)
        gaps = np.diff(np.r_[u, u[0] + 4 * np.pi])
        ctx.check(np.abs(gaps - 4 * np.pi / n).max() < 1e-6, "trefoil", lambda: "noiseless samples are not equally spaced along the knot (gaps %g..%g)" % (gaps.min(), gaps.max()))
    elif n >= 500:
        ctx.check(len(np.unique((np.mod(phi, 2 * np.pi) // (np.pi / 2)).astype(int))) == 4 and (np.abs(off[0]).sum(0) < np.abs(off[1]).sum(0)).mean() > 0.2, "trefoil everywhere", "part of the knot is not sampled")


def circle_part(ctx, g, X, c, r, noise, count):
    d = X - np.array(c)
    e = np.abs(np.hypot(d[:, 0], d[:, 1]) - r).max()
    ctx.check(len(X) == count and e <= noise * np.sqrt(2) + 1e-12, g, lambda: "circle of radius %g: %d samples, off by up to %g" % (r, len(X), e))
    t = np.sort(np.arctan2(d[:, 1], d[:, 0]))
    gap = np.diff(np.r_[t, t[0] + 2 * np.pi]).max()
    ctx.check(gap < 2 * np.pi / count + 4 * noise / r, g, lambda: "circle of radius %g: an arc of %g without samples" % (r, gap))
    ctx.check(e > noise * 0.5, g, lambda: "circle of radius %g: not noisy" % r)


def c_bullseye(ctx, kw, X):
    if shape(ctx, "bullseye", X, (600, 2)):
        q = np.rint(np.hypot(X[:, 0], X[:, 1])).astype(int)
        for r in (1, 2, 3):
            circle_part(ctx, "bullseye", X[q == r], (0, 0), r, 0.05, 200)


def c_three_circles(ctx, kw, X):
    if shape(ctx, "three_circles", X, (1050, 2)):
        cs = [((0, 0), 1.0, 50), ((4, 0), 2.0, 500), ((-4, 0), 2.5, 500)]
        e = np.array([np.abs(np.hypot(X[:, 0] - c[0], X[:, 1] - c[1]) - r) for c, r, _ in cs])
        q = e.argmin(0)
        for k, (c, r, n) in enumerate(cs):
            circle_part(ctx, "three_circles", X[q == k], c, r, 0.15, n)


def c_sphere(ctx, kw, X):
    if shape(ctx, "sphere", X, (kw["n_samples"], 3)):
        sphere_ok(ctx, "sphere", X)


def c_noisy_circle(ctx, kw, X):
    if not shape(ctx, "noisy_circle", X, (kw["n_samples"], 2)):
        return
    z = kw["noise_size"]
    e = np.abs(np.hypot(X[:, 0], X[:, 1]) - 1)
    ctx.check(e.max() <= z / np.sqrt(2) + 1e-12, "noisy_circle", lambda: "noise %g: a sample is at %g from the circle" % (z, e.max()))
    if len(X) >= 200:
        ctx.check(e.max() >= 0.3 * z, "noisy_circle", lambda: "noise %g: samples within %g of the circle" % (z, e.max()))
        octants(ctx, "noisy_circle", X)


def c_moore(ctx, kw, D, X):
    n, q = len(X), kw["prime"]
    if not (shape(ctx, "moore", X, (n, 2)) and shape(ctx, "moore", D, (n, n))):
        return
    r = np.hypot(X[:, 0], X[:, 1])
    rough = kw["rough_n_points"]
    ctx.check(r.max() <= 1 + 1e-12, "moore", "points outside the disk") if n else None
    ctx.check(abs(n - rough * np.pi / 4) <= 6 * np.sqrt(rough * 0.17) + 1, "moore", lambda: "%d points for a rough number of %d" % (n, rough))
    if n < 1:
        raise Skip("no points")
    ctx.check(np.array_equal(D, D.T) or np.abs(D - D.T).max() < 1e-9, "moore", lambda: "distance matrix asymmetric by %g" % np.abs(D - D.T).max())
    ctx.check(np.abs(np.diag(D)).max() < 1e-9 and D.min() > -1e-12, "moore", lambda: "diagonal up to %g" % np.abs(np.diag(D)).max())
    E = ref.dist(X)
    B = X / r[:, None]
    up = E.copy()
    for i in range(q):
        t = 2 * np.pi * i / q
        Q = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        up = np.minimum(up, (1 - r)[:, None] + ref.dist(B @ Q.T, X))
    up = np.minimum(up, up.T)
    ctx.check(np.all(D <= up + 1e-9), "moore", lambda: "prime %d: a distance exceeds the length of a path by %g" % (q, (D - up).max()))
    # lower bound: shortest path that crosses the identified boundary any number of times
    nb = 240 * q
    s = np.arange(nb) * 2 * np.pi / nb
    d = ref.dist(X, np.c_[np.cos(s), np.sin(s)])
    dq = d.reshape(n, q, nb // q).min(1)
    low = E.copy()
    for a in range(n):
        low[a] = np.minimum(low[a], (dq[a][None] + dq).min(-1))
    # moving along the boundary circle between two crossings
    L = np.arange(nb // q) * 2 * np.pi / nb
    hop = np.abs(L[:, None] - L)
    hop = np.minimum(hop, 2 * np.pi / q - hop)
    hop = 2 * np.sin(hop / 2)
    m = np.array([(dq[a][:, None] + hop).min(0) for a in range(n)])
    for a in range(n):
        low[a] = np.minimum(low[a], (m[a][None] + dq).min(-1))
    slack = 4 * np.pi / nb
    ctx.check(np.all(D >= low - slack), "moore", lambda: "prime %d: a distance is %g shorter than every path" % (q, (low - D).max()))
