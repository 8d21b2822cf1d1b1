"""Projective-map utilities respect lines, phases and rotations."""
import numpy as np

from ..core import Skip

RULE = ("vectors in 1..12 dimensions: generic, nearly parallel and nearly opposite (1e-1 down to 1e-17), axis aligned, exactly equal or opposite, of any length; unit point clouds with antipodal pairs, poles and "
        "equators, centres at data points; unit vectors of C^2 with phases, poles and repeated lines; non-trivial: one law on one input; distinct by input")
MIN_DISTINCT = {"quick": 1500, "thorough": 15000}
NEED = ["rotation", "rotation nearly parallel", "rotation nearly opposite", "rotation opposite", "stereographic ball", "stereographic antipodes", "stereographic inverse", "default centre", "hopf sphere", "hopf phase",
        "hopf lines", "hemispheres", "hemisphere inverse", "northpole"]
COST = {"jit": 0.02, "bc": 0.02, "interp": 0.02}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["points within 1e-9 of the boundary of a hemisphere may be drawn on either copy of it"]


def cases(rng, tier):
    n = 10400 if tier == "quick" else 30000
    for i in range(n):
        yield "interp", {"kind": str(rng.choice(["rot", "rot", "stereo", "hopf", "hemi", "north"])), "vs": int(rng.integers(1 << 30)), "d": int(rng.choice([2, 3, 3, 4, int(rng.integers(1, 13))])),
                         "n": int(rng.choice([1, 2, int(rng.integers(3, 60)), int(rng.integers(60, 300))])), "rel": str(rng.choice(["generic", "near", "near", "opp", "opp", "equal", "exactopp", "axis"]))}


def run(spec, ctx):
    from dreimac import ProjectiveMapUtils as pm

    rng = np.random.default_rng(spec["vs"])
    {"rot": rot, "stereo": stereo, "hopf": hopf, "hemi": hemi, "north": north}[spec["kind"]](spec, ctx, rng, pm)
    ctx.sig(spec)


def unit(X):
    return X / np.linalg.norm(X, axis=-1, keepdims=True)


def partner(rng, a, rel):
    d = len(a)
    z = rng.normal(size=d) * np.linalg.norm(a) * 10.0 ** -rng.uniform(1, 17)
    if rel == "generic":
        return rng.normal(size=d)
    if rel == "near":
        return a + z
    if rel == "opp":
        return -a + z
    if rel == "equal":
        return a.copy()
    if rel == "exactopp":
        return -a
    b = np.zeros(d)
    b[rng.integers(d)] = rng.choice([-1.0, 1.0])
    return b


def is_rotation(ctx, name, R, d, what):
    R = np.asarray(R)
    if not ctx.check(R.shape == (d, d) and np.isfinite(R).all(), name, lambda: "%s: not a finite %dx%d matrix" % (what, d, d)):
        return False
    e = np.abs(R @ R.T - np.eye(d)).max()
    return ctx.check(e < 1e-9 and np.linalg.det(R) > 0, name, lambda: "%s: R R^T is off the identity by %g, determinant %g" % (what, e, np.linalg.det(R)))


def rot(spec, ctx, rng, pm):
    d = spec["d"]
    a = rng.normal(size=d)
    if spec["rel"] == "axis" or rng.random() < 0.2:
        a = np.zeros(d)
        a[rng.integers(d)] = rng.choice([-1.0, 1.0])
    default = rng.random() < 0.25
    if default:
        b = np.zeros(d)
        b[-1] = 1
        if spec["rel"] != "generic":
            a = partner(rng, b, spec["rel"])
    else:
        b = partner(rng, a, spec["rel"])
    if not np.linalg.norm(a) or not np.linalg.norm(b):
        raise Skip("zero vector")
    a, b = a * rng.choice([1.0, 1.0, 1e-3, 40.0]), (b if default else b * rng.choice([1.0, 1.0, 1e-3, 40.0]))
    if d == 1 and a[0] * b[0] < 0:
        raise Skip("no rotation")
    a0, b0 = a.copy(), b.copy()
    R = ctx.real("rotmat", pm.rotmat, a) if default else ctx.real("rotmat", pm.rotmat, a, b)
    name = {"near": "rotation nearly parallel", "opp": "rotation nearly opposite", "exactopp": "rotation opposite"}.get(spec["rel"], "rotation")
    what = "from %s to %s" % (a0.tolist(), b0.tolist())
    if is_rotation(ctx, name, R, d, what):
        e = np.abs(R @ unit(a0) - unit(b0)).max()
        ctx.check(e < 1e-9, name, lambda: "%s: the first direction lands at distance %g from the second" % (what, e))
        # column vectors are accepted
        if d > 1:
            R2 = ctx.real("rotmat", pm.rotmat, a0.reshape(-1, 1), b0) if not default else ctx.real("rotmat", pm.rotmat, a0.reshape(1, -1))
            ctx.check(np.shape(R2) == (d, d) and np.abs(R2 - R).max() < 1e-9, "rotation", "row or column vector gives another matrix")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), name, "arguments modified")


def points(rng, n, d, c=None):
    X = unit(rng.normal(size=(n, d)))
    k = rng.integers(0, n, 4)
    if c is not None and n > 4:
        X[k[0]] = c
        X[k[1]] = -c
        e = rng.normal(size=d)
        e -= e @ c * c
        if np.linalg.norm(e) > 1e-6:
            X[k[2]] = unit(e)
    return X


def stereo(spec, ctx, rng, pm):
    d, n = max(2, spec["d"]), spec["n"]
    u = unit(rng.normal(size=d)) if rng.random() < 0.7 else np.eye(d)[rng.integers(d)] * rng.choice([-1.0, 1.0])
    X = points(rng, n, d, u)
    if spec["rel"] in ("near", "opp") and n > 2:
        X[1] = unit(partner(rng, u, spec["rel"]))
    X0 = X.copy()
    S = np.asarray(ctx.real("get_stereo_proj_codim1", pm.get_stereo_proj_codim1, X, u))
    if not ctx.check(S.shape == (n, d - 1) and np.isfinite(S).all(), "stereographic ball", lambda: "shape %s" % (S.shape,)):
        return
    nr = np.linalg.norm(S, axis=1)
    ctx.check(nr.max() <= 1 + 1e-9, "stereographic ball", lambda: "image of norm %g" % nr.max())
    ctx.check(np.array_equal(X, X0), "stereographic ball", "points modified")
    s = rng.choice([-1.0, 1.0], n)
    T = np.asarray(ctx.real("get_stereo_proj_codim1", pm.get_stereo_proj_codim1, s[:, None] * X, u))
    edge = np.abs(X @ u) < 1e-9
    e = np.abs(T - S)[~edge].max() if (~edge).any() else 0
    e2 = np.minimum(np.abs(T - S).max(1), np.abs(T + S).max(1))[edge].max() if edge.any() else 0
    ctx.check(e < 1e-7 and e2 < 1e-7, "stereographic antipodes", lambda: "antipodal vectors have images %g (%g) apart" % (e, e2))
    inverse(ctx, "stereographic inverse", S, X)
    pole = np.abs(np.abs(X @ u) - 1) < 1e-14
    if pole.any():
        ctx.check(nr[pole].max() < 1e-6, "stereographic ball", lambda: "the centre is projected to norm %g" % nr[pole].max())
    h = np.abs(X @ u)
    e = np.abs(h - (1 - nr ** 2) / (1 + nr ** 2)).max()
    ctx.check(e < 1e-7, "stereographic inverse", lambda: "heights over the equator of the centre off by %g" % e)
    D = np.asarray(ctx.real("get_stereo_proj_codim1", pm.get_stereo_proj_codim1, X))
    if ctx.check(D.shape == (n, d - 1) and np.isfinite(D).all() and np.linalg.norm(D, axis=1).max() <= 1 + 1e-9, "default centre", "default projection leaves the ball"):
        inverse(ctx, "default centre", D, X)
        # the default centre is a principal direction of the points (the least one)
        w = np.linalg.eigvalsh(X.T @ X)
        q = np.sum(((1 - np.linalg.norm(D, axis=1) ** 2) / (1 + np.linalg.norm(D, axis=1) ** 2)) ** 2)
        ctx.check(abs(q - w[0]) < 1e-6 * n, "default centre", lambda: "the default centre has moment %g, the least is %g" % (q, w[0]))


def inverse(ctx, name, S, X):
    q = np.sum(S ** 2, 1)
    Y = np.c_[2 * S, 1 - q] / (1 + q)[:, None]
    e = np.abs(np.abs(Y @ Y.T) - np.abs(X @ X.T)).max()
    ctx.check(e < 1e-7, name, lambda: "angles between lines change by %g" % e)


def cunit(rng, n):
    X = rng.normal(size=(n, 2)) + 1j * rng.normal(size=(n, 2))
    if n > 3:
        X[0] = [rng.normal() + 1j, 0]
        X[1] = [0, rng.normal() + 1j]
        X[2] = [1, 1j ** int(rng.integers(4))]
        X[3] = X[0] + 1e-5 * (rng.normal(size=2) + 1j * rng.normal(size=2))
    return unit(X)


def hopf(spec, ctx, rng, pm):
    n = spec["n"]
    X = cunit(rng, n)
    if rng.random() < 0.3:
        X = np.asfortranarray(X)
    X0 = X.copy()
    H = np.asarray(ctx.real("hopf_map", pm.hopf_map, X))
    if not ctx.check(H.shape == (n, 3) and np.isrealobj(H) and np.isfinite(H).all(), "hopf sphere", lambda: "shape %s" % (H.shape,)):
        return
    e = np.abs(np.linalg.norm(H, axis=1) - 1).max()
    ctx.check(e < 1e-9, "hopf sphere", lambda: "norms off by %g" % e)
    Z = np.exp(2j * np.pi * rng.uniform(size=n))[:, None] * X
    e = np.abs(np.asarray(ctx.real("hopf_map", pm.hopf_map, Z)) - H).max()
    ctx.check(e < 1e-9, "hopf phase", lambda: "images of one line differ by %g" % e)
    G = np.abs(X @ np.conjugate(X).T) ** 2
    e = np.abs((1 + H @ H.T) / 2 - G).max()
    ctx.check(e < 1e-9, "hopf lines", lambda: "angles between images do not match those between lines (%g)" % e)
    ctx.check(np.array_equal(X, X0), "hopf sphere", "points modified")


def hemi(spec, ctx, rng, pm):
    n, d = spec["n"], 3
    default = rng.random() < 0.3
    c = np.array([0, 0, 1.0]) if default else unit(rng.normal(size=d)) if rng.random() < 0.7 else np.eye(d)[rng.integers(d)] * rng.choice([-1.0, 1.0])
    X = points(rng, n, d, c)
    X0 = X.copy()
    W = np.asarray(ctx.real("hemispheres", pm.stereographic_projection_hemispheres, X) if default else ctx.real("hemispheres", pm.stereographic_projection_hemispheres, X, c * rng.choice([1.0, 1.0, 3.0])))
    if not ctx.check(W.shape == (n, 2) and np.isfinite(W).all(), "hemispheres", lambda: "shape %s" % (W.shape,)):
        return
    ctx.check(np.array_equal(X, X0), "hemispheres", "points modified")
    h = X @ c
    V = W.copy()
    right = W[:, 0] > 1.25
    V[right, 0] -= 2.5
    nr = np.linalg.norm(V, axis=1)
    ctx.check(nr.max() <= 1 + 1e-9, "hemispheres", lambda: "a point is drawn outside both disks (%g from the centre)" % nr.max())
    edge = np.abs(h) < 1e-9
    ctx.check(np.array_equal(right[~edge], h[~edge] > 0), "hemispheres", lambda: "points of one hemisphere are drawn in the disk of the other")
    q = nr ** 2
    Y = np.c_[2 * V, np.where(right, 1 - q, q - 1)] / (1 + q)[:, None]
    e = np.abs(Y @ Y.T - X @ X.T).max()
    ctx.check(e < 1e-7, "hemisphere inverse", lambda: "angles between points change by %g" % e)
    if n > 3:
        R = np.linalg.lstsq(X, Y, rcond=None)[0].T
        if np.linalg.svd(X)[1][-1] > 1e-2:
            ctx.check(np.linalg.det(R) > 0 and np.abs(R @ c - [0, 0, 1]).max() < 1e-5, "hemisphere inverse", lambda: "the sphere is mirrored or not centred (determinant %g)" % np.linalg.det(R))


def north(spec, ctx, rng, pm):
    for _ in range(20):
        x = rng.normal(size=2) * rng.choice([1e-3, 0.5, 1.0, 5.0])
        if rng.random() < 0.2:
            x = unit(x)
        if rng.random() < 0.05:
            x = np.zeros(2)
        x0 = x.copy()
        y, u = ctx.real("circle_to_3dnorthpole", pm.circle_to_3dnorthpole, x)
        y, u = np.asarray(y), np.asarray(u)
        ok = u.shape == (3,) and y.shape == (2,) and np.isfinite(u).all() and abs(np.linalg.norm(u) - 1) < 1e-9 and u[2] >= 0 and np.abs(u[:2] - y).max() < 1e-12
        ctx.check(ok, "northpole", lambda: "%s gives %s" % (x0, u))
        r = np.linalg.norm(x0)
        want = x0 if r <= 1 else x0 / r
        ctx.check(np.abs(y - want).max() < 1e-12, "northpole", lambda: "%s clipped to %s" % (x0, y))
        ctx.check(np.array_equal(x, x0), "northpole", "argument modified")
