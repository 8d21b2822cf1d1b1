"""Circle-map utilities act as the group operations they describe."""
import numpy as np

from .. import ref
from ..core import Skip

RULE = ("arrays of angles (random, clustered, on a grid, all equal, with 0, 2 pi, values next to them and undefined entries, in several dtypes and layouts), integer matrices (identity, unimodular, zero, "
        "large entries, lists and vectors), offsets of any size, 1..40 level sets and smoothings; algebraic laws of the circle group checked; non-trivial: one law on one input; distinct by input")
MIN_DISTINCT = {"quick": 1500, "thorough": 15000}
NEED = ["offset", "offset composes", "center", "center rotates", "linear combination", "composition", "one row", "sinebow", "level sets", "alternations", "sharp level sets", "undefined"]
COST = {"jit": 0.02, "bc": 0.02, "interp": 0.02}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["the arc that centring brings to pi may be any fullest cell of the 50-cell histogram of the data, up to one cell"]
TAU = 2 * np.pi


def cases(rng, tier):
    n = 9600 if tier == "quick" else 30000
    for i in range(n):
        yield "interp", {"kind": str(rng.choice(["offset", "center", "lin", "lin", "bow", "level", "level"])), "vs": int(rng.integers(1 << 30)), "n": int(rng.choice([1, 2, 5, int(rng.integers(3, 300)), int(rng.integers(300, 3000))])),
                         "dist": str(rng.choice(["unif", "cluster", "grid", "same", "wrap", "two", "edge"])), "mem": str(rng.choice(["C", "ro", "strided", "f4"]))}


def angles(spec, rng, n=None):
    n = n or spec["n"]
    d = spec["dist"]
    if d == "unif":
        t = rng.uniform(0, TAU, n)
    elif d == "cluster":
        t = np.mod(rng.normal(rng.uniform(0, TAU), 0.3, n), TAU)
    elif d == "grid":
        t = rng.integers(0, 49, n) * TAU / 48
    elif d == "same":
        t = np.full(n, rng.uniform(0, TAU))
    elif d == "wrap":
        t = np.mod(rng.normal(0, 0.1, n), TAU)
    elif d == "two":
        t = np.mod(rng.choice([1.0, 4.5], n) + rng.normal(0, 0.05, n), TAU)
    else:
        t = rng.choice([0.0, TAU, np.nextafter(TAU, 0), np.nextafter(0, 1), 1e-9, TAU - 1e-9, np.pi, np.nextafter(np.pi, 4), np.nextafter(np.pi, 0)], n)
    return t


def store(t, mem):
    if mem == "ro":
        t = t.copy()
        t.setflags(write=False)
    elif mem == "strided":
        b = np.full(tuple(2 * s for s in t.shape), -3.0)
        b[tuple(slice(None, None, 2) for _ in t.shape)] = t
        t = b[tuple(slice(None, None, 2) for _ in t.shape)]
    elif mem == "f4":
        t = np.minimum(t.astype("f4"), np.float32(TAU))
    return t


def far(a, b):
    """largest distance on the circle, in radians"""
    if np.size(a) == 0:
        return 0.0
    d = np.abs(np.asarray(a, float) - np.asarray(b, float)) % TAU
    return float(np.max(np.minimum(d, TAU - d)))


def inside(ctx, name, a, what):
    a = np.asarray(a, float)
    ok = np.all((a >= 0) & (a <= TAU * (1 + 1e-7)))
    return ctx.check(ok, name, lambda: "%s: angles outside [0, 2pi]: %g..%g" % (what, np.min(a), np.max(a)))


def run(spec, ctx):
    from dreimac import CircleMapUtils as cm

    rng = np.random.default_rng(spec["vs"])
    {"offset": offset, "center": center, "lin": lin, "bow": bow, "level": level}[spec["kind"]](spec, ctx, rng, cm)
    ctx.sig(spec)


def offset(spec, ctx, rng, cm):
    t = store(angles(spec, rng), spec["mem"])
    eps = 1e-12 if t.dtype == float else 1e-5
    for _ in range(4):
        a, b = rng.choice([0.0, 1.0, 0.5, -0.25, rng.uniform(), rng.uniform(-30, 30)], 2)
        x = ctx.real("offset", cm.offset, t, a)
        ctx.check(np.shape(x) == t.shape, "offset", "shape changed")
        inside(ctx, "offset", x, "offset %g" % a)
        e = far(x, t.astype(float) + TAU * a)
        ctx.check(e < eps * (1 + abs(a)), "offset", lambda: "offset by %g turns moves points by another %g" % (a, e))
        y, z = ctx.real("offset", cm.offset, x, b), ctx.real("offset", cm.offset, t, a + b)
        back = ctx.real("offset", cm.offset, x, -a)
        e = max(far(y, z), far(back, t))
        ctx.check(e < eps * 10 * (1 + abs(a) + abs(b)), "offset composes", lambda: "offsets %g and %g do not compose or invert (%g)" % (a, b, e))
    u = t.astype(float).copy()
    bad = rng.random(len(u)) < 0.3
    u[bad] = np.nan
    x = np.asarray(ctx.real("offset", cm.offset, u, 0.3))
    ctx.check(np.array_equal(np.isnan(x), bad) and far(x[~bad], u[~bad] + 0.3 * TAU) < 1e-9, "undefined", "offset of undefined angles")


def center(spec, ctx, rng, cm):
    t = store(angles(spec, rng), spec["mem"])
    eps = 1e-11 if t.dtype == float else 1e-5
    c = np.asarray(ctx.real("center", cm.center, t), float)
    ctx.check(c.shape == t.shape, "center", "shape changed")
    inside(ctx, "center", c, "centred")
    f = t.astype(float)
    e = far(c - f, np.full(len(f), c[0] - f[0]))
    ctx.check(e < eps, "center rotates", lambda: "centring is not a rotation (%g)" % e)
    lo, hi = f.min(), f.max()
    narrow = hi - lo < 1e-6  # may be treated as one point, with any reasonable cell size
    w = 1 / 50 if narrow else (hi - lo) / 50
    # the fullest cell ends up next to pi
    best = len(f) if narrow else max(np.histogram(f, 50)[0].max() - (1 if t.dtype != float else 0), 1)
    near = int((np.abs(c - np.pi) <= w * (1 + 1e-6) + eps).sum())
    if spec["dist"] not in ("grid", "edge"):
        ctx.check(near >= best, "center", lambda: "%d of %d points within one cell of pi although a cell holds %d" % (near, len(f), best))
    else:
        # rounding decides in which cell a tick falls
        ctx.check(near >= 1, "center", lambda: "no point near pi")


def lin(spec, ctx, rng, cm):
    k, l = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    n = spec["n"]
    T = store(np.array([angles(spec, rng) for _ in range(k)]), spec["mem"])
    big = int(rng.choice([1, 1, 3, 50]))
    M = rng.integers(-big, big + 1, (l, k))
    eps = (1e-12 if T.dtype == float else 1e-5) * (1 + big) * k
    x = np.asarray(ctx.real("linear_combination", cm.linear_combination, T, M))
    if not ctx.check(x.shape == (l, n), "linear combination", lambda: "shape %s" % (x.shape,)):
        return
    inside(ctx, "linear combination", x, "linear combination")
    want = M @ T.astype(float)
    e = far(x, want)
    ctx.check(e < eps, "linear combination", lambda: "combination of %d maps with entries up to %d off by %g" % (k, big, e))
    L = rng.integers(-2, 3, (int(rng.integers(1, 4)), l))
    a = np.asarray(ctx.real("linear_combination", cm.linear_combination, x, L))
    b = np.asarray(ctx.real("linear_combination", cm.linear_combination, T, L @ M))
    e = far(a, b)
    ctx.check(a.shape == b.shape and e < eps * 30 * l, "composition", lambda: "combinations do not compose (%g)" % e)
    # unimodular matrices can be undone
    U = np.eye(k, dtype=int)
    V = np.eye(k, dtype=int)
    for _ in range(4):
        if k > 1:
            i, j = rng.permutation(k)[:2]
            s = int(rng.integers(-1, 2))
            U[i] += s * U[j]
            V[:, j] -= s * V[:, i]
    y = ctx.real("linear_combination", cm.linear_combination, ctx.real("linear_combination", cm.linear_combination, T, U), V)
    e = far(y, T)
    ctx.check(e < eps * 100, "composition", lambda: "a unimodular combination is not undone by its inverse (%g)" % e)
    # one combination given as a vector, and lists
    v = np.asarray(ctx.real("linear_combination", cm.linear_combination, T, M[0]))
    ctx.check(v.shape == (n,) and far(v, want[0]) < eps, "one row", lambda: "a single combination has shape %s" % (v.shape,))
    q = np.asarray(ctx.real("linear_combination", cm.linear_combination, [list(r) for r in T], M.tolist()))
    ctx.check(q.shape == (l, n) and far(q, want) < eps, "one row", "lists give another result")
    u = T.astype(float).copy()
    bad = rng.random(n) < 0.3
    u[:, bad] = np.nan
    x = np.asarray(ctx.real("linear_combination", cm.linear_combination, u, M))
    ok = x.shape == (l, n) and np.isfinite(x[:, ~bad]).all() and far(x[:, ~bad], want[:, ~bad]) < eps
    ctx.check(ok, "undefined", "undefined angles disturb the others")
    # commutes with rotations: M(t + s) = M t + M s
    s = rng.uniform(0, 1, k)
    r = np.array([np.asarray(cm.offset(T[i], s[i])) for i in range(k)])
    a = np.asarray(ctx.real("linear_combination", cm.linear_combination, r, M))
    e = far(a, want + TAU * (M @ s)[:, None])
    ctx.check(e < eps * 10, "linear combination", lambda: "combinations do not commute with rotations (%g)" % e)


def bow(spec, ctx, rng, cm):
    t = store(angles(spec, rng), spec["mem"])
    f = t.astype(float)
    eps = 1e-12 if t.dtype == float else 1e-5
    C = np.asarray(ctx.real("to_sinebow", cm.to_sinebow, t), float)
    if not ctx.check(C.shape == t.shape + (3,), "sinebow", lambda: "shape %s" % (C.shape,)):
        return
    ctx.check(C.min() >= -1e-12 and C.max() <= 1 + 1e-12, "sinebow", lambda: "colours %g..%g" % (C.min(), C.max()))
    e = np.abs(C.sum(-1) - 1.5).max()
    ctx.check(e < eps * 10, "sinebow", lambda: "channels are not a third of a turn apart (%g)" % e)
    # a circle of colours run through once at constant speed
    i, j = rng.integers(0, len(f), (2, 200))
    chord = 2 * np.sqrt(3 / 8) * np.abs(np.sin((f[i] - f[j]) / 2))
    e = np.abs(np.linalg.norm(C[i] - C[j], axis=1) - chord).max()
    ctx.check(e < max(eps * 10, 1e-7), "sinebow", lambda: "distances between colours off by %g" % e)
    z = np.asarray(ctx.real("to_sinebow", cm.to_sinebow, np.array([0.0, TAU])))
    ctx.check(np.abs(z[0] - z[1]).max() < 1e-12, "sinebow", "0 and 2 pi have different colours")
    e = np.abs(np.asarray(cm.to_sinebow(np.array([f, f]))) - np.array([np.asarray(cm.to_sinebow(f))] * 2)).max()
    ctx.check(e < 1e-12, "sinebow", "colours depend on the shape of the array")
    # the standard phase: red at pi, green and blue a third of a turn further
    r = np.asarray(cm.to_sinebow(np.array([np.pi, np.pi + TAU / 3, np.pi - TAU / 3])))
    ctx.check(sorted(r.argmax(1).tolist()) == [0, 1, 2] and np.allclose(r.max(1), 1, atol=1e-9), "sinebow", lambda: "colours at thirds of a turn from pi: %s" % r.tolist())


def level(spec, ctx, rng, cm):
    n = int(rng.integers(1, 41)) if rng.random() < 0.5 else int(rng.integers(1, 7))
    k = float(rng.choice([0.25, 1.0, 0.05, 0.01, rng.uniform(0.02, 1)]))
    t = store(angles(spec, rng), spec["mem"])
    kw = dict(n_levelsets=n, smoothing=k)
    if rng.random() < 0.2:
        kw = {}
        n, k = 4, 0.25
    v = np.asarray(ctx.real("levelset_coloring", cm.levelset_coloring, t, **kw), float)
    ctx.check(v.shape == t.shape and v.min() >= 0 and v.max() <= 1, "level sets", lambda: "shape %s values %g..%g" % (v.shape, v.min(), v.max()))
    z = np.asarray(cm.levelset_coloring(np.array([0.0, TAU]), **kw), float)
    ctx.check(abs(z[0] - z[1]) < 1e-9, "level sets", lambda: "0 and 2 pi are coloured %g and %g" % (z[0], z[1]))
    # around the circle: 2 n alternations, evenly spread, the same for every level set
    N = 4 * n * 37
    g = (np.arange(N) + 0.31) * TAU / N
    c = np.asarray(cm.levelset_coloring(g, **kw), float)
    side = c > 0.5
    alt = int((side != np.roll(side, 1)).sum())
    ctx.check(alt == 2 * n, "alternations", lambda: "%d level sets: %d alternations around the circle" % (n, alt))
    ctx.check(abs(side.mean() - 0.5) < 3 / 37, "alternations", lambda: "level sets cover %g of the circle" % side.mean())
    e = np.abs(c - np.roll(c, N // n)).max()
    ctx.check(e < 1e-6, "level sets", lambda: "%d level sets are not evenly spread (%g)" % (n, e))
    # nothing but the position on the circle matters: compare with neighbours on the fine grid
    order = np.argsort(g)
    dens = np.interp(np.asarray(t, float), g[order], c[order], period=TAU)
    slope = 4 * n * TAU / N / k  # variation between neighbours of the grid
    ctx.check(np.abs(dens - v).max() < slope + 1e-6 + (2e-5 * n / k if t.dtype != float else 0), "level sets", lambda: "colouring depends on more than the point of the circle (%g)" % np.abs(dens - v).max())
    if slope < 0.1:
        ctx.check(np.abs(np.diff(c)).max() < slope, "level sets", lambda: "smoothing %g: jumps of %g" % (k, np.abs(np.diff(c)).max()))
    # more smoothing: closer to one half, never on the other side
    c2 = np.asarray(ctx.real("levelset_coloring", cm.levelset_coloring, g, n_levelsets=n, smoothing=k * 2), float)
    ctx.check(np.all(np.abs(c2 - 0.5) <= np.abs(c - 0.5) + 1e-9) and np.all((c2 - 0.5) * (c - 0.5) >= -1e-12), "level sets", lambda: "smoothing %g is not smoother than %g" % (2 * k, k))
    ctx.check(c.max() - c.min() > c2.max() - c2.min() or k < 0.05, "level sets", lambda: "smoothing has no effect")
    s = np.asarray(ctx.real("levelset_coloring", cm.levelset_coloring, g, n_levelsets=n, smoothing=0), float)
    ok = set(np.unique(s)) <= {0.0, 1.0} and int((s != np.roll(s, 1)).sum()) == 2 * n and abs(s.mean() - 0.5) < 3 / 37
    ctx.check(ok, "sharp level sets", lambda: "%d level sets without smoothing: %d alternations, mean %g" % (n, int((s != np.roll(s, 1)).sum()), s.mean()))
    z = np.asarray(cm.levelset_coloring(np.array([0.0, TAU]), n_levelsets=n, smoothing=0), float)
    ctx.check(z[0] == z[1], "sharp level sets", lambda: "0 and 2 pi are coloured %g and %g" % (z[0], z[1]))
