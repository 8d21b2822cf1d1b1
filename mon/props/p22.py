"""What is on the axes after plotting is the data that was passed, observed on the artists and on the rendered pixels."""
import warnings

import numpy as np

from ..core import Skip

RULE = ("patch stacks (several dtypes, sizes, positions: separated, coincident, collinear, far away), grids of 1..40 patches, colour functions (real, constant, integer, lists of colours), meshes of many sizes and 3D limits "
        "(reversed, disjoint scales), on explicit or current axes, alone or on top of an earlier plot; artists and rendered pixels compared with the data; non-trivial: one plot; distinct by input")
MIN_DISTINCT = {"quick": 250, "thorough": 3000}
NEED = ["patch artists", "patch pixels", "grid", "circle", "arrows", "mesh", "equal limits", "points", "colours", "own axes", "returned axes"]
COST = {"jit": 0.15, "bc": 0.15, "interp": 0.15}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["Agg backend; patch pixels are sampled at the centre of every cell for patches that no other patch may cover"]
KINDS = ["imscatter", "imscatter", "patches", "patches", "boundary", "hemispheres", "mesh", "equal", "equal", "rp2", "rp3"]


def cases(rng, tier):
    n = 840 if tier == "quick" else 5000
    for i in range(n):
        yield "interp", {"kind": KINDS[i % len(KINDS)], "vs": int(rng.integers(1 << 30)), "current": bool(rng.random() < 0.4), "before": bool(rng.random() < 0.4)}


def artists(ax):
    return list(ax.get_children())


def run(spec, ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from dreimac import PlotUtils

    rng = np.random.default_rng(spec["vs"])
    k = spec["kind"]
    three = k in ("mesh", "equal", "rp3")
    plt.close("all")
    fig = plt.figure(figsize=(9, 9), dpi=72)
    kw = {"projection": "3d"} if three else {}
    target = fig.add_subplot(111, **kw)
    other = plt.figure(figsize=(3, 3), dpi=72).add_subplot(111, **kw)
    if k == "rp2" or spec["current"] and k not in ("equal", "rp3"):
        plt.figure(fig.number)
        plt.sca(target)
        how = {}
    else:
        how = {"ax": target}
    if spec["before"] and k != "equal":
        a = rng.uniform(-1, 1, 5)
        target.plot(*([a, a, a] if three else [a, a]), "r.")
    n_other = len(artists(other))
    lim = (other.get_xlim(), other.get_ylim())
    had = artists(target)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + k](spec, ctx, rng, PlotUtils, fig, target, had, how)
    # nothing is drawn elsewhere
    ctx.check(len(artists(other)) == n_other and lim == (other.get_xlim(), other.get_ylim()), "own axes", "other axes were drawn on")
    gone = [a for a in had if a not in artists(target)]
    ctx.check(not gone, "own axes", lambda: "earlier artists removed: %s" % gone)
    ctx.check(len(plt.get_fignums()) == 2, "own axes", "figures were created or closed")
    plt.close("all")
    ctx.sig(spec)


def new(ax, had):
    return [a for a in artists(ax) if a not in had]


def returned(ctx, r, ax):
    ctx.check(r is ax, "returned axes", "%r returned instead of the axes drawn on" % (r,))


def stack(rng, n):
    d = int(rng.integers(1, 7))
    kind = rng.choice(["float", "neg", "uint8", "int", "binary", "offset"])
    P = rng.uniform(0, 1, (n, d * d))
    if kind == "neg":
        P = rng.normal(size=P.shape) * 10 ** rng.uniform(-3, 3)
    elif kind == "uint8":
        P = rng.integers(0, 256, P.shape).astype(np.uint8)
    elif kind == "int":
        P = rng.integers(-50, 50, P.shape)
    elif kind == "binary":
        P = rng.integers(0, 2, P.shape).astype(float)
    elif kind == "offset":
        P = 100 + rng.uniform(0, 1, P.shape) * rng.uniform(0.1, 1, (n, 1))
    return P, d


def boxes(new_artists):
    from matplotlib.offsetbox import AnnotationBbox

    return [a for a in new_artists if isinstance(a, AnnotationBbox)]


def patches(ctx, fig, ax, had, P, d, zoom, X):
    """every patch at its position, on one grey scale: artists, then pixels"""
    n = len(P)
    bb = boxes(new(ax, had))
    P = np.asarray(P, float)
    lo, hi = P.min(), P.max()
    if bb:
        got = []
        for b in bb:
            im = b.offsetbox
            got.append((np.asarray(b.xy, float), np.asarray(im.get_data(), float)))
        ctx.check(len(got) == n, "patch artists", lambda: "%d images for %d patches" % (len(got), n))
        left = list(range(n))
        for xy, data in got:
            m = [i for i in left if np.array_equal(X[i], xy) and np.array_equal(data.reshape(-1), P[i].reshape(-1))]
            if not ctx.check(bool(m) and data.shape == (d, d), "patch artists", lambda: "an image at %s is no patch of that position" % xy.tolist()):
                return
            left.remove(m[0])
    a, b = ax.get_xlim(), ax.get_ylim()
    inside = (X[:, 0] >= min(a)) & (X[:, 0] <= max(a)) & (X[:, 1] >= min(b)) & (X[:, 1] <= max(b))
    ctx.check(inside.all(), "patch artists", lambda: "patches at %s are outside the axes %s %s" % (X[~inside][:2].tolist(), a, b))
    if hi <= lo:
        return
    fig.canvas.draw()
    img = np.asarray(fig.canvas.buffer_rgba()).astype(float)
    H, W = img.shape[:2]
    C = ax.transData.transform(X)
    half = d * zoom / 2.0
    for i in range(n):
        if n > 1 and np.abs(np.delete(C, i, 0) - C[i]).max(1).min() < 2 * half + 3:
            continue
        if (C[i] < half + 2).any() or C[i, 0] > W - half - 2 or C[i, 1] > H - half - 2:
            continue
        r, c = np.divmod(np.arange(d * d), d)
        px = np.floor(C[i, 0] + (c + 0.5 - d / 2) * zoom).astype(int)
        py = np.floor(C[i, 1] + (d / 2 - r - 0.5) * zoom).astype(int)
        v = img[H - 1 - py, px, :3]
        e = 255 * (P[i] - lo) / (hi - lo)
        bad = np.abs(v - e[:, None]).max(1)
        ctx.check(bad.max() <= 4, "patch pixels", lambda: "patch %d (of %d, %dx%d) at %s: cell %d has colour %s, expected grey %.1f" % (
            i, n, d, d, X[i].tolist(), int(bad.argmax()), v[bad.argmax()].tolist(), e[bad.argmax()]))


def do_imscatter(spec, ctx, rng, pu, fig, ax, had, how):
    n = int(rng.choice([1, 2, 3, int(rng.integers(3, 30))]))
    P, d = stack(rng, n)
    zoom = int(rng.integers(6, 10))
    kind = rng.choice(["spread", "random", "same", "line", "far", "disk", "ints"])
    if kind == "spread":
        g = int(np.ceil(np.sqrt(n)))
        q = rng.permutation(g * g)[:n]
        X = np.c_[q % g, q // g] * rng.uniform(0.5, 3) + rng.normal(size=2)
    elif kind == "same":
        X = np.tile(rng.normal(size=2), (n, 1))
    elif kind == "line":
        X = np.c_[np.arange(n), np.zeros(n)] * rng.choice([-1, 1])
    elif kind == "far":
        X = rng.normal(size=(n, 2)) * 1e3 + 1e5
    elif kind == "ints":
        X = rng.integers(-20, 20, (n, 2))
    else:
        X = rng.uniform(-1, 1, (n, 2))
    X0, P0 = X.copy(), P.copy()
    r = ctx.real("imscatter", pu.imscatter, X, P, d, zoom, **how)
    returned(ctx, r, ax)
    ctx.check(np.array_equal(X, X0) and np.array_equal(P, P0), "patch artists", "data modified")
    patches(ctx, fig, ax, had, P, d, zoom, X.astype(float))


def do_patches(spec, ctx, rng, pu, fig, ax, had, how):
    n = int(rng.choice([1, 2, 4, 5, 9, 10, int(rng.integers(1, 41)), int(rng.integers(1, 41))]))
    P, d = stack(rng, n)
    zoom = int(rng.integers(6, 9))
    P0 = P.copy()
    r = ctx.real("plot_patches", pu.plot_patches, P, zoom, **how)
    returned(ctx, r, ax)
    ctx.check(np.array_equal(P, P0), "grid", "data modified")
    g = 1
    while g * g < n:
        g += 1
    X = np.c_[np.arange(n) % g, np.arange(n) // g].astype(float)
    ctx.ev("grid")
    patches(ctx, fig, ax, had, P, d, zoom, X)


def circles(ctx, lines, centers):
    """the lines are the unit circles with those centres, each once and whole"""
    ctx.check(len(lines) == len(centers), "circle", lambda: "%d curves, expected %d" % (len(lines), len(centers)))
    for cx in centers:
        m = []
        for ln in lines:
            xy = np.asarray(ln.get_xydata(), float)
            if np.abs(np.hypot(xy[:, 0] - cx, xy[:, 1]) - 1).max() < 1e-9:
                m.append(xy)
        if ctx.check(len(m) == 1, "circle", lambda: "%d unit circles around (%g, 0)" % (len(m), cx)):
            t = np.sort(np.mod(np.arctan2(m[0][:, 1], m[0][:, 0] - cx), 2 * np.pi))
            gap = np.diff(np.r_[t, t[0] + 2 * np.pi]).max()
            step = np.hypot(*np.diff(m[0], axis=0).T).max()
            ctx.check(gap < 0.2 and step < 0.2, "circle", lambda: "circle has a gap of %g" % gap)


def square(ctx, fig, ax):
    """circles look like circles and are entirely visible"""
    fig.canvas.draw()
    o, e1, e2 = ax.transData.transform([[0, 0], [1, 0], [0, 1]])
    ctx.check(abs(np.hypot(*(e1 - o)) / np.hypot(*(e2 - o)) - 1) < 1e-6, "circle", "axes are not equally scaled")


def see(ctx, ax, lo, hi):
    a, b = ax.get_xlim(), ax.get_ylim()
    ctx.check(min(a) <= lo[0] and max(a) >= hi[0] and min(b) <= lo[1] and max(b) >= hi[1], "circle", lambda: "the boundary is cropped by the axes %s %s" % (a, b))


def polys(arts):
    from matplotlib.patches import Polygon

    return [np.asarray(a.get_xy(), float) for a in arts if isinstance(a, Polygon)]


def same_polys(A, B):
    A = sorted(np.round(p, 6).tolist() for p in A)
    B = sorted(np.round(p, 6).tolist() for p in B)
    return len(A) == len(B) and all(np.shape(x) == np.shape(y) and np.abs(np.subtract(x, y)).max() < 1e-5 for x, y in zip(A, B))


def do_boundary(spec, ctx, rng, pu, fig, ax, had, how):
    from matplotlib.lines import Line2D

    r = ctx.real("plot_proj_boundary", pu.plot_proj_boundary, **how)
    returned(ctx, r, ax)
    arts = new(ax, had)
    circles(ctx, [a for a in arts if isinstance(a, Line2D)], [0])
    square(ctx, fig, ax)
    see(ctx, ax, (-1, -1), (1, 1))
    P = polys(arts)
    ctx.check(len(P) >= 2 and same_polys(P, [-p for p in P]), "arrows", "the arrows do not show the identification of opposite points")
    # everything the projection can draw is inside
    X = rng.normal(size=(20, 3))
    from dreimac import ProjectiveMapUtils

    S = ctx.real("stereo", ProjectiveMapUtils.get_stereo_proj_codim1, X / np.linalg.norm(X, axis=1)[:, None])
    ctx.check(np.linalg.norm(S, axis=1).max() <= 1 + 1e-9, "circle", "projected points leave the boundary")


def do_hemispheres(spec, ctx, rng, pu, fig, ax, had, how):
    from matplotlib.lines import Line2D
    from dreimac import ProjectiveMapUtils

    r = ctx.real("plot_2sphere_boundary", pu.plot_2sphere_boundary, **how)
    returned(ctx, r, ax)
    arts = new(ax, had)
    # the projection says where the second disk is: the pole of the other hemisphere
    f = ProjectiveMapUtils.stereographic_projection_hemispheres
    poles = np.asarray(ctx.real("hemispheres", f, np.array([[0.0, 0, -1], [0, 0, 1]])), float)
    ctx.check(np.abs(poles[:, 1]).max() < 1e-9, "circle", "centres of the hemispheres are not on the axis")
    circles(ctx, [a for a in arts if isinstance(a, Line2D)], sorted(poles[:, 0]))
    square(ctx, fig, ax)
    see(ctx, ax, (poles[:, 0].min() - 1, -1), (poles[:, 0].max() + 1, 1))
    X = rng.normal(size=(30, 3))
    S = np.asarray(ctx.real("hemispheres", f, X / np.linalg.norm(X, axis=1)[:, None]), float)
    dist = np.min([np.hypot(S[:, 0] - c, S[:, 1]) for c in poles[:, 0]], 0)
    ctx.check(dist.max() <= 1 + 1e-9, "circle", "projected points leave both disks")
    P = polys(arts)
    # arrows come in pairs: leaving one disk, entering the other one at the same boundary point
    c = [np.mean([p.min(0), p.max(0)], 0) for p in P]
    ctx.check(len(P) >= 2 and len(P) % 2 == 0, "arrows", lambda: "%d arrows" % len(P))
    half = np.array([int(abs(q[0] - poles[1, 0]) < abs(q[0] - poles[0, 0])) for q in c])
    D = sorted(np.mod(np.arctan2(c[i][1], c[i][0] - poles[half[i], 0]), 2 * np.pi).round(3) % 6.283 for i in range(len(P)) if half[i] == 0)
    E = sorted(np.mod(np.arctan2(c[i][1], c[i][0] - poles[half[i], 0]), 2 * np.pi).round(3) % 6.283 for i in range(len(P)) if half[i] == 1)
    ctx.check(len(D) == len(E) and np.abs(np.subtract(D, E)).max() < 0.2, "arrows", lambda: "arrows at angles %s and %s" % (D, E))
    # the arrows of one disk point away from its centre, those of the other one to its centre
    way = [[], []]
    for i, p in enumerate(P):
        v = np.unique(np.round(p, 9), axis=0)
        tip = v[np.argmax(np.hypot(*(v - v.mean(0)).T))] - v.mean(0)
        rad = v.mean(0) - poles[half[i]]
        way[half[i]].append(np.sign(rad @ tip))
    ctx.check(len(set(way[0])) == 1 and len(set(way[1])) == 1 and way[0][0] == -way[1][0] != 0, "arrows", lambda: "arrows outwards (+) and inwards (-): %s" % way)


def do_mesh(spec, ctx, rng, pu, fig, ax, had, how):
    from mpl_toolkits.mplot3d.art3d import Line3DCollection

    a, b = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    alpha = float(rng.choice([0.1, 1.0, rng.uniform(0.01, 1)]))
    args = dict(n_parallels=a, n_meridians=b, alpha=alpha)
    if rng.random() < 0.2:
        a, b, alpha, args = 10, 20, 0.1, {}
    r = ctx.real("plot_3sphere_mesh", pu.plot_3sphere_mesh, **args, **how)
    returned(ctx, r, ax)
    L = [x for x in new(ax, had) if isinstance(x, Line3DCollection)]
    if not ctx.check(len(L) == 1, "mesh", lambda: "%d meshes" % len(L)):
        return
    S = [np.asarray(s, float) for s in L[0]._segments3d]
    V = np.concatenate(S)
    ctx.check(np.abs(np.linalg.norm(V, axis=1) - 1).max() < 1e-9, "mesh", "vertices of the mesh are not on the unit sphere")
    par = [s for s in S if np.ptp(s[:, 2]) < 1e-9]
    mer = [s for s in S if abs(s[:, 2].min() + 1) < 1e-9 and abs(s[:, 2].max() - 1) < 1e-9]
    ctx.check((len(par), len(mer)) == (a, b) and len(S) == a + b, "mesh", lambda: "%d parallels and %d meridians, %d and %d requested (%d curves)" % (len(par), len(mer), a, b, len(S)))
    if par:
        z = np.sort([s[0, 2] for s in par])
        ctx.check(np.abs(z - np.sort(np.cos(np.linspace(0, np.pi, a)))).max() < 1e-9, "mesh", "parallels are not evenly spaced from pole to pole")
    if mer:
        t = np.sort([np.mod(np.arctan2(*s[len(s) // 2, [1, 0]]) + 1e-9, 2 * np.pi) for s in mer]) if a > 2 else None
        if t is not None:
            e = np.sort(np.mod(np.linspace(0, 2 * np.pi, b) + 1e-9, 2 * np.pi))
            ctx.check(np.abs(np.exp(1j * t) - np.exp(1j * e)).max() < 1e-6, "mesh", "meridians are not evenly spaced around the sphere")
    op = np.atleast_2d(L[0].get_edgecolor())[:, 3]
    ctx.check(np.abs(op - alpha).max() < 0.01, "mesh", lambda: "opacity %s, %g requested" % (op[:2], alpha))


def do_equal(spec, ctx, rng, pu, fig, ax, had, how):
    kind = rng.choice(["data", "limits", "reversed", "flat", "far"])
    sc = 10.0 ** rng.uniform(-3, 3, 3)
    if kind == "flat":
        sc[rng.integers(3)] *= 1e-3
    P = rng.normal(size=(10, 3)) * sc + (rng.normal(size=3) * 100 * sc if kind == "far" else 0)
    ax.scatter(*P.T)
    if kind in ("limits", "reversed"):
        for i, name in enumerate("xyz"):
            a = rng.normal() * sc[i]
            l = [a, a + sc[i]]
            if kind == "reversed" and rng.random() < 0.6:
                l = l[::-1]
            getattr(ax, "set_%slim3d" % name)(l)
    had = artists(ax)
    before = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()], float)
    r = ctx.real("set_axes_equal", pu.set_axes_equal, ax)
    returned(ctx, r, ax)
    after = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()], float)
    ra, rb = np.abs(np.diff(after)).ravel(), np.abs(np.diff(before)).ravel()
    tol = 1e-9 * max(rb.max(), np.abs(before).max())
    ctx.check(np.ptp(ra) <= tol, "equal limits", lambda: "ranges %s" % ra.tolist())
    ctx.check(np.abs(after.mean(1) - before.mean(1)).max() <= tol, "equal limits", lambda: "centres moved from %s to %s" % (before.mean(1), after.mean(1)))
    ctx.check((after.min(1) <= before.min(1) + tol).all() and (after.max(1) >= before.max(1) - tol).all(), "equal limits", lambda: "limits %s cropped to %s" % (before.tolist(), after.tolist()))
    ctx.check(ra.max() <= rb.max() + tol, "equal limits", lambda: "limits wider than the widest range: %g > %g" % (ra.max(), rb.max()))
    ctx.check(not new(ax, had), "equal limits", "drew something")


def values(rng, n):
    kind = rng.choice(["real", "ints", "const", "rgb", "neg", "two", "rgba"])
    f = rng.uniform(0, 1, n)
    if kind == "ints":
        f = rng.integers(0, 10, n)
    elif kind == "const":
        f = np.full(n, rng.normal())
    elif kind == "neg":
        f = rng.normal(size=n) * 10 ** rng.uniform(-4, 4)
    elif kind == "two":
        f = rng.integers(0, 2, n).astype(float)
    elif kind in ("rgb", "rgba"):
        f = rng.uniform(0, 1, (n, 3 if kind == "rgb" else 4))
    return f


def colours(ctx, F, f, n, alpha=True):
    """F: drawn colours of the n points in order"""
    F = np.asarray(F, float)
    if len(F) == 1:
        F = np.tile(F, (n, 1))
    if not ctx.check(len(F) == n, "colours", lambda: "%d colours for %d points" % (len(F), n)):
        return
    if f.ndim == 2:
        ctx.check(np.abs(F[:, :3] - f[:, :3]).max() < 1e-9, "colours", "points do not have the colours that were given")
        return
    # the colour map gets lighter as the value grows
    lum = F[:, :3].sum(1)
    f = f.astype(float)
    o = np.argsort(f, kind="stable")
    ctx.check((np.diff(lum[o]) >= -0.03).all(), "colours", lambda: "lightness is not a function growing with the value: %s for values %s" % (lum[o][:5], f[o][:5]))
    w = np.ptp(f)
    if w > 0:
        ctx.check(abs(lum[o[0]] - 0) < 0.1 and abs(lum[o[-1]] - 3) < 0.1, "colours", "the values do not use the whole colour scale")
        exp = (f - f.min()) / w
        ctx.check(np.abs(lum / 3 - exp).max() < 0.12, "colours", lambda: "colours are not proportional to the values (%g)" % np.abs(lum / 3 - exp).max())
    else:
        ctx.check(np.ptp(F, axis=0).max() < 1e-9, "colours", "points of equal value have different colours")


def do_rp2(spec, ctx, rng, pu, fig, ax, had, how):
    from matplotlib.lines import Line2D
    from matplotlib.collections import PathCollection

    n = int(rng.choice([1, 2, 3, 4, int(rng.integers(5, 200)), int(rng.integers(200, 6000))]))
    S = rng.normal(size=(n, 2))
    S /= np.maximum(1, np.linalg.norm(S, axis=1))[:, None] * rng.choice([1.0, 1.0 + rng.uniform()], (n, 1))
    f = values(rng, n)
    S0, f0 = S.copy(), f.copy()
    had = artists(ax)
    ctx.real("plot_rp2_stereo", pu.plot_rp2_stereo, S, f)
    ctx.check(np.array_equal(S, S0) and np.array_equal(f, f0), "points", "data modified")
    arts = new(ax, had)
    circles(ctx, [a for a in arts if isinstance(a, Line2D)], [0])
    square(ctx, fig, ax)
    see(ctx, ax, (-1, -1), (1, 1))
    P = polys(arts)
    ctx.check(len(P) >= 2 and same_polys(P, [-p for p in P]), "arrows", "the arrows do not show the identification of opposite points")
    C = [a for a in arts if isinstance(a, PathCollection)]
    if not ctx.check(len(C) == 1, "points", lambda: "%d sets of points" % len(C)):
        return
    X = np.asarray(C[0].get_offsets(), float)
    ctx.check(X.shape == S.shape and np.abs(X - S).max() < 1e-12, "points", "points are not at their coordinates")
    colours(ctx, C[0].get_facecolor(), f, n)


def do_rp3(spec, ctx, rng, pu, fig, ax, had, how):
    from matplotlib.collections import Collection
    from mpl_toolkits.mplot3d.art3d import Path3DCollection, Line3DCollection

    n = int(rng.choice([1, 2, 3, 4, 5, int(rng.integers(6, 200)), int(rng.integers(200, 6000))]))
    S = rng.normal(size=(n, 3))
    S /= np.maximum(1, np.linalg.norm(S, axis=1))[:, None] * rng.choice([1.0, 1.0 + rng.uniform()], (n, 1))
    f = values(rng, n)
    if f.ndim == 2 and f.shape[1] == 4:
        f = f[:, :3]
    S0, f0 = S.copy(), f.copy()
    sphere = bool(rng.random() < 0.5)
    had = artists(ax)
    ctx.real("plot_rp3_stereo", pu.plot_rp3_stereo, ax, S, f, sphere)
    ctx.check(np.array_equal(S, S0) and np.array_equal(f, f0), "points", "data modified")
    arts = new(ax, had)
    C = [a for a in arts if isinstance(a, Path3DCollection)]
    if not ctx.check(len(C) == 1, "points", lambda: "%d sets of points" % len(C)):
        return
    X = np.array([np.asarray(c, float) for c in C[0]._offsets3d]).T
    ctx.check(X.shape == S.shape and np.abs(X - S).max() < 1e-12, "points", "points are not at their coordinates")
    # in the order of the points, not sorted and shaded by depth
    colours(ctx, Collection.get_facecolor(C[0]), f, n)
    L = [a for a in arts if isinstance(a, Line3DCollection)]
    ctx.check(len(L) == int(sphere), "mesh", lambda: "%d meshes" % len(L))
    for m in L:
        V = np.concatenate([np.asarray(s, float) for s in m._segments3d])
        ctx.check(np.abs(np.linalg.norm(V, axis=1) - 1).max() < 1e-9, "mesh", "vertices of the mesh are not on the unit sphere")
    fig.canvas.draw()
