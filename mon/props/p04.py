"""Coverage: a point has coordinates exactly when some landmark ball contains it."""
import re

import numpy as np

from .. import gen, pipe, ref, same
from ..core import Skip

RULE = ("datasets with outliers and low percentages (uncovered points) and lattices whose distances tie exactly with a radius made to hit them, x all five "
        "classes x bump functions x representations; watched: not-a-number pattern, warnings, weights and chosen balls, arguments of the bump function, and a second "
        "run with the uncovered points removed; non-trivial: a request with covered and uncovered points or exact ties; distinct by (dataset, coordinates, class, radius)")
MIN_DISTINCT = {"quick": 200, "thorough": 2000}
NEED = ["finite exactly on covered points", "exact tie at the radius", "point exactly at the radius", "count announced", "nothing announced", "uncovered points removed", "weights", "chosen ball contains the point", "all points covered"]
CASE_TIMEOUT = 90
COST = {"jit": 4.0, "bc": 4.0, "interp": 0.3}
ASSUMPTIONS = ["point clouds whose distances are within 1e-6 (relative) of the radius decide nothing; distance matrices are exact and always decide"]


def cases(rng, tier):
    n = 1200 if tier == "quick" else 6500
    for i in range(n):
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.25, 0.2, 0.2, 0.2, 0.15]))
        s = pipe.case(rng, cls, **({"mmax": 13, "nmin": 20, "nmax": 60} if cls == "cplx" else {"mmax": 20, "nmin": 24, "nmax": 90}))
        u = rng.random()
        if u < 0.35:
            s["data"]["space"] = str(rng.choice(["hop_cycle", "hop_torus"] if cls != "cplx" else ["hop_torus"]))
            for k in ("embed", "scale"):
                s["data"].pop(k, None)
            s["data"]["n"] = int(rng.integers(30, 64))
            s["m"] = int(rng.integers(8, 20)) if cls != "cplx" else 14
            s["tie"] = True
            s["rep"] = str(rng.choice(["dm", "rect"]))
            if cls != "cplx" and rng.random() < 0.6:
                n, w = int(rng.integers(16, 50)), int(rng.integers(6, 16))
                s["data"].update(space="hop_whisker", n=n + w, whiskers=w)
                s.update(rep="rect", rect=n / (n + w), m=int(rng.integers(8, n)))
            if rng.random() < 0.5:
                s["data"]["int"] = bool(rng.random() < 0.5)
        elif u < 0.75:
            s["data"]["outliers"] = int(rng.integers(1, 6))
            s["perc"] = float(np.round(rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 1)]), 4))
        if rng.random() < 0.2:
            s["rep"] = "pc"
            s["flood"] = int(rng.choice([1, 3, 7]))
        s["nclass"] = int(rng.choice([1, 2, 3]))
        s["std"] = bool(rng.random() < 0.25)
        s["vs"] = int(rng.integers(1 << 30))
        if rng.random() < (0.45 if s.get("tie") else 0.12):
            s["pu"] = "const"
        if i % 40 == 7 and cls != "cplx":
            for k in ("tie", "flood"):
                s.pop(k, None)
            pipe.crowd(rng, s)
            if s["data"]["n"] > 4000:
                s["rep"] = "rect"
            yield "jit", s
            continue
        yield ("jit" if rng.random() < 0.1 else "interp"), s


def hit(b, d, std, t):
    """percentage in [0,1] for which the radius is exactly t, if there is one"""
    s = 2 * b if std else b
    if not s / 2 <= t < d / 2:
        return None
    p = (2 * t - s) / (d - s)
    for c in [p] + [np.nextafter(p, 0), np.nextafter(p, 1)]:
        if ((1 - c) * s + c * d) / 2 == t:
            return float(c)
    return None


def check_weights(spec, ctx, obj, g, r, exact, where):
    """the weights as computed by the public covering partition"""
    import warnings

    if not hasattr(obj, "get_covering_partition"):
        return
    pu = pipe.Bump(spec["pu"])
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        varphi, ball = ctx.real("weights", obj.get_covering_partition, r, pu)
    phi, cov, U = ref.weights(g.DL, r, spec["pu"])
    V = np.asarray(varphi, float)
    if not ctx.check(V.shape == phi.shape, "weights", lambda: "%s: shape %s" % (where, V.shape)):
        return
    ctx.check(np.array_equal(np.isnan(V).any(0), ~U.any(0)), "weights", lambda: "%s: undefined weights for %d points, %d uncovered" % (where, np.isnan(V).any(0).sum(), (~U.any(0)).sum()))
    if U.any(0).sum() > cov.sum():
        ctx.ev("weights close to underflow")
    Vc, Pc = V[:, cov], phi[:, cov]
    if Vc.size and not np.isnan(Vc).any():
        # close to the radius weights of clouds are as noisy as the distances
        tol = 1e-9 if exact else 1e-4
        ctx.check(np.max(np.abs(Vc - Pc)) < tol, "weights", lambda: "%s: weights differ by %g from the normalised bump" % (where, np.max(np.abs(Vc - Pc))))
        ctx.check(np.all(Vc[~U[:, cov]] == 0), "weights", lambda: "%s: landmarks at or beyond the radius have weight" % where)
        ctx.check(np.max(np.abs(Vc.sum(0) - 1)) < 1e-9, "weights", lambda: "%s: weights sum to %g" % (where, Vc.sum(0).min()))
        bi = np.asarray(ball)[cov].astype(int)
        ctx.check(np.all(U[:, cov][bi, np.arange(len(bi))]), "chosen ball contains the point", where)


def run(spec, ctx):
    arr, dm, D, rep = pipe.arrays(spec)
    if spec.get("flood") and rep == "pc":
        # far away points after the data: many uncovered non-landmarks next to each other
        rng = np.random.default_rng(spec["vs"])
        far = arr[rng.integers(0, len(arr), 1)] + 50 * np.abs(arr).max() * np.ones(arr.shape[1])
        extra = far + rng.normal(size=(spec["flood"], arr.shape[1])) * 1e-3 * np.abs(arr).max()
        arr = np.r_[arr, extra]
        D = ref.dist(arr)
    exact = dm
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo.__new__(pipe.Geo)
    g.idx = pipe.landmarks(obj, spec, arr, dm)
    g.m = len(g.idx)
    g.DL = pipe.rows_of(D, g.idx)
    g.DLL = g.DL[:, g.idx]
    g.N = g.DL.shape[1]
    g.scale = ref.top(g.DL)
    tab = pipe.class_table(obj, pipe.DIM[spec["cls"]])
    if not tab:
        raise Skip("no class")
    k, std = same.pick(tab, spec)
    ks = k if isinstance(k, list) else [k]
    b = max(tab[q][0] for q in ks)
    d = min(tab[q][1] for q in ks)
    if spec.get("tie"):
        lo = (2 * b if std else b) / 2
        vals = [v for v in np.unique(g.DL.min(0)) if lo < v < d / 2 or (v == lo and len(ks) == 1)] or [v for v in np.unique(g.DL) if lo < v < d / 2 or (v == lo and len(ks) == 1)]
        opts = [hit(b, d, std, v) for v in vals]
        opts = [o for o in opts if o is not None]
        if opts:
            spec = dict(spec, perc=opts[spec["vs"] % len(opts)])
    A = same.run(ctx, obj, spec, k, std, g.m)
    r = A.r
    if r is None:
        raise Skip("radius not observed")
    if not exact and np.min(np.abs(g.DL - r)) < 1e-6 * g.scale:
        raise Skip("distance ties with the scale")
    U = g.DL < r
    cov = U.any(0)
    where = "%s %s classes %s radius %.9g bump %s (%d of %d points covered)" % (spec["cls"], rep, k, r, spec["pu"], cov.sum(), g.N)
    if np.any(g.DL == r) and exact:
        ctx.ev("exact tie at the radius")
        # a point whose nearest landmark is exactly at the radius
        if np.any(g.DL.min(0) == r):
            ctx.ev("point exactly at the radius")
    proj = spec["cls"] in pipe.PROJ
    for name, out in (("full", A.full), ("reduced", A.red)):
        if out is None:
            continue
        F = np.asarray(out)
        if not proj:
            F = F.T
        if not ctx.check(F.shape[0] == g.N, "one row per point", lambda: "%s: %s" % (where, F.shape)):
            return
        fin = np.isfinite(F).all(1)
        nan = np.isnan(F).all(1)
        if name == "reduced" and proj:
            # a covered point may be orthogonal to the kept components
            ctx.check(np.all(nan[~cov]), "finite exactly on covered points", lambda: "%s: reduced coordinates of uncovered points are defined" % where)
            continue
        ctx.check(np.array_equal(fin, cov), "finite exactly on covered points", lambda: "%s: %d covered points undefined, %d uncovered points with coordinates" % (where, np.sum(cov & ~fin), np.sum(~cov & fin)))
        ctx.check(np.all(nan[~cov]), "uncovered points are not-a-number", where)
    n = int((~cov).sum())
    if n:
        ctx.check(any(str(n) in re.findall(r"\d+", w) for w in A.warns), "count announced", lambda: "%s: warnings %s" % (where, A.warns))
    else:
        ctx.ev("all points covered")
        ctx.check(not any("cover" in w for w in A.warns), "nothing announced", lambda: "%s: warnings %s" % (where, A.warns))
    check_weights(spec, ctx, obj, g, r, exact, where)
    if n or spec.get("tie"):
        ctx.sig(spec["data"], spec["cls"], k, round(r / g.scale, 9), rep)
    if g.N > 4000:
        ctx.ev("many points")
        return
    # the same data without the uncovered points
    if n and cov.sum() >= 3 and not set(np.nonzero(~cov)[0]) & set(g.idx.tolist()):
        keep = np.nonzero(cov)[0]
        if rep == "pc":
            arr2 = arr[keep]
        elif rep == "dm":
            arr2 = arr[keep][:, keep]
        else:
            nr = arr.shape[0]
            rows = keep[keep < nr]
            if len(rows) < 4 or len(keep) <= len(rows):
                return
            arr2 = arr[rows][:, keep]
        if spec["m"] >= len(arr2):
            return
        s2 = dict(spec)
        o2 = pipe.construct(ctx, s2, arr2, dm)
        idx2 = pipe.landmarks(o2, s2, arr2, dm)
        src = keep if rep != "rect" else rows
        if not np.array_equal(src[idx2], g.idx):
            # allowed only if sampling was a matter of rounding or the sampling mode changes
            ctx.ev("landmarks changed")
            return
        t2 = pipe.class_table(o2, pipe.DIM[spec["cls"]])
        if not same.same_rows(tab, t2, k):
            ctx.ev("representatives changed")
            return
        B = same.run(ctx, o2, spec, k, std, g.m)
        ctx.check(not any("cover" in w for w in B.warns), "nothing announced", lambda: "%s: without the uncovered points: warnings %s" % (where, B.warns))
        same.compare(ctx, spec, A, B, (keep, np.arange(len(keep))), same.labels(g, r)[keep], "uncovered points removed", where, tol=1e-5)
        if A.red is not None and proj:
            ctx.ev("uncovered points removed, reduced")
