"""Oracle shared by the three projective coordinate classes."""
import numpy as np

from . import pipe, ref
from .core import Skip

TOL = {"real": 1e-6, "lens": 1e-6, "cplx": 2e-5}


def setup(ctx, spec):
    arr, dm, D, rep = pipe.arrays(spec)
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo(obj, spec, D)
    tab = pipe.class_table(obj, pipe.DIM[spec["cls"]])
    if not tab:
        raise Skip("no class")
    k, std = pipe.choose(tab, spec)
    return obj, g, tab, k, std


def reference(ctx, spec, g, rows, r, maxpts=250):
    """unreduced map evaluated in the nearest ball -> (R rows for sel, sel, phi, cov, trivial?)"""
    phi, cov, U = ref.weights(g.DL, r, spec["pu"])
    if cov.sum() < 3:
        raise Skip("nothing covered")
    K = g.complex(r)
    p = pipe.prime_of(spec)
    cls = spec["cls"]
    ch = ref.charts(U, "near", g.DL)
    sel = np.nonzero(cov)[0]
    if len(sel) > maxpts:
        sel = np.sort(np.random.default_rng(spec["data"]["seed"]).choice(sel, maxpts, replace=False))
    mask = np.zeros(g.N, bool)
    mask[sel] = True
    tris = ref.triangles_of(K)
    if cls in ("real", "lens"):
        C = np.where(K, ref.cochain1(rows, g.m), 0)
        if np.any(ref.d1_max_defect(C, tris, p)):
            ctx.viol("representative is a cocycle at the scale", "prime %d" % p)
            raise Skip("not a cocycle")
        F = ref.sign_map(C, phi, mask, ch) if cls == "real" else ref.lens_map(C, p, phi, mask, ch)
    else:
        C = np.where(K[:, :, None] & K[None] & K[:, None, :], ref.lift2(rows, g.m, p), 0)
        v = ref.d2_values(C, ref.tetrahedra_of(K, tris))
        if np.any(np.mod(v, p)):
            ctx.viol("representative is a cocycle at the scale", "prime %d" % p)
            raise Skip("not a cocycle")
        if np.any(v):
            raise Skip("naive lift not a cocycle (P08)")
        nu, _, _ = ref.harmonic2(C, K)
        F = ref.complex_map(C, nu, K, phi, mask, ch)
    return F[sel], sel, phi, cov, K, C


def align(F, R, root=None):
    """Largest deviation between F and R as maps to the projective (lens) space, up to one global
    unitary: compare F F* with R R* up to unit scalars per row (q-th roots of unity if root=q)."""
    G = F @ np.conjugate(F).T
    H = R @ np.conjugate(R).T
    n = len(G)
    mod = float(np.max(np.abs(np.abs(G) - np.abs(H))))
    # propagate the row scalars along the strongest links
    s = np.zeros(n, complex)
    A = np.abs(H)
    todo = set(range(n))
    dev = 0.0
    roots = 0.0
    while todo:
        r0 = min(todo)
        s[r0] = 1
        todo.discard(r0)
        best = A[r0].copy()
        frm = np.full(n, r0)
        while True:
            cand = [t for t in todo if best[t] > 1e-3]
            if not cand:
                break
            t = max(cand, key=lambda t: best[t])
            f = frm[t]
            z = G[t, f] / H[t, f] * s[f]
            s[t] = z / max(abs(z), 1e-12)
            todo.discard(t)
            up = A[t] > best
            best[up] = A[t][up]
            frm[up] = t
        del best
    S = s[:, None] * H * np.conjugate(s)[None, :]
    links = A > 1e-3
    dev = float(np.max(np.abs(G - S)[links])) if links.any() else 0.0
    if root:
        # relative scalars along links must be roots of unity
        rel = np.angle(s[:, None] * np.conjugate(s)[None, :]) * root / (2 * np.pi)
        # only meaningful inside linked groups
        lab = ref.components(links)
        same = lab[:, None] == lab[None, :]
        roots = float(np.max(np.abs(rel - np.rint(rel))[same]))
    return mod, dev, roots


def compare_reduced(ctx, F, Y, mode, where, monitor="reduced lines"):
    """Y: reduced rows; F: the same rows unreduced.  Compares all the lines and holonomies of the rows
    for which the reduction is well conditioned; returns the number of rows compared."""
    k = Y.shape[1]
    X, info = ref.ppca(F, k, mode)
    gap = min(info["gaps"]) if info["gaps"] else 1.0
    ok = info["norms"] > 1e-3 if info["early"] > 1e-3 else np.zeros(len(F), bool)
    fin = np.all(np.isfinite(Y), axis=1)
    # (rows of which nothing is kept are normalised noise, possibly of subnormal size)
    nr = np.linalg.norm(Y[fin & (info["norms"] > 1e-12)], axis=1)
    ctx.check(np.all(np.abs(nr - 1) < 1e-8), "unit norm reduced", lambda: "%s: norms %s" % (where, nr[np.argsort(-np.abs(nr - 1))][:4]))
    if gap < 1e-5 or ok.sum() < 2:
        return 0
    ctx.check(np.all(fin[ok]), "defined rows stay defined", lambda: "%s: %d of %d rows undefined although the reduction keeps them" % (where, np.sum(~fin[ok]), ok.sum()))
    ok &= fin
    if ok.sum() < 2:
        return 0
    if ok.sum() > 400:
        w = np.random.default_rng(len(ok)).permutation(np.nonzero(ok)[0])[:300]
        ok = np.zeros(len(F), bool)
        ok[w] = True
    tol = ref.ppca_tolerance(F, k, mode, ok) + 1e-7
    if tol > 1e-2:
        return 0
    mod, dev, _ = align(Y[ok], X[ok])
    ctx.check(mod < tol, monitor, lambda: "%s: moduli of inner products differ by %g from the reference reduction (gap %g)" % (where, mod, gap))
    ctx.check(dev < 100 * tol, monitor + ": holonomy", lambda: "%s: inner products differ by %g from the reference reduction (gap %g)" % (where, dev, gap))
    ctx.ev("reduced coordinates compared")
    return int(ok.sum())


def check(spec, ctx, monitor, root=None):
    obj, g, tab, k, std = setup(ctx, spec)
    b, d, rows = tab[k]
    m = g.m
    p = pipe.prime_of(spec)
    cls = spec["cls"]
    tol = TOL[cls]
    pu = pipe.Bump(spec["pu"])
    full = dict(complex_dim=m) if cls == "lens" else dict(proj_dim=m - 1)
    out, warns = pipe.ask(ctx, "get_coordinates", obj, spec, k, std, pu, **full)
    F = np.asarray(out)
    r = pu.r if pu.r is not None else pipe.formula_r(b, d, spec["perc"], std)
    g.guard(r)
    where = "%s class %d prime %d r %g %s" % (cls, k, p, r, spec["red"])
    if not ctx.check(F.shape == (g.N, m), "shape unreduced", lambda: "%s: %s for %d points, %d landmarks" % (where, F.shape, g.N, m)):
        return
    R, sel, phi, cov, K, C = reference(ctx, spec, g, rows, r)
    Fs = F[sel]
    if not ctx.check(np.all(np.isfinite(Fs)), "covered points have coordinates", where):
        return
    ctx.check(np.max(np.abs(np.linalg.norm(Fs, axis=1) - 1)) < 1e-8, "unit norm unreduced", lambda: "%s: norms %s" % (where, np.linalg.norm(Fs, axis=1)[:4]))
    mod, dev, roots = align(Fs, R, root)
    ctx.check(mod < tol, monitor + ": lines", lambda: "%s: moduli of inner products of unreduced coordinates differ by %g from those of the classifying map" % (where, mod))
    ctx.check(dev < (75 if cls == "cplx" else 20) * tol, monitor + ": holonomy", lambda: "%s: inner products (up to one scalar per point) differ by %g from those of the classifying map" % (where, dev))
    if root:
        ctx.check(roots < 1e-4, monitor + ": roots of unity", lambda: "%s: relative scalars are not %d-th roots of unity (%g)" % (where, root, roots))
    # reduced request
    pd = spec["proj_dim"]
    if pd + 1 <= m:
        pu2 = pipe.Bump(spec["pu"])
        out, warns = pipe.ask(ctx, "get_coordinates reduced", obj, spec, k, std, pu2)
        Y = np.asarray(out)
        if not ctx.check(Y.shape == (g.N, pd + 1), "shape reduced", lambda: "%s: %s, asked for %d entries" % (where, Y.shape, pd + 1)):
            return
        # (all the covered points take part in the reduction, also those whose weights underflow)
        every = (g.DL < r).any(0)
        if not np.any(np.isnan(F[every])):
            idx = np.nonzero(every)[0]
            if F.shape[1] > 60 and len(idx) > 400:
                ctx.ev("reduction of many points not compared")
            else:
                compare_reduced(ctx, F[idx], Y[idx], spec["red"], "%s proj_dim %d" % (where, pd))
        ctx.check(np.isrealobj(Y) == (cls == "real"), "scalar field", lambda: "%s: %s" % (where, Y.dtype))
    ctx.sig(spec["data"], m, p, k, round(r / g.scale, 6), spec["red"], pd)
    return obj, F, g, R, sel
