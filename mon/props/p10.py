"""Complex projective coordinates are the classifying map of the integer 2-class."""
import numpy as np

from .. import gen, pipe, proj, ref
from ..core import Skip

RULE = ("random datasets with 2-dimensional classes x prime x class x percentage x range x bump function x mode x target dimension x size "
        "(N*m below and above 2^17, where constant closures used to be baked in); non-trivial: unreduced coordinates compared with the harmonic "
        "reference map evaluated in the nearest ball; distinct by (dataset, landmarks, prime, class, radius, mode, dimension)")
MIN_DISTINCT = {"quick": 60, "thorough": 400}
NEED = ["classifying map: lines", "classifying map: holonomy", "unit norm reduced", "reduced coordinates compared", "depends on the class", "large data"]
CASE_TIMEOUT = 120
COST = {"jit": 2.5, "bc": 3.0, "interp": 0.6}
ASSUMPTIONS = ["classes whose balanced lift is not an integer cocycle belong to P08 and are skipped here", "least squares tolerance: moduli of inner products may differ by 2e-5, aligned inner products by 1.5e-3"]


def cases(rng, tier):
    n = 330 if tier == "quick" else 3400
    for i in range(n):
        s = pipe.case(rng, "cplx", nmin=14, nmax=50)
        u = rng.random()
        if u < 0.5:
            s["data"]["space"] = str(rng.choice(["sphere", "fib_sphere", "ellipsoid", "two_spheres"]))
        if u < 0.03:
            s["data"] = {"space": "sphere", "n": int(rng.integers(4500, 6000)), "seed": int(rng.integers(1 << 30))}
            s.update(m=int(rng.integers(28, 34)), rep="pc", pick=0, proj_dim=1)
            yield "jit", s
        elif u < 0.07:
            # enough landmarks that the least squares solver needs many steps
            s["m"] = int(rng.integers(40, 66))
            s["data"] = {"space": str(rng.choice(["fib_sphere", "ellipsoid", "sphere"])), "n": s["m"] + int(rng.integers(0, 30)), "seed": int(rng.integers(1 << 30))}
            s.update(rep="pc", std=False, pick=0, perc=float(rng.choice([0.02, 0.05, 0.3])))
            yield "jit", s
        elif u < 0.2:
            s["m"] = int(rng.integers(18, 32))
            s["data"]["n"] = int(rng.integers(60, 300))
            yield "jit", s
        else:
            s["m"] = min(s["m"], 14) if rng.random() < 0.5 else s["m"]
            yield ("jit" if rng.random() < 0.15 else "interp"), s


def run(spec, ctx):
    if spec["data"]["n"] > 2000:
        return large(spec, ctx)
    res = proj.check(spec, ctx, "classifying map")
    if res is None:
        return
    obj, F, g, R, sel = res
    # lines of unreduced coordinates are not those of the trivial map sqrt(weights)
    tr = ref.gram_mod(np.abs(R))
    own = ref.gram_mod(R)
    if np.max(np.abs(tr - own)) > 1e-2:
        ctx.check(np.max(np.abs(ref.gram_mod(F[sel]) - tr)) > 5e-3, "depends on the class", "coordinates are those of the trivial class")


def large(spec, ctx):
    """several thousand points: only a sample is compared, distances are not materialised"""
    import dreimac

    X, _ = None, None
    rng = np.random.default_rng(spec["data"]["seed"])
    V = rng.normal(size=(spec["data"]["n"], 3))
    X = V / np.linalg.norm(V, axis=1)[:, None] + rng.normal(0, 0.02, V.shape)
    obj = ctx.real("constructor", dreimac.ComplexProjectiveCoords, X, spec["m"], prime=spec["prime"])
    tab = pipe.class_table(obj, 2)
    k, std = pipe.choose(tab, dict(spec, std=False))
    pu = pipe.Bump(spec["pu"])
    F, w = pipe.ask(ctx, "get_coordinates", obj, spec, k, std, pu, proj_dim=spec["m"] - 1)
    r = pu.r
    idx = pipe.landmarks(obj, spec, X, False)
    rs = np.random.default_rng(1).choice(len(X), 150, replace=False)

    class G:
        pass

    g = pipe.Geo.__new__(pipe.Geo)
    g.idx, g.m, g.N = idx, len(idx), len(rs)
    g.DL = ref.dist(X[idx], X[rs])
    g.DLL = ref.dist(X[idx])
    g.scale = ref.top(g.DLL)
    g.guard(r, 1e-7)
    R, sel, phi, cov, K, C = proj.reference(ctx, spec, g, tab[k][2], r)
    Fs = np.asarray(F)[rs][sel]
    mod, dev, _ = proj.align(Fs, R)
    ctx.check(mod < proj.TOL["cplx"], "classifying map: lines", lambda: "%d points, %d landmarks: lines differ by %g" % (len(X), g.m, mod))
    ctx.check(dev < 75 * proj.TOL["cplx"], "classifying map: holonomy", lambda: "%d points, %d landmarks: inner products differ by %g" % (len(X), g.m, dev))
    ctx.ev("large data")
    ctx.sig(spec["data"], g.m, k)
