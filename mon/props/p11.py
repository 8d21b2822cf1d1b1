"""Lens coordinates are the classifying map of the mod q class."""
import numpy as np

from .. import gen, pipe, proj, ref
from ..core import Skip

RULE = ("random datasets x prime q x class x percentage x range x bump function x reduction mode x target dimension; non-trivial: unreduced "
        "coordinates compared, through all inner products up to one q-th root of unity per point, with the root-of-unity map evaluated in the nearest ball; "
        "distinct by (dataset, landmarks, prime, class, radius, mode, dimension)")
MIN_DISTINCT = {"quick": 100, "thorough": 600}
NEED = ["classifying map: lines", "classifying map: holonomy", "classifying map: roots of unity", "unit norm reduced", "agrees with real projective for q=2"]
CASE_TIMEOUT = 60
INTERP_IS_FINAL = True
ASSUMPTIONS = ["distances closer than 1e-6 (relative) to the radius or the scale decide nothing", "reduced coordinates are compared with a reference reduction only when eigenvalue gaps exceed 1e-4"]


def cases(rng, tier):
    n = 3300 if tier == "quick" else 22000
    for i in range(n):
        s = pipe.case(rng, "lens", nmin=20, nmax=110)
        if rng.random() < 0.3:
            s["data"]["space"] = str(rng.choice(["rp2", "moore", "circle", "trefoil"]))
            if s["data"]["space"] == "moore":
                s["data"]["q"] = int(rng.choice([2, 3, 5]))
                s["prime"] = s["data"]["q"]
        if rng.random() < 0.1:
            s["m"] = int(rng.integers(30, 60))
            s["data"]["n"] = int(rng.integers(100, 300))
        if i % 40 == 7:
            yield "jit", pipe.crowd(rng, s)
            continue
        yield ("jit" if rng.random() < 0.03 else "interp"), s


def run(spec, ctx):
    res = proj.check(spec, ctx, "classifying map", root=spec["prime"])
    if res is None or spec["prime"] != 2:
        return
    obj, F, g, R, sel = res
    s2 = dict(spec, cls="real")
    o2 = pipe.construct(ctx, s2)
    tab = pipe.class_table(o2, 1)
    k, std = pipe.choose(pipe.class_table(obj, 1), spec)
    if not np.array_equal(tab[k][2], pipe.class_table(obj, 1)[k][2]):
        raise Skip("different representatives")
    Y, _ = pipe.ask(ctx, "real projective", o2, s2, k, std, pipe.Bump(spec["pu"]), proj_dim=g.m - 1)
    mod, dev, _ = proj.align(F[sel], np.asarray(Y)[sel].astype(complex))
    ctx.check(mod < 1e-6 and dev < 1e-6, "agrees with real projective for q=2", lambda: "class %d: lens and real projective coordinates differ by %g" % (k, max(mod, dev)))
