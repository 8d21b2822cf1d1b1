"""Each circular coordinate minimises the Dirichlet energy of its class."""
import numpy as np

from .. import circ, gen, pipe, ref
from ..core import Skip
from . import p05

RULE = ("random datasets x prime x class x percentage x range x bump function; non-trivial: angles of covered points determine the map's "
        "values at the landmarks well enough to compute its energy along the landmark pairs below the scale; distinct by (dataset, landmarks, prime, class, radius)")
MIN_DISTINCT = {"quick": 100, "thorough": 600}
NEED = ["minimal energy", "harmonic up to rotations"]
CASE_TIMEOUT = 90
COST = p05.COST
ASSUMPTIONS = ["least squares solver tolerance: energy may exceed the minimum by 1e-6 (relative) + 1e-8, values may differ by 1e-4 turns"]


def cases(rng, tier):
    n = 600 if tier == "quick" else 5200
    for i in range(n):
        s = pipe.case(rng, "circ" if rng.random() < 0.8 else "tor")
        if rng.random() < 0.25:
            s["data"]["space"] = str(rng.choice(["two_circles", "three_circles", "concentric", "graph_two"]))
        if rng.random() < 0.3:
            s["perc"] = float(rng.choice([0.01, 0.05, 0.95, 0.99]))
        u = rng.random()
        if i % 40 == 7:
            yield "jit", pipe.crowd(rng, s)
            continue
        if i % 40 == 3:
            # long thin complexes: the worst conditioned least squares problems
            n = int(rng.integers(150, 520))
            s["data"] = {"space": "long_cycle", "n": n, "seed": int(rng.integers(1 << 30))}
            s.update(cls="circ", rep="dm", m=10 ** 6 if rng.random() < 0.7 else n - 40, perc=float(rng.uniform(0.001, 0.02)))
            s.pop("maxdim", None)
            yield "jit", s
            continue
        if u < 0.14:
            s["m"] = int(rng.integers(30, 110))
            s["data"]["n"] = int(rng.integers(110, 400))
            s.pop("maxdim", None)
            yield "jit", s
        elif u < 0.2:
            yield "jit", s
        else:
            yield "interp", s


def run(spec, ctx):
    obj, g, tab = circ.setup(ctx, spec)
    p = pipe.prime_of(spec)
    k, std = pipe.choose(tab, spec)
    b, d, rows = tab[k]
    pu = pipe.Bump(spec["pu"])
    out, warns = pipe.ask(ctx, "get_coordinates", obj, spec, k, std, pu)
    theta = np.asarray(out[0] if spec["cls"] == "tor" else out, float)
    r = pu.r if pu.r is not None else pipe.formula_r(b, d, spec["perc"], std)
    g.guard(r)
    phi, cov, U = circ.cover(g, r, spec["pu"])
    if cov.sum() < 3:
        raise Skip("nothing covered")
    if np.isnan(theta[cov]).any():
        ctx.viol("covered points have angles", "nan")
        return
    K = g.complex(r)
    C = np.where(K, ref.lift1(rows, g.m, p), 0)
    ok, tris = circ.naive_is_cocycle(C, K)
    if not ok:
        ctx.ev("naive lift not a cocycle")
        if np.any(ref.d1_max_defect(C, tris, p)):
            raise Skip("representative is not a cocycle")
        cands = [W for how, W in circ.candidates(C, K, p, theta, g, cov) if circ.congruent(W, C, K, p)]
        if not cands:
            raise Skip("repaired class not recovered")
    else:
        cands = [C, -C] if p == 2 else [C]
    fits = [circ.judge(theta, W, K, phi, cov, U, g.DL) for W in cands]
    f = min(fits, key=lambda f: f["fdev"])
    if not ok and f["resid"] > circ.RES_TOL:
        raise Skip("repaired class not recovered")
    ctx.check(f["energy"] <= f["emin"] * (1 + 1e-6) + 1e-8, "minimal energy",
              lambda: "class %d prime %d r %g: energy %.9g, minimum of the class %.9g" % (k, p, r, f["energy"], f["emin"]))
    ctx.check(f["fdev"] < 1e-4, "harmonic up to rotations",
              lambda: "class %d prime %d r %g: angles differ by %g turns from the smoothest map (after a rotation of each of %d components)" % (k, p, r, f["fdev"], f["comps"]))
    if f["comps"] > 1:
        ctx.ev("several components")
    ctx.sig(spec["data"], g.m, p, k, round(r / g.scale, 6))
