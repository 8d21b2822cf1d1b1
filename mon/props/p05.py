"""Circular coordinates represent exactly the selected class."""
import numpy as np

from .. import circ, gen, pipe, ref
from ..core import Skip

RULE = ("random datasets x prime x class x percentage x range x bump function x representation, circular and one- or several-class "
        "toroidal requests; non-trivial: covered points whose angles were fitted against every map of the selected integer class "
        "(evaluated in the nearest ball, not the one the code uses); distinct by (dataset, landmarks, prime, class, radius)")
MIN_DISTINCT = {"quick": 100, "thorough": 600}
NEED = ["single continuous map of the class", "selected class", "winding of landmark cycles"]
CASE_TIMEOUT = 90
COST = {"jit": 1.2, "bc": 1.5, "interp": 0.25}
ASSUMPTIONS = ["distances closer than 1e-6 (relative) to the radius or the scale decide nothing and are skipped"]


def cases(rng, tier):
    n = 630 if tier == "quick" else 5200
    for i in range(n):
        s = pipe.case(rng, "circ" if rng.random() < 0.75 else "tor")
        u = rng.random()
        if i % 20 == 7:
            yield "jit", pipe.crowd(rng, s)
            continue
        if u < 0.12:  # bigger complexes and datasets, compiled
            s["m"] = int(rng.integers(30, 90))
            s["data"]["n"] = int(rng.integers(100, 400))
            s.pop("maxdim", None)
            yield "jit", s
        elif u < 0.2:
            yield "jit", s
        else:
            if rng.random() < 0.1:
                s.pop("prime", None)  # the documented default
            yield "interp", s


def cycles(K, rng, n):
    """closed chains of landmarks: fundamental cycles of a random spanning tree"""
    m = len(K)
    par = -np.ones(m, int)
    depth = np.zeros(m, int)
    seen = np.zeros(m, bool)
    for r in rng.permutation(m):
        if seen[r]:
            continue
        seen[r] = True
        st = [r]
        while st:
            a = st.pop(rng.integers(len(st)))
            for b in rng.permutation(np.nonzero(K[a])[0]):
                if not seen[b]:
                    seen[b] = True
                    par[b] = a
                    depth[b] = depth[a] + 1
                    st.append(b)
    i, j = ref.edges_of(K)
    out = []
    for e in rng.permutation(len(i)):
        a, b = int(i[e]), int(j[e])
        if par[a] == b or par[b] == a:
            continue
        A, B = [a], [b]
        while A[-1] != B[-1]:
            if depth[A[-1]] >= depth[B[-1]]:
                A.append(par[A[-1]])
            else:
                B.append(par[B[-1]])
        out.append([int(x) for x in A + B[-2::-1]])
        if len(out) >= n:
            break
    return out


def run(spec, ctx):
    obj, g, tab = circ.setup(ctx, spec)
    p = pipe.prime_of(spec)
    k, std = pipe.choose(tab, spec)
    b, d, rows = tab[k]
    pu = pipe.Bump(spec["pu"])
    out, warns = pipe.ask(ctx, "get_coordinates", obj, spec, k, std, pu)
    theta = np.asarray(out[0] if spec["cls"] == "tor" else out, float)
    r = pu.r if pu.r is not None else pipe.formula_r(b, d, spec["perc"], std)
    g.guard(r)
    phi, cov, U = circ.cover(g, r, spec["pu"])
    if cov.sum() < 3:
        raise Skip("nothing covered")
    ctx.check(theta.shape == (g.N,), "one angle per point", lambda: "shape %s" % (theta.shape,))
    K = g.complex(r)
    C = np.where(K, ref.lift1(rows, g.m, p), 0)
    ok, tris = circ.naive_is_cocycle(C, K)
    bad = np.isnan(theta[cov])
    if not ctx.check(not bad.any(), "covered points have angles", "%d covered points without angle" % bad.sum()):
        raise Skip("nan")
    ctx.check(np.all((theta[cov] >= 0) & (theta[cov] <= 2 * np.pi)), "angles in [0, 2pi]", lambda: "%g..%g" % (theta[cov].min(), theta[cov].max()))
    if not ok:
        ctx.ev("naive lift not a cocycle")
        if not ctx.check(not np.any(ref.d1_max_defect(C, tris, p)), "representative is a cocycle at the scale", "class %d" % k):
            raise Skip("not a class")
        cands = [W for how, W in circ.candidates(C, K, p, theta, g, cov) if circ.congruent(W, C, K, p)]
        if not cands:
            raise Skip("repaired class not recovered")
    else:
        cands = [C, -C] if p == 2 else [C]
    fits = [circ.judge(theta, W, K, phi, cov, U, g.DL) for W in cands]
    best = min(range(len(fits)), key=lambda q: fits[q]["resid"] + fits[q]["fdev"] * 1e-3)
    f = fits[best]
    if not ok and f["resid"] > circ.RES_TOL and not pipe.MILP:
        raise Skip("repaired class not recovered")
    ctx.check(f["resid"] < circ.RES_TOL, "single continuous map of the class",
              lambda: "class %d prime %d r %g: angles are at %g turns from every map of the class (harmonic: %g)" % (k, p, r, f["resid"], f["fdev"]))
    ctx.check(f["fdev"] < 2e-3, "selected class",
              lambda: "class %d prime %d r %g: angles are at %g turns from the map of the class" % (k, p, r, f["fdev"]))
    # total turning along closed chains of landmarks, counted with angles of points next to them
    W = cands[best]
    rng = np.random.default_rng(spec["data"]["seed"])
    th = f["th"]
    if ok and len(th) and np.max(np.abs(th)) < 0.4:
        t = theta[g.idx] / (2 * np.pi)
        i, j = ref.edges_of(K)
        TH = np.zeros((g.m, g.m))
        TH[i, j] = th
        TH[j, i] = -th
        for cyc in cycles(K, rng, 6):
            pairs = list(zip(cyc, cyc[1:] + cyc[:1]))
            harm = np.array([TH[a, c] for a, c in pairs])
            arcs = np.array([t[c] - t[a] for a, c in pairs])
            turns = arcs + np.rint(harm - arcs)  # the arc each step of the chain travels
            if np.max(np.abs(turns - harm)) < 0.3:
                ctx.check(abs(turns.sum() - sum(int(W[a, c]) for a, c in pairs)) < 1e-6, "winding of landmark cycles",
                          lambda: "turning %g along %s" % (turns.sum(), cyc))
    ctx.sig(spec["data"], g.m, p, k, round(r / g.scale, 6))
