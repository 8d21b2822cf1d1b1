"""Toroidal coordinates: unimodular change of basis, reported Gram matrix, reducedness."""
import itertools

import numpy as np

from .. import circ, gen, pipe, ref
from ..core import Skip

RULE = ("datasets with several coexisting classes (tori with skewed lattices, wedges, disjoint circles, blobs) x prime x list of 2..5 distinct "
        "indices in any order x percentage; non-trivial: integer matrix relating returned angles to the individual harmonic maps recovered "
        "from the angles; distinct by (dataset, landmarks, prime, list, radius)")
MIN_DISTINCT = {"quick": 60, "thorough": 500}
NEED = ["integer change of basis", "unimodular", "reported Gram matrix", "lattice reduced", "non-identity change of basis"]
CASE_TIMEOUT = 120
COST = {"jit": 2.0, "bc": 2.5, "interp": 0.5}
ASSUMPTIONS = ["only lists of classes whose balanced lifts are integer cocycles at the joint scale decide (the others belong to P08)"]


def cases(rng, tier):
    n = 480 if tier == "quick" else 4200
    for i in range(n):
        s = pipe.case(rng, "tor", nmin=24, nmax=90)
        u = rng.random()
        if u < 0.35:
            s["data"] = {"space": "skew_torus", "n": int(rng.choice([36, 49, 64])), "seed": int(rng.integers(1 << 30)), "shear": float(np.round(rng.uniform(0.2, 0.8), 2))}
            s["m"] = int(rng.integers(22, 40))
            s["perc"] = float(np.round(rng.uniform(0.05, 0.6), 3))
        elif u < 0.55:
            s["data"]["space"] = str(rng.choice(["blob", "random_metric", "three_circles", "genus2", "hop_torus"]))
            s["data"].pop("embed", None)
            s["data"]["n"] = int(rng.integers(20, 50))
        s["nclass"] = int(rng.choice([2, 2, 2, 3, 3, 4, 5]))
        s["order"] = int(rng.integers(1 << 30))
        s["std"] = bool(rng.random() < 0.2)
        s.pop("maxdim", None)
        if i % 40 == 7:
            s = pipe.crowd(rng, s)
            s["data"]["space"] = str(rng.choice(["two_circles", "torus4", "eight", "three_circles"]))
            s["data"].pop("outliers", None)
            yield "jit", s
            continue
        if s["m"] > 32 or rng.random() < 0.12:
            yield "jit", s
        else:
            yield "interp", s


def run(spec, ctx):
    obj, g, tab = circ.setup(ctx, spec)
    p = pipe.prime_of(spec)
    rng = np.random.default_rng(spec["order"])
    std = spec["std"]
    # families of classes alive together, with a non-empty range
    first = pipe.admissible(tab, std)
    if len(first) < 2:
        std = False
        first = pipe.admissible(tab, std)
    if len(first) < 2:
        raise Skip("fewer than two classes")
    sel = [first[0] if rng.random() < 0.6 else int(rng.choice(first))]
    for k in ([int(x) for x in rng.permutation(first)] if rng.random() < 0.5 else first):
        if k in sel:
            continue
        bs = [tab[q][0] for q in sel + [k]]
        ds = [tab[q][1] for q in sel + [k]]
        s0 = max(bs) * (2 if std else 1)
        if s0 < min(ds) * (1 - 1e-6) and max(bs) < min(ds):
            sel.append(k)
        if len(sel) == spec["nclass"]:
            break
    if len(sel) < 2:
        raise Skip("no coexisting classes")
    sel = [int(x) for x in rng.permutation(sel)]
    pu = pipe.Bump(spec["pu"])
    out, warns = pipe.ask(ctx, "get_coordinates", obj, spec, sel, std, pu)
    T = np.asarray(out, float)
    n = len(sel)
    ctx.check(T.shape == (n, g.N), "shape", lambda: "%s for %d classes, %d points" % (T.shape, n, g.N))
    r = pu.r
    g.guard(r)
    phi, cov, U = circ.cover(g, r, spec["pu"])
    if cov.sum() < 3:
        raise Skip("nothing covered")
    if not ctx.check(not np.isnan(T[:, cov]).any(), "covered points have angles", "nan"):
        return
    K = g.complex(r)
    tris = ref.triangles_of(K)
    Cs = []
    for k in sel:
        C = np.where(K, ref.lift1(tab[k][2], g.m, p), 0)
        if not circ.naive_is_cocycle(C, K, tris)[0]:
            raise Skip("a lift is not a cocycle")
        Cs.append(C)
    ch = ref.charts(U, "near", g.DL)
    comp = ref.components(K)
    idx = np.nonzero(cov)[0]
    H, TH = [], []
    for C in Cs:
        f, th, e, _ = ref.harmonic1(C, K)
        H.append(ref.circle_map(C, f, phi, cov, ch)[idx])
        TH.append(th)
    H = np.array(H)
    G = np.array(TH) @ np.array(TH).T
    pc = comp[ch[idx]]
    Tc = T[:, idx] / (2 * np.pi)

    def dev(row, t):
        d = ref.wrap(t - row @ H)
        o = np.zeros(comp.max() + 1)
        for q in np.unique(pc):
            o[q] = ref.circ_mean(d[pc == q])
        return float(np.max(np.abs(ref.wrap(d - o[pc]))))

    tol = 1e-3
    M = None
    cb = getattr(obj, "_change_basis", None)
    if cb is not None and np.shape(cb) == (n, n):
        cand = np.rint(np.asarray(cb, float))
        if all(dev(cand[a], Tc[a]) < tol for a in range(n)):
            M = cand
            ctx.ev("matrix as recorded by the object")
    if M is None:
        lim = {2: 8, 3: 4, 4: 3, 5: 2}[n]
        grid = sorted(itertools.product(range(-lim, lim + 1), repeat=n), key=lambda v: np.abs(v).sum())
        M = np.zeros((n, n))
        for a in range(n):
            best = (np.inf, None)
            for v in grid:
                e = dev(np.array(v, float), Tc[a])
                if e < best[0]:
                    best = (e, v)
                if e < tol:
                    break
            M[a] = best[1]
            ctx.check(best[0] < tol, "integer change of basis",
                      lambda: "coordinate %d of classes %s (prime %d) is no integer combination of the individual coordinates (closest %s at %g turns)" % (a, sel, p, best[1], best[0]))
            if best[0] >= tol:
                return
    ctx.ev("integer change of basis", n)
    det = np.linalg.det(M)
    if np.linalg.cond(G) < 1e9:
        ctx.check(abs(abs(det) - 1) < 1e-6, "unimodular", lambda: "classes %s prime %d: change of basis %s has determinant %g" % (sel, p, M.tolist(), det))
    if not np.array_equal(M, np.eye(n)):
        ctx.ev("non-identity change of basis")
    GM = M @ G @ M.T
    gs = np.trace(G)
    rep = getattr(obj, "_gram_matrix", None)
    if rep is not None:
        ctx.check(np.shape(rep) == (n, n) and np.allclose(rep, GM, atol=1e-5 * np.trace(GM), rtol=1e-5), "reported Gram matrix",
                  lambda: "classes %s: reported %s, Gram matrix of the returned coordinates %s" % (sel, np.round(rep, 5).tolist(), np.round(GM, 5).tolist()))
    org = getattr(obj, "_original_gram_matrix", None)
    if org is not None:
        ctx.check(np.shape(org) == (n, n) and np.allclose(org, G, atol=1e-5 * gs, rtol=1e-5), "original Gram matrix",
                  lambda: "classes %s: reported %s, exact %s" % (sel, np.round(org, 5).tolist(), np.round(G, 5).tolist()))
    if np.linalg.cond(GM) < 1e8:
        ok, why = ref.lll_reduced(GM, 0.75, 1e-4)
        ctx.check(ok, "lattice reduced", lambda: "classes %s prime %d: basis %s with Gram matrix %s is not reduced: %s" % (sel, p, M.tolist(), np.round(GM, 5).tolist(), why))
    ctx.ev("lists of %d classes" % n)
    ctx.sig(spec["data"], g.m, p, sel, round(r / g.scale, 6))
