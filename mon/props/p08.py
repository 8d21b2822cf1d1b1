"""Finite-field classes are lifted to integer classes, or refused when no lift exists."""
import re

import numpy as np

from .. import circ, gen, pipe, ref
from ..core import Skip, priv

RULE = ("primes 2, 3, 5, 7 over trefoils (whose lifts fail), blobs, random metrics, projective planes, Moore spaces, Klein bottles, spheres; circular, "
        "toroidal and complex projective requests; the reference solves the integer lifting problem exactly (sparse Hermite elimination); "
        "non-trivial: the naive balanced lift of a requested class is not an integer cocycle; distinct by (dataset, prime, classes, radius)")
MIN_DISTINCT = {"quick": 30, "thorough": 150}
NEED = ["repaired class", "refused without a lift", "several failing classes", "degree 2 repaired", "refusal of a class asked for at another position"]
CASE_TIMEOUT = 25
COST = {"jit": 3.0, "bc": 3.0, "interp": 0.4}
ASSUMPTIONS = ["the integer solver's answer, when observable, is used to guess the integer class; the guess is verified to be an integer cocycle congruent to the class before use",
               "integer programs that need more than 8 s decide nothing"]


def cases(rng, tier):
    n = 300 if tier == "quick" else 2600
    for i in range(n):
        u = rng.random()
        torsion = False
        if u < 0.16:
            s = pipe.case(rng, "circ" if rng.random() < 0.4 else "tor")
            sp = str(rng.choice(["trefoil", "two_trefoils"], p=[0.4, 0.6]))
            s["data"] = {"space": sp, "n": int(rng.integers(250, 500)) * (2 if sp == "two_trefoils" else 1), "seed": int(rng.integers(1 << 30)), "width": float(rng.choice([6, 8, 10]))}
            s["m"] = int(rng.integers(60, 100)) if sp == "trefoil" else int(rng.integers(90, 140))
            s["prime"] = int(rng.choice([2, 3, 3, 5]))
            s["perc"] = float(np.round(rng.uniform(0.5, 0.97), 3))
            s["std"] = False
            s["rep"] = "pc"
            s.pop("maxdim", None)
            s["nclass"] = 2
            yield "jit", s
            continue
        if u < 0.5:
            s = pipe.case(rng, "cplx", spaces=["sphere", "blob", "random_metric", "fib_sphere", "torus_grid", "rp2", "ellipsoid"], mmin=9, mmax=14, nmin=12, nmax=30)
            s["prime"] = int(rng.choice([2, 2, 2, 3, 5]))
            if rng.random() < 0.45:
                n1 = int(rng.integers(14, 20))
                s["data"] = {"space": "susp_rp2", "n": n1, "seed": int(rng.integers(1 << 30)), "R": float(np.round(rng.uniform(0.72, 0.98), 3))}
                s.update(m=n1, prime=2, rep="dm", pick=0)
        elif u < 0.75:
            s = pipe.case(rng, "circ" if rng.random() < 0.5 else "tor", spaces=["rp2", "klein", "moore", "blob", "random_metric", "torus4", "genus2", "hop_torus", "trefoil"])
            s["prime"] = int(rng.choice([2, 2, 3, 5, 7]))
            s["m"] = int(rng.integers(9, 20))
            if s["data"]["space"] == "moore":
                s["prime"] = s["data"]["q"]
        else:
            s = pipe.case(rng, "circ" if rng.random() < 0.6 else "tor", spaces=["rp2", "moore"], nmin=50, nmax=110)
            s["m"] = int(rng.integers(15, 26))
            if s["cls"] == "tor" and rng.random() < 0.75:
                s["data"] = {"space": "rp2_circles", "n": int(rng.integers(36, 46)), "seed": int(rng.integers(1 << 30))}
                s["m"], s["rep"] = 60, "dm"
            if s["data"]["space"] == "moore":
                s["data"]["q"] = int(rng.choice([2, 3]))
                s["m"] = int(rng.integers(22, 33))
            s["prime"] = s["data"].get("q", 2)
            s["pick"] = 0
            torsion = True
        s["perc"] = float(np.round(rng.uniform(0.6 if torsion else 0.05, 0.97), 3))
        if s["data"]["space"] == "rp2_circles":
            s["perc"] = float(np.round(rng.uniform(0.8, 0.97), 3))
        s["std"] = False
        s["nclass"] = int(rng.choice([1, 2, 3] if s["data"]["space"] != "rp2_circles" else [2, 3, 3]))
        s["data"].pop("embed", None)
        s["pu"] = "linear"
        s.pop("maxdim", None)
        yield ("jit" if rng.random() < 0.1 else "interp"), s


def pick_classes(tab, spec):
    first = pipe.admissible(tab, False, 0.02)
    if not first:
        raise Skip("no admissible class")
    if spec["cls"] != "tor":
        pick = spec.get("pick", 0)
        return first[min(pick, len(first) - 1) if pick >= 0 else (-pick) % len(first)]
    sel = [first[0]]
    for k in first[1:]:
        b = max(tab[q][0] for q in sel + [k])
        d = min(tab[q][1] for q in sel + [k])
        if b < d * (1 - 1e-3) and len(sel) < spec["nclass"]:
            sel.append(k)
    # requested in any order, with or without the most persistent class
    rng = np.random.default_rng([spec["data"]["seed"], spec["m"]])
    sel = [sel[i] for i in rng.permutation(len(sel))]
    return sel[1:] if len(sel) > 1 and rng.random() < 0.3 else sel


def run(spec, ctx):
    deg = pipe.DIM[spec["cls"]]
    arr, dm, D, rep = pipe.arrays(spec)
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo(obj, spec, D)
    tab = pipe.class_table(obj, deg)
    if not tab:
        raise Skip("no class")
    p = pipe.prime_of(spec)
    k = pick_classes(tab, spec)
    sel = k if isinstance(k, list) else [k]
    pu = pipe.Bump(spec["pu"])
    m = g.m
    over = {}
    if deg == 2:
        over = dict(proj_dim=m - 1, projective_dim_red_mode="exponential")
    out, err = None, None
    try:
        out, warns = pipe.request(obj, spec, k, False, pu, **over)
    except Skip:
        raise
    except Exception as e:
        err = e
    b = max(tab[q][0] for q in sel)
    d = min(tab[q][1] for q in sel)
    r = pu.r if pu.r is not None else pipe.formula_r(b, d, spec["perc"], False)
    g.guard(r)
    K = g.complex(r)
    Cs, failing = [], []
    tris = ref.triangles_of(K)
    for q in sel:
        if deg == 1:
            C = np.where(K, ref.lift1(tab[q][2], m, p), 0)
            v = ref.d1_max_defect(C, tris)
        else:
            C = np.where(K[:, :, None] & K[None] & K[:, None, :], ref.lift2(tab[q][2], m, p), 0)
            v = ref.d2_values(C, ref.tetrahedra_of(K, tris))
        if np.any(np.mod(v, p)):
            ctx.viol("representative is a cocycle at the scale", "class %d prime %d" % (q, p))
            return
        Cs.append(C)
        if np.any(v):
            failing.append(q)
    nolift = [q for q, C in zip(sel, Cs) if q in failing and not (ref.lift_exists1(C, K, p, tris) if deg == 1 else ref.lift_exists2(C, K, p))]
    where = "%s classes %s prime %d r %g degree %d" % (spec["cls"], sel, p, r, deg)
    if len(failing) > 1:
        ctx.ev("several failing classes")
    if err is not None:
        nums = [int(x) for x in re.findall(r"\d+", str(err))]
        if not nolift:
            ctx.viol("refused although a lift exists", "%s: raised %s: %s; classes whose naive lift fails: %s, all of them lift" % (where, type(err).__name__, str(err)[:120], failing))
            return
        ctx.check(any(q in nums for q in nolift), "refusal names a class without lift", lambda: "%s: classes without lift %s, message %s" % (where, nolift, str(err)[:160]))
        ctx.ev("refused without a lift")
        if any(sel.index(q) != q for q in nolift):
            ctx.ev("refusal of a class asked for at another position")
        ctx.ev("refused without a lift, degree %d" % deg)
        ctx.sig(spec["data"], p, m, sel, round(r, 6))
        return
    if nolift:
        ctx.viol("answered although no lift exists", "%s: class %s has no integer lift but coordinates were returned" % (where, nolift))
        return
    if not failing:
        ctx.ev("naive lift is a cocycle")
        if deg == 2:
            return
    else:
        ctx.sig(spec["data"], p, m, sel, round(r, 6))
    phi, cov, U = ref.weights(g.DL, r, spec["pu"])
    if cov.sum() < 3:
        raise Skip("nothing covered")
    recorded = [x.get("x") for x in pipe.MILP if x.get("x") is not None]
    ch = ref.charts(U, "near", g.DL)
    if deg == 1:
        T = np.atleast_2d(np.asarray(out, float))
        if not ctx.check(not np.isnan(T[:, cov]).any(), "covered points have angles", where):
            return
        opts = []
        for q, C in zip(sel, Cs):
            if q not in failing:
                opts.append([C, -C] if p == 2 and len(sel) == 1 else [C])
                continue
            c = [W for how, W in circ.candidates(C, K, p, T[0], g, cov) if circ.congruent(W, C, K, p)] if len(sel) == 1 else []
            for x in recorded:
                if len(x) == m * (m - 1) // 2:
                    W = C - p * circ.edge_vector_to_cochain(np.rint(x).astype(np.int64), m)
                    W = np.where(K, W, 0)
                    if not np.any(ref.d1_max_defect(W, tris)) and circ.congruent(W, C, K, p):
                        c.append(W)
            opts.append(c)
        # what the angles would be if the failing lift had been used unrepaired
        if any(not c for c in opts):
            if recorded:
                ctx.viol("repaired class", "%s: no integer cocycle congruent to classes %s corresponds to the solver's answer" % (where, [q for q, c in zip(sel, opts) if not c]))
                return
            if len(sel) == 1 and len(pipe.MILP) == 0:
                f, th, _, (A, c) = ref.harmonic1(Cs[0], K)
                h = ref.circle_map(Cs[0], f, phi, cov, np.argmax(U, 0))
                dv = ref.wrap(T[0][cov] / (2 * np.pi) - h[cov])
                dv = ref.wrap(dv - ref.circ_mean(dv))
                if np.max(np.abs(dv)) < 1e-4:
                    ctx.viol("repaired class", "%s: the lift is not an integer cocycle at the scale but was used unrepaired" % where)
                    return
            raise Skip("repaired class not recovered")
        M = np.eye(1)
        if len(sel) > 1:
            M = np.rint(np.asarray(priv(obj, "_change_basis"), float))
        import itertools

        best = None
        for combo in itertools.islice(itertools.product(*opts), 60):
            fits = []
            for a in range(len(sel)):
                W = sum(int(M[a, q]) * combo[q] for q in range(len(sel)))
                fits.append(ref.fit_circle_map(T[a], W, K, phi, cov, ch))
            e = max(f["resid"] + f["fdev"] * 1e-3 for f in fits)
            if best is None or e < best[0]:
                best = (e, max(f["resid"] for f in fits), max(f["fdev"] for f in fits))
        if best[1] > circ.RES_TOL or best[2] > 2e-3:
            if failing and not recorded:
                raise Skip("repaired class not recovered")
        ctx.check(best[1] < circ.RES_TOL and best[2] < 2e-3, "repaired class" if failing else "unrepaired class",
                  lambda: "%s: naive lift fails for %s; angles are at %g (%g) turns from the map of the integer class" % (where, failing, best[1], best[2]))
        return
    # degree 2: unreduced coordinates against the map of the repaired class
    C = Cs[0]
    tets = ref.tetrahedra_of(K, tris)
    cands = []
    for x in recorded:
        if len(x) != m * (m - 1) * (m - 2) // 6:
            continue
        W = np.zeros_like(C)
        n = 0
        x = np.rint(x).astype(np.int64)
        for kk in range(m):
            for jj in range(kk):
                for ii in range(jj):
                    for pm, s in ref._SGN3:
                        t = (ii, jj, kk)
                        W[t[pm[0]], t[pm[1]], t[pm[2]]] = s * x[n]
                    n += 1
        W = np.where(K[:, :, None] & K[None] & K[:, None, :], C - p * W, 0)
        if not np.any(ref.d2_values(W, tets)):
            cands.append(W)
    F = np.asarray(out)
    if not cands:
        if recorded:
            ctx.viol("repaired class", "%s: the solver's answer does not give an integer cocycle" % where)
            return
        if not pipe.MILP:
            nu, _, _ = ref.harmonic2(C, K)
            R = ref.complex_map(C, nu, K, phi, cov & (np.arange(g.N) < 80), np.argmax(U, 0))
            i = np.nonzero(~np.isnan(R[:, 0].real))[0]
            if np.max(np.abs(ref.gram_mod(F[i]) - ref.gram_mod(R[i]))) < 1e-4:
                ctx.viol("repaired class", "%s: the lift is not an integer cocycle at the scale but was used unrepaired" % where)
                return
        raise Skip("repaired class not recovered")
    errs = []
    for W in cands:
        nu, _, _ = ref.harmonic2(W, K)
        R = ref.complex_map(W, nu, K, phi, cov & (np.arange(g.N) < 80), ch)
        i = np.nonzero(~np.isnan(R[:, 0].real))[0]
        errs.append(float(np.max(np.abs(ref.gram_mod(F[i]) - ref.gram_mod(R[i])))))
    ctx.ev("degree 2 repaired")
    ctx.check(min(errs) < 1e-3, "repaired class", lambda: "%s: coordinates differ by %g from the map of the repaired integer class" % (where, min(errs)))
