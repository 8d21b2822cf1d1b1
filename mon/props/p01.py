"""Ranking and representatives of the persistent classes."""
import numpy as np

from .. import gen, pipe, ref
from ..core import Skip

RULE = ("random datasets (27 kinds of spaces, ties, repeated points, integer distances, three input representations) x class "
        "x prime x dimension; non-trivial: an object with at least one class whose representative was tested against mod p "
        "linear algebra on the flag complex of its landmarks; distinct by (dataset, prime, number of landmarks, class)")
INTERP_IS_FINAL = True
MIN_DISTINCT = {"quick": 150, "thorough": 600}
NEED = ["cocycle below death", "non-trivial inside", "trivial before birth", "betti span", "diagram", "ranking"]
CASE_TIMEOUT = 90
ASSUMPTIONS = ["the persistence diagram of the landmarks computed by ripser directly is the ground truth for births and deaths"]


def cases(rng, tier):
    n = 990 if tier == "quick" else 5000
    for i in range(n):
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.3, 0.15, 0.15, 0.15, 0.25]))
        kw = {}
        if cls == "cplx":
            kw = dict(mmax=15)
        elif rng.random() < 0.15:
            kw = dict(mmin=26, mmax=45, nmin=60, nmax=110)
        s = pipe.case(rng, cls, **kw)
        if cls != "cplx" and "maxdim" in s:
            s["m"] = min(s["m"], 15)
        if rng.random() < 0.15:
            s["m"] = 10 ** 6  # all the points are landmarks
            s["data"]["n"] = int(rng.integers(8, 15 if cls == "cplx" else 30))
        if rng.random() < 0.12:
            s["data"]["space"] = str(rng.choice(["dup_circle", "int_dup_ring", "circle_even", "int_ring"]))
            s["data"].pop("embed", None)
        if rng.random() < 0.1:
            s.pop("prime", None)  # the documented default
        if cls == "cplx" and rng.random() < 0.08:
            s["maxdim"] = 3
            s["m"] = min(s["m"], 12)
        if i % 60 == 7 and cls != "cplx":
            pipe.crowd(rng, s, "landmarks")
            yield "jit", s
            continue
        yield "interp", s


def match(A, B, tol):
    """do two families of intervals agree up to tol (short intervals ignored)?"""
    from scipy.optimize import linear_sum_assignment

    A = np.reshape(A, (-1, 2)).astype(float)
    B = np.reshape(B, (-1, 2)).astype(float)
    A = np.where(np.isfinite(A), A, 1e6)
    B = np.where(np.isfinite(B), B, 1e6)
    n, m = len(A), len(B)
    C = np.zeros((n + m, n + m))
    C[:n, :m] = np.abs(A[:, None] - B[None]).max(-1) if n and m else 0
    C[:n, m:] = ((A[:, 1] - A[:, 0]) / 2)[:, None]
    C[n:, :m] = ((B[:, 1] - B[:, 0]) / 2)[None]
    C[n:, m:] = 0
    r, c = linear_sum_assignment((C > tol).astype(float))
    return float(C[r, c].max()) if n + m else 0.0


def run(spec, ctx):
    from ripser import ripser

    arr, dm, D, rep = pipe.arrays(spec)
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo(obj, spec, D)
    p = pipe.prime_of(spec)
    maxdim = max(spec.get("maxdim", pipe.DIM[spec["cls"]]), 1)
    rows = np.asarray(g.DLL)
    fin = rows[np.isfinite(rows)]
    scale = float(fin.max()) if len(fin) else 1.0
    if scale == 0:
        raise Skip("all points coincide")
    eps = 2e-5 * scale
    ctx.check(len(set(g.idx.tolist())) == g.m, "distinct landmarks", lambda: "repeated landmarks %s" % g.idx)
    pts = min(spec["m"], len(D))
    ctx.check(g.m <= pts, "landmark count", "more landmarks than requested")
    truth = ripser(np.array(rows), distance_matrix=True, coeff=p, maxdim=maxdim)["dgms"]
    for dim in range(1, maxdim + 1):
        tab = pipe.class_table(obj, dim)
        iv = np.array([[b, d] for b, d, _ in tab]).reshape(-1, 2)
        stored = getattr(obj, "dgms_", getattr(obj, "_dgms", None))
        if stored is not None:
            ctx.check(np.array_equal(np.asarray(stored[dim], float), iv), "accessor agrees with stored diagram", "dim %d" % dim)
        err = match(iv, truth[dim], eps)
        ctx.check(err <= eps, "diagram", lambda: "dim %d diagram differs from the Rips diagram of the landmarks by %g (scale %g): %s vs %s" % (dim, err, scale, iv[:4], truth[dim][:4]))
        pers = iv[:, 1] - iv[:, 0]
        ctx.check(np.all(pers > 0), "positive persistence", lambda: "%s" % pers)
        if len(pers) > 1:
            fp = np.where(np.isfinite(pers), pers, 1e30)
            ctx.check(np.all(np.diff(fp) <= 1e-6 * scale), "ranking", lambda: "dim %d persistences not decreasing: %s" % (dim, pers[:8]))
        if not tab:
            continue
        order = np.argsort(-pers, kind="stable")
        if dim > 2:
            ctx.ev("dimension three")
            continue
        if g.m > 50 and dim == 1:
            many(ctx, spec, g, rows, tab, [int(k) for k in order if pers[k] > 8 * eps][:4], eps, p)
            continue
        tested = [int(k) for k in order if pers[k] > 8 * eps][:6]
        if not tested:
            continue
        cache = {}

        def system(s):
            K = rows < s
            K[~np.isfinite(rows)] = False
            np.fill_diagonal(K, False)
            key = K.tobytes()
            if key not in cache:
                A, B, index = ref.boundary_matrices(K, dim)
                cache[key] = (K, A, B, index)
            return cache[key]

        def vec(C, index):
            v = np.zeros(len(index), dtype=np.int64)
            for simplex, n in index.items():
                v[n] = C[simplex]
            return v

        cochains = {}
        for k in tested:
            b, d, c = tab[k]
            ok = c.ndim == 2 and c.shape[1] == dim + 2 and len(c) > 0
            ctx.check(ok, "cocycle format", lambda: "class %d dim %d shape %s" % (k, dim, c.shape))
            if not ok:
                raise Skip("format")
            V = c[:, :-1]
            inr = V.min() >= 0 and V.max() < g.m
            ctx.check(inr, "indices are landmark positions", lambda: "class %d: indices %d..%d, %d landmarks" % (k, V.min(), V.max(), g.m))
            if not inr:
                raise Skip("indices")
            ctx.check(c[:, -1].min() >= 0 and c[:, -1].max() < p, "values in the field", lambda: "class %d values %s mod %d" % (k, np.unique(c[:, -1]), p))
            S = np.sort(V, 1)
            ctx.check(np.all(np.diff(S, axis=1) > 0) and len(np.unique(S, axis=0)) == len(S), "simplices are proper and listed once", lambda: "class %d" % k)
            C = ref.cochain1(c, g.m) if dim == 1 else ref.cochain2(c, g.m)
            cochains[k] = C
            # cocycle condition right below the end of the interval
            hi = d - eps if np.isfinite(d) else np.inf
            K, A, B, index = system(hi)
            v = vec(C, index)
            bad = np.mod(B @ v, p)
            ctx.check(not bad.any(), "cocycle below death", lambda: "class %d dim %d prime %d: %d of %d simplices fail just below death %g" % (k, dim, p, np.count_nonzero(bad), len(bad), d))
            ctx.check(not ref.in_span_mod(A, v, p), "non-trivial inside", lambda: "class %d dim %d prime %d is a coboundary just below its death %g" % (k, dim, p, d))
            # at the birth scale
            K, A, B, index = system(b + eps)
            ctx.check(not ref.in_span_mod(A, vec(C, index), p), "non-trivial inside", lambda: "class %d dim %d prime %d is a coboundary at its birth %g" % (k, dim, p, b))
            K, A, B, index = system(b - eps)
            ctx.check(ref.in_span_mod(A, vec(C, index), p), "trivial before birth", lambda: "class %d dim %d prime %d is not a coboundary before its birth %g" % (k, dim, p, b))
            ctx.sig(spec["data"], p, g.m, dim, k)
        # the classes alive at a scale are a basis of the cohomology
        scales = sorted({(tab[k][0] + min(tab[k][1], scale * 1.01)) / 2 for k in tested[:3]})
        ends = np.r_[iv[:, 0], iv[np.isfinite(iv[:, 1]), 1]]
        for s in scales:
            if np.min(np.abs(ends - s)) < 2 * eps or np.min(np.abs(rows[np.triu_indices(g.m, 1)] - s)) < eps:
                continue
            K, A, B, index = system(s)
            alive = [k for k in range(len(tab)) if tab[k][0] < s < tab[k][1]]
            vs = []
            for k in alive:
                C = cochains.get(k)
                if C is None:
                    C = ref.cochain1(tab[k][2], g.m) if dim == 1 else ref.cochain2(tab[k][2], g.m)
                vs.append(vec(C, index))
            ra = ref.rank_mod(A, p)
            betti = len(index) - (ref.rank_mod(B, p) if len(B) else 0) - ra
            rank = ref.rank_mod(np.hstack([A] + [v[:, None] for v in vs]), p) - ra
            ctx.check(betti == len(alive), "betti span", lambda: "dim %d prime %d scale %g: cohomology has dimension %d, %d classes alive" % (dim, p, s, betti, len(alive)))
            ctx.check(rank == len(alive), "independence", lambda: "dim %d prime %d scale %g: classes alive %s span dimension %d" % (dim, p, s, alive, rank))


def many(ctx, spec, g, rows, tab, ks, eps, p):
    """too many landmarks for linear algebra: the same conditions for 1-cochains by propagating potentials"""
    i, j = np.triu_indices(g.m, 1)

    def coboundary(C, s):
        K = (rows < s) & np.isfinite(rows)
        np.fill_diagonal(K, False)
        lab = -np.ones(g.m, int)
        f = np.zeros(g.m, np.int64)
        for q in range(g.m):
            if lab[q] >= 0:
                continue
            lab[q] = q
            st = [q]
            while st:
                a = st.pop()
                new = np.nonzero(K[a] & (lab < 0))[0]
                lab[new] = q
                f[new] = f[a] + C[a, new]
                st.extend(new.tolist())
        on = K[i, j]
        return not np.any(np.mod(C[i, j] - f[j] + f[i], p)[on])

    for k in ks:
        b, d, c = tab[k]
        ok = c.ndim == 2 and c.shape[1] == 3 and len(c) > 0
        ctx.check(ok, "cocycle format", lambda: "class %d shape %s" % (k, c.shape))
        if not ok:
            return
        V = c[:, :-1]
        if not ctx.check(V.min() >= 0 and V.max() < g.m, "indices are landmark positions", lambda: "class %d: indices %d..%d, %d landmarks" % (k, V.min(), V.max(), g.m)):
            return
        ctx.check(c[:, -1].min() >= 0 and c[:, -1].max() < p, "values in the field", lambda: "class %d values %s mod %d" % (k, np.unique(c[:, -1]), p))
        C = ref.cochain1(c, g.m)
        hi = d - eps if np.isfinite(d) else np.inf
        K = (rows < hi) & np.isfinite(rows)
        np.fill_diagonal(K, False)
        bad = 0
        for a in range(g.m):
            n = np.nonzero(K[a, a + 1:])[0] + a + 1
            v = np.mod(C[a, n][:, None] + C[np.ix_(n, n)] - C[a, n][None, :], p)
            bad += np.count_nonzero(v[np.triu(K[np.ix_(n, n)])])
        ctx.check(bad == 0, "cocycle below death", lambda: "class %d prime %d: %d triangles fail just below death %g" % (k, p, bad, d))
        ctx.check(not coboundary(C, hi), "non-trivial inside", lambda: "class %d prime %d is a coboundary just below its death %g" % (k, p, d))
        ctx.check(not coboundary(C, b + eps), "non-trivial inside", lambda: "class %d prime %d is a coboundary at its birth %g" % (k, p, b))
        ctx.check(coboundary(C, b - eps), "trivial before birth", lambda: "class %d prime %d is not a coboundary before its birth %g" % (k, p, b))
        ctx.ev("many landmarks")
        ctx.sig(spec["data"], p, g.m, 1, k)
