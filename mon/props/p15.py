"""Numbering of simplices, orientation of dense cochains, coboundary matrices."""
import itertools

import numpy as np

from .. import gen, ref

RULE = ("simplex numbering evaluated exhaustively for up to 13 vertices (dimensions 0..3) and on all edges / random simplices of up to 2400 vertices; random sparse cochains in shuffled vertex "
        "orders made dense; four coboundary matrices of random, tied, integer, repeated, empty and complete distance matrices in several dtypes and layouts compared entry by entry with brute force; "
        "non-trivial: a numbering table, a cochain or a set of matrices; distinct by input")
MIN_DISTINCT = {"quick": 250, "thorough": 3000}
NEED = ["numbering", "dense cochain", "delta0", "delta1", "delta1 compact", "delta2 compact", "composition", "ties", "faces in complex", "large complex"]
COST = {"jit": 3.0, "bc": 3.2, "interp": 0.15}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["each coboundary matrix may carry one global sign, as long as it is the same for all its rows"]

SPACES = ["circle", "blob", "random_metric", "hop_cycle", "hop_torus", "int_ring", "dup_circle", "int_dup_ring", "line", "sphere", "rp2", "circle_even"]


def cases(rng, tier):
    n = 360 if tier == "quick" else 5000
    for i in range(n):
        u = rng.random()
        s = {"vs": int(rng.integers(1 << 30))}
        if i % 45 == 7:
            # hundreds of vertices, few simplices: numbers beyond 16 bits
            s["kind"] = "big"
            s["n"] = int(rng.integers(260, 460))
            s["links"] = int(rng.integers(1, 5))
            s["dtype"] = str(rng.choice(["f8", "f4", "i8"]))
            yield "jit", s
            continue
        if u < 0.25:
            s["kind"] = "num"
            s["n"] = int(rng.integers(1, 14)) if rng.random() < 0.7 else int(rng.choice([30, 64, 65, 129, 200, 300, 400, 500, 700, 1300, 2400]))
            s["extra"] = int(rng.integers(0, 5)) if s["n"] < 500 else 0  # (larger numbers do not fit 64 bits)
        elif u < 0.5:
            s["kind"] = "coc"
            s["n"] = int(rng.integers(4, 30))
        else:
            s["kind"] = "delta"
            s["data"] = gen.dataset(rng, SPACES, 1 if rng.random() < 0.1 else 4, 22)
            s["q"] = float(rng.choice([0.0, 0.1, 0.3, 0.5, 0.8, 1.0]))
            s["tie"] = bool(rng.random() < 0.4)
            s["dtype"] = str(rng.choice(["f8", "f8", "f4", "i8"]))
            s["store"] = str(rng.choice(["C", "F", "strided", "ro"]))
        v = rng.random()
        yield ("jit" if v < 0.22 else "bc" if v < 0.3 else "interp"), s


def run(spec, ctx):
    {"num": numbering, "coc": dense, "delta": deltas, "big": big}[spec["kind"]](spec, ctx)


def numbering(spec, ctx):
    from dreimac import combinatorial as cb

    n, rng = spec["n"], np.random.default_rng(spec["vs"])
    tab = ctx.real("table", cb.combinatorial_number_system_table, n, 3)
    from math import comb

    for d in range(4):
        want = comb(n, d + 1)
        got = int(ctx.real("number of simplices", cb.number_of_simplices_of_dimension, d, n, tab))
        ctx.check(got == want, "number of simplices", lambda: "%d simplices of dimension %d on %d vertices, reported %d" % (want, d, n, got))
        if want == 0:
            continue
        if want <= 1500 or d == 1 and n <= 200:
            simp = list(itertools.combinations(range(n), d + 1))
        else:
            simp = {tuple(range(d + 1)), tuple(range(n - d - 1, n)), (0,) + tuple(range(n - d, n))}
            while len(simp) < 400:
                simp.add(tuple(sorted(int(x) for x in rng.choice(n, d + 1, replace=False))))
            simp = sorted(simp)
        seen = {}
        for s in simp:
            x = int(cb.combinatorial_number_system_forward(s, tab))
            ctx.ev("numbering")
            if not 0 <= x < want:
                ctx.viol("numbering", "simplex %s of %d vertices numbered %d, outside 0..%d" % (s, n, x, want - 1))
                return
            if x in seen:
                ctx.viol("numbering", "simplices %s and %s of %d vertices both numbered %d" % (s, seen[x], n, x))
                return
            seen[x] = s
            y = x
            if d == 1:
                y = int(cb.combinatorial_number_system_d1_forward(s[0], s[1], tab))
            elif d == 2:
                y = int(cb.combinatorial_number_system_d2_forward(s[0], s[1], s[2], tab))
            if y != x:
                ctx.viol("numbering", "simplex %s numbered %d by the general and %d by the specialised map" % (s, x, y))
                return
        # with a larger table (more vertices, more dimensions) the numbers are the same
        big = cb.combinatorial_number_system_table(n + 3, 3 + spec["extra"])
        for s in simp[:: max(1, len(simp) // 25)]:
            x, y = int(cb.combinatorial_number_system_forward(s, tab)), int(cb.combinatorial_number_system_forward(np.array(s), big))
            ctx.check(x == y, "numbering", lambda: "simplex %s numbered %d or %d depending on the size of the table" % (s, x, y))
        ctx.sig("num", n, d, len(simp))


def dense(spec, ctx):
    from dreimac import combinatorial as cb
    from dreimac.utils import CohomologyUtils as cu

    n, rng = spec["n"], np.random.default_rng(spec["vs"])
    tab = cb.combinatorial_number_system_table(n, 3)
    from math import comb

    for d in range(1, 4):
        if n < d + 1:
            continue
        total = comb(n, d + 1)
        K = int(rng.integers(0, min(total, 40) + 1))
        chosen = set()
        while len(chosen) < K:
            chosen.add(tuple(sorted(int(x) for x in rng.choice(n, d + 1, replace=False))))
        chosen = sorted(chosen)
        vals = rng.integers(-50, 51, K)
        rows, rows2 = np.zeros((K, d + 2), dtype=int), np.zeros((K, d + 2), dtype=int)
        want = np.zeros(total)
        for q, (s, v) in enumerate(zip(chosen, vals)):
            perm = rng.permutation(d + 1)
            sg = ref.perm_sign(list(perm))
            rows[q] = [s[p] for p in perm] + [sg * v]
            rows2[q] = list(s) + [v]
            want[int(cb.combinatorial_number_system_forward(s, tab))] = v
            t, sign = ctx.real("order_simplex", cu.order_simplex, np.array([s[p] for p in perm]))
            ctx.check(tuple(int(x) for x in t) == s and sign == sg, "order_simplex", lambda: "%s ordered as %s with sign %s, expected %s" % ([s[p] for p in perm], t, sign, sg))
        for dt in (int, float):
            for name, r in (("shuffled", rows), ("ordered", rows2)):
                r0 = r.copy()
                v = ctx.real("sparse_cocycle_to_vector", cu.sparse_cocycle_to_vector, r, tab, n, dt)
                ok = len(v) == total and np.array_equal(np.asarray(v, float), want)
                ctx.check(ok, "dense cochain", lambda: "%d-cochain on %d vertices given with %s vertices: dense vector has wrong entries at %s" % (
                    d, n, name, np.nonzero(np.asarray(v, float) != want)[0][:5] if len(v) == total else "(length %d, expected %d)" % (len(v), total)))
                ctx.check(np.array_equal(r, r0), "dense cochain", "sparse cochain modified")
        # parity of whole permutations
        p = rng.permutation(int(rng.integers(1, 9)))
        ctx.check(cu.parity(list(p)) == ref.perm_sign(list(p)), "parity", lambda: "parity of %s" % (p,))
        ctx.sig("coc", n, d, rows.tobytes())


def storage(D, spec):
    dt = spec["dtype"]
    if dt == "i8":
        D = np.round(D / (D.max() or 1) * 9)
    D = D.astype(dt)
    if spec["store"] == "F":
        D = np.asfortranarray(D)
    elif spec["store"] == "strided":
        B = np.full((2 * len(D), 2 * len(D)), -5, dtype=D.dtype)
        B[::2, ::2] = D
        D = B[::2, ::2]
    elif spec["store"] == "ro":
        D = D.copy()
        D.setflags(write=False)
    return D


def brute(D, t, dim):
    """{simplex} of the given dimension all of whose edges are below the threshold"""
    n = len(D)
    K = np.asarray(D.astype(float) < t)
    return [s for s in itertools.combinations(range(n), dim + 1) if all(K[a, b] for a, b in itertools.combinations(s, 2))]


def rows_of(M, names):
    M = M.tocsr()
    M.sum_duplicates()
    out = []
    for i in range(M.shape[0]):
        a, b = M.indptr[i], M.indptr[i + 1]
        out.append({names[int(c)]: float(v) for c, v in zip(M.indices[a:b], M.data[a:b]) if v != 0})
    return out


def coboundary(s):
    """d f (s) = sum (-1)^i f(s without its i-th vertex)"""
    return {s[:i] + s[i + 1:]: (-1.0) ** i for i in range(len(s))}


def match(got, want):
    """got equal to want up to one global sign"""
    for sg in (1, -1):
        if got == [{k: sg * v for k, v in r.items()} for r in want]:
            return True
    return False


def deltas(spec, ctx):
    from dreimac import combinatorial as cb
    from dreimac.utils import CohomologyUtils as cu

    _, D = gen.build(spec["data"])
    D = storage(np.asarray(D), spec)
    n = len(D)
    off = np.sort(D[np.triu_indices(n, 1)].astype(float))
    if len(off) == 0:
        t = 1.0
    elif spec["tie"]:
        t = float(off[min(len(off) - 1, int(spec["q"] * len(off)))])
        ctx.ev("ties", int((off == t).sum()))
    else:
        t = float(np.quantile(off, spec["q"])) * 1.000001 + (1e-9 if spec["q"] else -1e-9)
    tab = cb.combinatorial_number_system_table(n, 3)
    num = [{int(cb.combinatorial_number_system_forward(s, tab)): s for s in itertools.combinations(range(n), d + 1)} for d in range(3)]
    simp = [None, brute(D, t, 1), brute(D, t, 2), brute(D, t, 3)]
    D0 = np.array(D, copy=True)
    m0 = ctx.real("make_delta0", cu.make_delta0, D, t, tab)
    m1 = ctx.real("make_delta1", cu.make_delta1, D, t, tab)
    c1 = ctx.real("make_delta1_compact", cu.make_delta1_compact, D, t, tab)
    c2 = ctx.real("make_delta2_compact", cu.make_delta2_compact, D, t, tab)
    ctx.check(np.array_equal(D, D0), "input unchanged", "a coboundary matrix builder modified the distance matrix")
    ne, nf = n * (n - 1) // 2, n * (n - 1) * (n - 2) // 6
    shapes = [m0.shape == (ne, n), m1.shape == (nf, ne), c1.shape == (len(simp[2]), ne), c2.shape == (len(simp[3]), nf)]
    names = ["delta0", "delta1", "delta1 compact", "delta2 compact"]
    for ok, nm, M in zip(shapes, names, (m0, m1, c1, c2)):
        if not ctx.check(ok, nm, lambda: "%s on %d points at threshold %g has shape %s" % (nm, n, t, M.shape)):
            return
    # matrices indexed by all simplices: a row per number, empty when the simplex is not in the complex
    for nm, M, d in (("delta0", m0, 1), ("delta1", m1, 2)):
        cols = num[d - 1] if d > 1 else {i: (i,) for i in range(n)}
        got = rows_of(M, cols)
        want = [{} for _ in range(len(num[d]))]
        inside = set(simp[d])
        for k, s in num[d].items():
            if s in inside:
                want[k] = coboundary(s)
        ctx.check(match(got, want), nm, lambda: "%s on %d points (%s, %s) at threshold %r is not the coboundary of the %d simplices below the threshold: rows %s" % (
            nm, n, spec["dtype"], spec["store"], t, len(simp[d]), [(num[d][i], g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w][:3]))
    for nm, M, d in (("delta1 compact", c1, 2), ("delta2 compact", c2, 3)):
        got = rows_of(M, num[d - 1])
        want = [coboundary(s) for s in simp[d]]
        key = lambda r: sorted(r)
        g, w = sorted(got, key=key), sorted(want, key=key)
        ctx.check(match(g, w), nm, lambda: "%s on %d points at threshold %r: %d rows, expected the coboundary of %d simplices" % (nm, n, t, len(g), len(w)))
    ctx.ev("faces in complex", len(simp[2]))
    for a, b, nm in ((m1, m0, "delta1 delta0"), (c1, m0, "compact delta1 delta0"), (c2, m1, "compact delta2 delta1")):
        P = (a @ b)
        ctx.check(P.nnz == 0 or np.abs(P.data).max() == 0, "composition", lambda: "%s is not zero on %d points at threshold %r" % (nm, n, t))
    if simp[1]:
        ctx.sig("delta", spec["data"], spec["dtype"], spec["store"], t)



def big(spec, ctx):
    """thin complexes on many vertices: every row of the four matrices against the definition"""
    from dreimac import combinatorial as cb
    from dreimac.utils import CohomologyUtils as cu

    n, rng = spec["n"], np.random.default_rng(spec["vs"])
    p = rng.permutation(n)
    H = np.abs(p[:, None] - p)
    D = np.minimum(H, n - H).astype(spec["dtype"])
    t = spec["links"] + (0.5 if rng.random() < 0.5 else 1.0)
    tab = cb.combinatorial_number_system_table(n, 3)
    K = D.astype(float) < t
    np.fill_diagonal(K, False)
    edges = [(int(i), int(j)) for i, j in zip(*np.nonzero(np.triu(K)))]
    tris = ref.triangles_of(K)
    tets = ref.tetrahedra_of(K, tris)
    num = lambda v: int(cb.combinatorial_number_system_forward(np.array(v), tab))
    ce = {num(e): e for e in edges}
    ct = {num(f): f for f in tris}
    vert = {i: (i,) for i in range(n)}
    jobs = [("delta0", cu.make_delta0, edges, vert, (n * (n - 1) // 2, n), True), ("delta1", cu.make_delta1, tris, ce, None, True),
            ("delta1 compact", cu.make_delta1_compact, tris, ce, (len(tris), n * (n - 1) // 2), False)]
    if n <= 300:
        jobs.append(("delta2 compact", cu.make_delta2_compact, tets, ct, (len(tets), n * (n - 1) * (n - 2) // 6), False))
    mats = {}
    for nm, fn, simp, cols, shape, numbered in jobs:
        M = ctx.real(nm, fn, D, t, tab)
        mats[nm] = M
        if shape is not None and not ctx.check(M.shape == shape, nm, lambda: "%s on %d points: shape %s" % (nm, n, M.shape)):
            continue
        C = M.tocoo()
        rows = {}
        bad = False
        for r, c, v in zip(C.row.tolist(), C.col.tolist(), C.data.tolist()):
            if c not in cols:
                bad = True
                continue
            d = rows.setdefault(r, {})
            d[cols[c]] = d.get(cols[c], 0) + v
        if numbered:
            want = {num(x): coboundary(x) for x in simp}
            ok = not bad and any(rows == {k: {a: sg * b for a, b in r.items()} for k, r in want.items()} for sg in (1, -1))
        else:
            g = sorted((sorted(r.items()) for r in rows.values()))
            ok = not bad and any(g == sorted(sorted((a, sg * b) for a, b in coboundary(x).items()) for x in simp) for sg in (1, -1))
        ctx.check(ok, nm, lambda: "%s on %d points (cycle, %s) at threshold %g: %d rows in use, expected the coboundary of %d simplices" % (nm, n, spec["dtype"], t, len(rows), len(simp)))
    P = mats["delta1"] @ mats["delta0"]
    ctx.check(P.nnz == 0 or np.abs(P.data).max() == 0, "composition", lambda: "delta1 delta0 is not zero on %d points" % n)
    ctx.ev("large complex")
    ctx.sig("big", n, t, spec["vs"])
