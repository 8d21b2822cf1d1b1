"""All input representations of the same data give the same coordinates."""
import numpy as np

from .. import gen, pipe, ref, same
from ..core import Skip

RULE = ("one dataset handed over as a point cloud, as a square distance matrix and as a rectangular landmarks-to-points matrix, in different dtypes "
        "(integer of several widths, single and double precision where exact), memory orders, strided, reversed and read-only; non-trivial: a pair of "
        "representations whose coordinates were compared; distinct by (dataset, class of coordinates, representation pair)")
MIN_DISTINCT = {"quick": 250, "thorough": 1500}
NEED = ["diagrams", "coordinates: point cloud", "coordinates: square", "coordinates: rectangular", "integer dtype", "single precision", "read only", "strided"]
CASE_TIMEOUT = 90
COST = {"jit": 4.0, "bc": 4.0, "interp": 0.5}
ASSUMPTIONS = ["representations are compared when no pair of distances is so close that rounding can change the landmarks or the filtration; exact representations are compared always"]


def cases(rng, tier):
    n = 230 if tier == "quick" else 3000
    for i in range(n):
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.3, 0.15, 0.2, 0.2, 0.15]))
        s = pipe.case(rng, cls, nmax=50, **({"mmax": 13} if cls == "cplx" else {"mmax": 18}))
        u = rng.random()
        if u < 0.4:
            s["data"]["space"] = str(rng.choice(["hop_cycle", "hop_torus", "int_ring", "int_dup_ring", "graph_circle"] if cls != "cplx" else ["hop_torus", "random_metric", "fib_sphere"]))
            s["data"].pop("embed", None)
            s["data"].pop("scale", None)
            if s["data"]["space"] == "hop_cycle" and rng.random() < 0.5:
                s["m"] = 10 ** 6
                s["data"]["n"] = int(rng.integers(8, 20))
            if s["data"]["space"] == "hop_torus" and cls != "cplx":
                s["m"] = int(rng.integers(15, 30))
                s["data"]["n"] = int(rng.integers(36, 64))
        s["round"] = int(rng.choice([0, 0, 3, 6]))
        s["mult"] = int(rng.choice([1, 1, 7, -255, -255, -32767]))
        if s["mult"] < 0 and rng.random() < 0.6:
            s["pu"] = "exp"
        s["nclass"] = int(rng.choice([1, 2, 3]))
        s["vs"] = int(rng.integers(1 << 30))
        s.pop("store", None)
        s.pop("rep")
        if i % 40 == 7 and cls != "cplx":
            pipe.crowd(rng, s, "landmarks")
            yield "jit", s
            continue
        yield ("jit" if rng.random() < 0.12 else "interp"), s


def store(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "ro":
        a = np.array(a)
        a.setflags(write=False)
        return a
    if how == "strided":
        big = np.full((a.shape[0] * 2, a.shape[1] * 3), 77).astype(a.dtype)
        big[::2, ::3] = a
        return big[::2, ::3]
    if how == "rev":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    return np.array(a)


def run(spec, ctx):
    rng = np.random.default_rng(spec["vs"])
    X, D = gen.build(spec["data"])
    D = np.asarray(D)
    if spec["round"] and X is None and D.dtype.kind == "f":
        # distances exactly representable in single precision
        D = np.round(D * (64 if spec["round"] == 3 else 4096)) / (64 if spec["round"] == 3 else 4096)
    integral = bool(np.all(D == np.rint(D)))
    if integral and X is None:
        # negative: as large as the integer type allows
        D = D * (spec["mult"] if spec["mult"] > 0 else max(1, -spec["mult"] // max(1, int(D.max()))))
    N = len(D)
    m = min(spec["m"], N)
    L, unique = same.unique_greedy(D, m)
    if L is None:
        L = same.exact_greedy(D, m)
        uniq = False
    else:
        uniq = True
    m = len(L)
    if m < 4:
        raise Skip("few points")
    # put the landmarks among the first d points
    d = int(rng.integers(m, max(m + 1, N)))
    d = min(d, N - 1)
    rest = np.setdiff1d(np.arange(N), L)
    rest = rest[rng.permutation(len(rest))]
    head = np.r_[L, rest[: max(0, d - m)]]
    # (when every row is a landmark they are taken in the given order instead of the sampling order)
    if uniq and d > m:
        head = np.r_[head[:1], head[1:][rng.permutation(len(head) - 1)]]
    order = np.r_[head, rest[max(0, d - m):]]
    D = D[order][:, order]
    if X is not None:
        X = X[order]
    base_spec = dict(spec, m=spec["m"])
    variants = []
    kinds = ["C", "F", "ro", "strided", "rev"]
    f32 = bool(np.all(D.astype(np.float32).astype(float) == D.astype(float)))
    ints = [t for t in (np.int64, np.int32, np.int16, np.uint8, np.uint16) if np.all(D == np.rint(D)) and D.max() <= np.iinfo(t).max]

    def dtypes():
        out = [float]
        if f32:
            out.append(np.float32)
        return out + ints

    dts = dtypes()
    for _ in range(3):
        variants.append(("square", store(D.astype(dts[rng.integers(len(dts))]), kinds[rng.integers(5)])))
    if m < N and d >= m and d < N:
        for _ in range(3):
            variants.append(("rectangular", store(D[:d].astype(dts[rng.integers(len(dts))]), kinds[rng.integers(5)])))
    if X is not None and uniq:
        # computed distances of a cloud carry rounding: only compared when nothing depends on it
        for _ in range(3):
            Y = X
            if np.all(X == np.rint(X)) and rng.random() < 0.7:
                Y = X.astype([np.int64, np.int32][rng.integers(2)])
            variants.append(("point cloud", store(Y, kinds[rng.integers(5)])))
    s = dict(spec, m=m)
    obj = pipe.construct(ctx, s, np.array(D, float), True)
    g = pipe.Geo.__new__(pipe.Geo)
    g.idx = pipe.landmarks(obj, s, np.array(D, float), True)
    g.m, g.N = len(g.idx), N
    g.DL = np.asarray(D, float)[g.idx]
    g.DLL = g.DL[:, g.idx]
    g.scale = ref.top(D)
    dim = pipe.DIM[spec["cls"]]
    tab = pipe.class_table(obj, dim)
    k, std = same.pick(tab, spec)
    A = same.run(ctx, obj, spec, k, std, g.m)
    if A.r is None:
        raise Skip("radius not observed")
    cov = (g.DL < A.r).any(0)
    lab = same.labels(g, A.r)[cov]
    cols = np.nonzero(cov)[0]
    if len(cols) < 3:
        raise Skip("nothing covered")
    ties = pipe.subtle_ties(g.DLL)
    near = min(np.min(np.abs(g.DL - A.r)), np.min(np.abs(g.DLL[np.triu_indices(g.m, 1)] - 2 * A.r))) < 1e-6 * g.scale
    for kind, arr in variants:
        what = "%s as %s %s order %s vs square double (classes %s)" % (spec["cls"], kind, arr.dtype, "C" if arr.flags.c_contiguous else "F" if arr.flags.f_contiguous else "strided", k)
        o2 = pipe.construct(ctx, s, arr, kind != "point cloud")
        idx2 = pipe.landmarks(o2, s, arr, kind != "point cloud")
        if not ctx.check(np.array_equal(idx2, g.idx), "landmarks", lambda: "%s: landmarks %s vs %s" % (what, idx2[:9], g.idx[:9])):
            continue
        t2 = pipe.class_table(o2, dim)
        eps = 1e-5 * g.scale
        from .p01 import match

        e = match([(b, dd) for b, dd, _ in tab], [(b, dd) for b, dd, _ in t2], eps)
        ctx.check(e <= eps, "diagrams", lambda: "%s: diagrams differ by %g" % (what, e))
        if kind == "point cloud" and (ties or near):
            ctx.ev("not compared: depends on rounding")
            continue
        if not same.same_rows(tab, t2, k):
            if kind != "point cloud":
                ctx.viol("cocycles", "%s: representatives differ although the distances are exactly the same" % what)
            else:
                ctx.ev("not compared: other representatives")
            continue
        B = same.run(ctx, o2, spec, k, std, g.m, label="coordinates: " + kind)
        ctx.check(B.full.shape == A.full.shape, "shape", lambda: "%s: %s vs %s" % (what, B.full.shape, A.full.shape))
        nanA = np.isnan(A.full).any(-1 if spec["cls"] in pipe.PROJ else 0)
        nanB = np.isnan(B.full).any(-1 if spec["cls"] in pipe.PROJ else 0)
        ctx.check(np.array_equal(nanA, nanB), "coordinates: " + kind, lambda: "%s: different points undefined" % what)
        same.compare(ctx, spec, A, B, (cols, cols), lab, "coordinates: " + kind, what,
                     tol=1e-4 if kind == "point cloud" else 1e-6 if spec["cls"] in pipe.PROJ else 1e-8)
        if arr.dtype.kind in "iu":
            ctx.ev("integer dtype")
        if arr.dtype == np.float32:
            ctx.ev("single precision")
        if not arr.flags.writeable:
            ctx.ev("read only")
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            ctx.ev("strided")
        ctx.sig(spec["data"], spec["cls"], kind, str(arr.dtype), arr.strides, k)
