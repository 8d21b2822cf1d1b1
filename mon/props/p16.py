"""Compiled kernels: the same execution compiled, compiled with bounds checks on perturbed memory, and interpreted."""
import numpy as np

from .. import gen, pipe, ref, same
from ..core import Skip

RULE = ("the same requests evaluated by three builds of the kernels (compiled; compiled with bounds checks and junk-filled fresh memory; interpreted): smallest complexes, thousands of points, tens of "
        "landmarks, all five classes, several classes at once, storage layouts and dtypes, repeated and interleaved calls in one process; direct calls of the coboundary builders, numbering maps and the "
        "Moore space generator; non-trivial: a request answered or refused by all builds; distinct by (dataset, request)")
MIN_DISTINCT = {"quick": 60, "thorough": 250}
NEED = ["bounds checked", "interpreted", "later call", "matrices", "large arrays", "smallest"]
CASE_TIMEOUT = 240
COST = {"jit": 5.0, "bc": 5.0, "interp": 5.0}
QUICK_WALL = 300
ASSUMPTIONS = ["numba's bounds checks see the accesses of compiled kernels; the interpreted build has numpy's own checks"]
PEERS = {}


def cases(rng, tier):
    n = 90 if tier == "quick" else 1500
    for i in range(n):
        u = rng.random()
        if u < 0.18:
            yield "jit", {"kind": "delta", "data": gen.dataset(rng, ["circle", "blob", "random_metric", "hop_torus", "dup_circle", "sphere", "int_ring"], 1 if rng.random() < 0.1 else 4, 26),
                          "q": float(rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])), "dtype": str(rng.choice(["f8", "f4", "i8", "i4"])), "store": str(rng.choice(["C", "F", "strided", "ro"])), "vs": int(rng.integers(1 << 30))}
            continue
        if u < 0.22:
            yield "jit", {"kind": "moore", "n": int(rng.integers(8, 60)), "prime": int(rng.choice([2, 3, 5, 7]))}
            continue
        cls = str(rng.choice(["circ", "tor", "cplx", "real", "lens"], p=[0.33, 0.2, 0.33, 0.07, 0.07]))
        s = pipe.case(rng, cls, **({"mmax": 14} if cls == "cplx" else {}))
        s["kind"] = "pipe"
        if cls == "cplx":
            s["data"]["space"] = str(rng.choice(["sphere", "ellipsoid", "fib_sphere", "two_spheres", "cross", "random_metric", "torus_grid"]))
        v = rng.random()
        if v < 0.25:
            s["small"] = True
            if cls == "cplx":
                s["data"] = {"space": "cross", "n": int(rng.integers(6, 10)), "seed": s["data"]["seed"], "int": bool(rng.random() < 0.5)}
                s["m"] = 6
            else:
                s["data"] = {"space": str(rng.choice(["hop_cycle", "cross", "circle_even"])), "n": int(rng.integers(4, 7)), "seed": s["data"]["seed"], "dimension": 2}
                s["m"] = int(rng.integers(4, 7))
        elif v < 0.5 and cls in ("circ", "tor", "cplx"):
            s["big"] = True
            s["rep"] = "pc"
            s.pop("maxdim", None)
            s["data"]["n"] = int(rng.integers(1500, 5000))
            s["data"]["space"] = str(rng.choice(["sphere", "ellipsoid"] if cls == "cplx" else ["circle", "two_circles", "torus4", "three_circles"]))
            s["m"] = int(rng.integers(12, 21)) if cls == "cplx" else int(rng.integers(16, 50))
        elif v < 0.58:
            s["m"] = int(rng.integers(24, 32)) if cls == "cplx" else int(rng.integers(60, 110))
            s["data"]["n"] = int(rng.integers(s["m"], 2 * s["m"]))
            s.pop("maxdim", None)
        if cls == "tor":
            s["nclass"] = int(rng.integers(1, 4))
        s["perc2"] = float(rng.uniform(0.05, 0.95))
        yield "jit", s


def compute(spec):
    """everything observable, as plain arrays; an exception is an answer too"""
    if spec["kind"] == "delta":
        return matrices(spec)
    if spec["kind"] == "moore":
        from dreimac import GeometryExamples

        return attempt(lambda: list(GeometryExamples.moore_space_distance_matrix(rough_n_points=spec["n"], prime=spec["prime"])))
    from ..core import Ctx

    ctx = Ctx(spec, "peer")
    out = {}
    try:
        arr, dm, D, rep = pipe.arrays(spec)
        obj = pipe.construct(ctx, spec, arr, dm)
        tab = pipe.class_table(obj, pipe.DIM[spec["cls"]])
        k, std = same.pick(tab, spec)
        m = len(pipe.landmarks(obj, spec, arr, dm))
        out["class"] = (k, std, tab, m)
        out["runs"] = []
        for q, perc in enumerate([spec["perc"], spec["perc2"], spec["perc"]]):
            s = dict(spec, perc=perc)

            def go():
                del pipe.MILP[:]
                r = same.run(ctx, obj, s, k, std, m, red=q == 0)
                return [r.full, r.red, r.r, sorted(r.warns)]

            out["runs"].append(attempt(go))
    except Skip as e:
        if not ctx.violations:
            out["skip"] = str(e)
    out["violations"] = [v for v in ctx.violations]
    return out


def attempt(fn):
    try:
        return ("ok", fn())
    except Skip as e:
        return ("skip", str(e))
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


def matrices(spec):
    from dreimac import combinatorial as cb
    from dreimac.utils import CohomologyUtils as cu
    from . import p15

    _, D = gen.build(spec["data"])
    D = p15.storage(np.asarray(D), spec)
    n = len(D)
    off = np.sort(D[np.triu_indices(n, 1)].astype(float))
    t = 1.0 if len(off) == 0 else float(off[min(len(off) - 1, int(spec["q"] * len(off)))]) * (1 if spec["q"] < 1 else 2)
    tab = cb.combinatorial_number_system_table(n, 3)
    res = []
    for fn in (cu.make_delta0, cu.make_delta1, cu.make_delta1_compact, cu.make_delta2_compact):
        for _ in range(2 if fn is cu.make_delta0 else 1):
            def go():
                M = fn(D, t, tab).tocoo()
                o = np.lexsort((M.col, M.row))
                return [np.array(M.shape), M.row[o], M.col[o], M.data[o]]

            res.append(attempt(go))
    rng = np.random.default_rng(spec["vs"])
    for _ in range(10):
        for d in range(4):
            if n > d:
                s = sorted(int(x) for x in rng.choice(n, d + 1, replace=False))
                res.append(attempt(lambda: [int(cb.combinatorial_number_system_forward(tuple(s), tab)), int(cb.combinatorial_number_system_forward(np.array(s), tab))]))
                if d == 1:
                    res.append(attempt(lambda: [int(cb.combinatorial_number_system_d1_forward(*s, tab))]))
                if d == 2:
                    res.append(attempt(lambda: [int(cb.combinatorial_number_system_d2_forward(*s, tab))]))
    return res


def close(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, int, complex, np.generic)) and not isinstance(a, (str, bool)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    return a == b


def run(spec, ctx):
    from ..peer import Peer

    for mode in ("interp", "bc"):
        if mode not in PEERS:
            PEERS[mode] = Peer(mode)
        PEERS[mode].ask(spec)
    here = compute(spec)
    for mode in ("interp", "bc"):
        there = PEERS[mode].answer()
        if there is None:
            PEERS.pop(mode)
            raise Skip("peer died")
        name = {"interp": "interpreted", "bc": "bounds checked"}[mode]
        if spec["kind"] != "pipe":
            ctx.check(close(here, there), name, lambda: "%s: compiled and %s results differ: %s" % (spec["kind"], name, difference(here, there)))
            ctx.ev("matrices" if spec["kind"] == "delta" else "moore")
            continue
        for v in there.get("violations", []):
            ctx.viol(name, v)
        if "skip" in here or "skip" in there:
            if ("skip" in here) != ("skip" in there):
                ctx.viol(name, "%s compiled, %s %s" % (here.get("skip"), there.get("skip"), name))
            continue
        if "runs" not in here or "runs" not in there:
            continue
        ctx.check(close(here["class"], there["class"], 1e-12), name, lambda: "class data differ")
        for q, (a, b) in enumerate(zip(here["runs"], there["runs"])):
            compare(ctx, spec, here, a, b, name, "request %d, compiled and %s" % (q, name), 1e-5)
    if spec["kind"] != "pipe":
        ctx.sig(spec)
        return
    for v in here.get("violations", []):
        ctx.viol("compiled", v)
    if "skip" in here:
        raise Skip(here["skip"])
    if "runs" not in here:
        return
    first, third = here["runs"][0], here["runs"][2]
    if first[0] == "ok" and third[0] == "ok":
        first = ("ok", [first[1][0], None, first[1][2], first[1][3]])
    compare(ctx, spec, here, first, third, "later call", "first and third request of one compiled process", 1e-7)
    for q in range(3):
        if here["runs"][q][0] == "skip":
            continue
        ctx.ev("answered" if here["runs"][q][0] == "ok" else "refused")
    if spec.get("big"):
        ctx.ev("large arrays")
    if spec.get("small"):
        ctx.ev("smallest")
    ctx.sig(spec["data"], spec["cls"], spec["m"], here["class"][0], spec["perc"])


def difference(a, b):
    for q, (x, y) in enumerate(zip(a, b)):
        if not close(x, y):
            return "entry %d: %s vs %s" % (q, str(x)[:150], str(y)[:150])
    return "lengths"


def compare(ctx, spec, here, a, b, name, what, tol):
    if "skip" in (a[0], b[0]):
        return
    if a[0] == "raised" or b[0] == "raised":
        ctx.check(a[:2] == b[:2], name, lambda: "%s: %s vs %s" % (what, a[:3] if a[0] == "raised" else "answered", b[:3] if b[0] == "raised" else "answered"))
        return
    A, B = same.Run(), same.Run()
    (A.full, A.red, A.r, A.warns), (B.full, B.red, B.r, B.warns) = a[1], b[1]
    ctx.check(close(A.r, B.r, 1e-12) and A.warns == B.warns, name, lambda: "%s: radius or warnings differ" % what)
    shape = np.shape(A.full) == np.shape(B.full) and np.shape(A.red) == np.shape(B.red)
    if not ctx.check(shape, name, lambda: "%s: shapes differ" % what):
        return
    if spec["cls"] in pipe.PROJ:
        cols = np.arange(len(A.full))
        same.compare(ctx, spec, A, B, (cols, cols), None, name, what, tol)
        return
    # no rotation allowed: the builds make the same choices
    nan = np.isnan(A.full)
    if ctx.check(np.array_equal(nan, np.isnan(B.full)), name, lambda: "%s: different points undefined" % what) and not nan.all():
        e = float(np.max(np.abs(ref.wrap((A.full - B.full)[~nan] / (2 * np.pi)))))
        ctx.check(e < tol, name, lambda: "%s: angles differ by %g turns" % (what, e))
