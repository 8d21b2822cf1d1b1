"""Computing coordinates is repeatable, pure and isolated."""
import sys
import threading
import time

import numpy as np

from .. import gen, pipe, ref, same
from ..core import Skip

RULE = ("random sequences of 4..9 requests (valid and refused, different classes, percentages, bump functions, dimensions, modes, lists) on one object, interleaved with requests on "
        "a second object and on objects in other threads; every answer compared with a freshly built object's, delays injected between lines of the library in the threads, bit for bit snapshots of inputs, earlier answers, diagrams and representatives after "
        "every call; utility functions called on snapshotted arguments; non-trivial: one request in a history; distinct by (dataset, position, request)")
MIN_DISTINCT = {"quick": 300, "thorough": 3000}
NEED = ["same as a fresh object", "state unchanged", "input unchanged", "earlier results unchanged", "threads", "same as in a process without a history", "utility arguments unchanged", "after a refusal"]
CASE_TIMEOUT = 150
COST = {"jit": 12.0, "bc": 12.0, "interp": 1.0}
ASSUMPTIONS = ["threads share only the interpreter and the jit compiler, as in ordinary use"]


def cases(rng, tier):
    n = 190 if tier == "quick" else 2200
    for i in range(n):
        u = rng.random()
        if u < 0.22:
            yield "interp", {"util": True, "seed": int(rng.integers(1 << 30)), "N": int(rng.integers(6, 60))}
            continue
        if u < 0.4:
            yield "interp", {"clean": True, "seed": int(rng.integers(1 << 30)), "objects": int(rng.integers(3, 6))}
            continue
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.2, 0.3, 0.15, 0.15, 0.2]))
        s = pipe.case(rng, cls, **({"mmax": 12, "nmin": 16, "nmax": 40} if cls == "cplx" else {"mmax": 18, "nmin": 24, "nmax": 70}))
        s["prime"] = int(rng.choice([2, 3, 3, 5, 41, 41, 47]))
        if cls == "cplx":
            s["data"]["space"] = str(rng.choice(["sphere", "fib_sphere", "blob", "random_metric", "two_spheres"]))
        if rng.random() < 0.3:
            s["data"]["outliers"] = 2
        s["vs"] = int(rng.integers(1 << 30))
        s["steps"] = int(rng.integers(4, 10))
        s["other"] = gen.dataset(rng, gen.DIM1 if cls != "cplx" else ["sphere", "fib_sphere", "ellipsoid"], 20, 50)
        s["threads"] = bool(rng.random() < 0.3)
        yield ("jit" if rng.random() < 0.13 else "interp"), s


def random_request(rng, spec, tab):
    r = dict(cls=spec["cls"])
    r["perc"] = float(rng.choice([rng.uniform(0.02, 0.98), 0.5, 0.9]))
    std = bool(rng.random() < 0.4)
    n = len(tab)
    top = min(n, 5)
    if spec["cls"] == "tor":
        k = [int(x) for x in rng.permutation(top)[: int(rng.integers(1, 4))]]
        if rng.random() < 0.5:
            k = [0]
    else:
        k = int(rng.integers(0, top)) if rng.random() < 0.6 else 0
    r["pu"] = str(rng.choice(pipe.PU[:4]))
    if rng.random() < 0.3:
        r["check"] = bool(rng.random() < 0.5)
    r["proj_dim"] = int(rng.choice([0, 1, 2, 3]))
    r["red"] = str(rng.choice(["direct", "exponential", "one-by-one"]))
    return r, k, std


def ask(obj, r, k, std):
    """-> ("ok", array) or ("raised", type, message)"""
    del pipe.MILP[:]
    k0 = list(k) if isinstance(k, list) else k
    try:
        out, w = pipe.request(obj, r, k, std, pipe.Bump(r["pu"]))
        if isinstance(k, list) and k != k0:
            return ("changed", k)
        return ("ok", out, w)
    except Skip:
        raise
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def equal(a, b):
    """identical answers (bitwise up to 1e-9, angles modulo full turns)"""
    if a[0] != b[0]:
        return False, "%s vs %s" % (a[0] if a[0] == "ok" else a[1:], b[0] if b[0] == "ok" else b[1:])
    if a[0] == "raised":
        return a[1:] == b[1:], "%s vs %s" % (a[1:], b[1:])
    x, y = np.asarray(a[1]), np.asarray(b[1])
    if x.shape != y.shape:
        return False, "shapes %s %s" % (x.shape, y.shape)
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return False, "different entries undefined"
    ok = ~np.isnan(x)
    d = np.abs(x[ok] - y[ok])
    if np.isrealobj(x):
        d = np.minimum(d, np.abs(2 * np.pi - d))
    e = float(d.max()) if d.size else 0.0
    return e < 1e-9, "largest difference %g" % e


def fresh_equal(ctx, spec, arr, dm, a, r, k, std):
    """compare with freshly built objects (several only if rounding makes them differ among themselves)"""
    for _ in range(3):
        ok, why = equal(a, ask(pipe.construct(ctx, spec, arr, dm), r, k, std))
        if ok:
            break
    return ok, why


def snapshot(obj, dims):
    out = []
    for dim in dims:
        out.append([(b, d, c.tobytes(), c.shape, str(c.dtype)) for b, d, c in pipe.class_table(obj, dim)])
    for name in ("_dgms", "dgms_"):
        d = getattr(obj, name, None)
        if d is not None:
            out.append([np.asarray(x).tobytes() for x in d])
    return out


def run(spec, ctx):
    if spec.get("util"):
        return utilities(spec, ctx)
    if spec.get("clean"):
        return clean(spec, ctx)
    rng = np.random.default_rng(spec["vs"])
    arr, dm, D, rep = pipe.arrays(spec)
    keep = np.array(arr, copy=True)
    obj = pipe.construct(ctx, spec, arr, dm)
    ctx.check(np.array_equal(arr, keep), "input unchanged", "the constructor changed the data")
    dims = [1, 2] if pipe.DIM[spec["cls"]] == 2 else [1]
    tab = pipe.class_table(obj, pipe.DIM[spec["cls"]])
    if not tab:
        raise Skip("no class")
    snap = snapshot(obj, dims)
    ospec = dict(spec, data=spec["other"], rep="pc", m=min(spec["m"], 14))
    ospec.pop("store", None)
    arr_o, dm_o, _, _ = pipe.arrays(ospec)
    other = pipe.construct(ctx, ospec, arr_o, dm_o)
    tab_o = pipe.class_table(other, pipe.DIM[spec["cls"]])
    snap_o = snapshot(other, dims)
    results = []
    refused = False
    history = []
    for step in range(spec["steps"]):
        if history and rng.random() < 0.25:
            r, k, std = history[int(rng.integers(len(history)))]
        else:
            r, k, std = random_request(rng, spec, tab)
        history.append((r, k, std))
        a = ask(obj, r, k, std)
        where = "request %d (%s classes %s standard_range %s percentage %.4f)" % (step, spec["cls"], k, std, r["perc"])
        ctx.check(np.array_equal(arr, keep), "input unchanged", lambda: where + " changed the data")
        ctx.check(snapshot(obj, dims) == snap, "state unchanged", lambda: where + " changed the diagrams or representatives of the object")
        for q, (x, y) in enumerate(results):
            ctx.check(np.array_equal(x, y, equal_nan=True), "earlier results unchanged", lambda: "%s changed the array returned by request %d" % (where, q))
        if a[0] == "changed":
            ctx.viol("argument unchanged", "%s: the list of classes became %s" % (where, a[1]))
            return
        if a[0] == "ok":
            if isinstance(a[1], list):
                for x in a[1]:
                    results.append((x, np.array(x, copy=True)))
            else:
                results.append((a[1], np.array(a[1], copy=True)))
        ok, why = fresh_equal(ctx, spec, arr, dm, a, r, k, std)
        ctx.check(ok, "same as a fresh object", lambda: "%s after %d other requests: %s" % (where, step, why))
        if refused:
            ctx.ev("after a refusal")
        refused = refused or a[0] == "raised"
        ctx.sig(spec["data"], step, r, k, std)
        if tab_o and rng.random() < 0.3:
            r2, k2, std2 = random_request(rng, spec, tab_o)
            ask(other, r2, k2, std2)
            ctx.check(snapshot(obj, dims) == snap, "state unchanged", lambda: "a request on another object changed this one")
            ctx.check(snapshot(other, dims) == snap_o, "state unchanged", lambda: "a request changed the other object")
    # results handed out are not views of the object's state: overwriting them changes nothing
    for x, y in results:
        try:
            x[...] = -3
        except ValueError:
            pass
    a2 = ask(obj, *history[0])
    ok, why = fresh_equal(ctx, spec, arr, dm, a2, *history[0])
    ctx.check(ok, "same as a fresh object", lambda: "the first request repeated at the end: %s" % why)
    if spec["threads"]:
        threads(spec, ctx, rng, obj, tab, other, tab_o, arr, dm)


# ---------------------------------------------------------------- against a process without a history
PEER = []


def lookalikes(rng, count):
    """requests on different data of the same shape and, often, with the same landmark count,
    thresholds, prime and radius: what a memory of earlier work could confuse"""
    cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.25, 0.3, 0.15, 0.15, 0.15]))
    base = {"cls": cls, "rep": "dm", "perc": 0.5, "pu": "linear", "std": False, "proj_dim": 1, "red": str(rng.choice(["exponential", "direct"])), "prime": {"lens": 3}.get(cls, 41)}
    if cls == "cplx":
        data = {"space": str(rng.choice(["cross", "fib_sphere"])), "n": int(rng.integers(8, 14)), "seed": int(rng.integers(1 << 30)), "int": True}
    else:
        data = {"space": str(rng.choice(["hop_cycle", "hop_torus", "two_circles", "circle"])), "n": int(rng.integers(20, 40)), "seed": int(rng.integers(1 << 30))}
    out = []
    for q in range(count):
        s = dict(base, data=dict(data), vary=int(rng.integers(1 << 30)), how=str(rng.choice(["relabel", "perturb", "other", "same"], p=[0.4, 0.2, 0.25, 0.15])))
        s["m"] = 10 ** 6 if rng.random() < 0.7 else int(rng.integers(8, 20))
        if rng.random() < 0.3:
            s["perc"] = float(rng.choice([0.4, 0.6, 0.9]))
        if rng.random() < 0.2 and cls not in ("real", "lens"):
            s["prime"] = int(rng.choice([41, 3, 13]))
        if how_multi(rng, cls):
            s["ks"] = [0, 1]
        out.append(s)
    return out


def how_multi(rng, cls):
    return cls == "tor" and rng.random() < 0.5


def lookalike_input(s):
    _, D = gen.build(s["data"])
    D = np.array(D)
    rng = np.random.default_rng(s["vary"])
    n = len(D)
    if s["how"] == "relabel":
        q = np.r_[0, 1 + rng.permutation(n - 1)] if rng.random() < 0.6 else rng.permutation(n)
        D = D[q][:, q]
    elif s["how"] == "perturb":
        E = rng.uniform(0, 1e-3, (n, n)) * D.max()
        D = D + np.triu(E, 1) + np.triu(E, 1).T
    elif s["how"] == "other":
        _, D = gen.build(dict(s["data"], seed=s["vary"]))
        q = rng.permutation(n)
        D = np.array(D)[:n, :n]
        D = D[q][:, q] if len(D) == n else D
    return np.ascontiguousarray(D)


def one(s):
    D = lookalike_input(s)
    import warnings

    import dreimac

    kw = dict(distance_matrix=True)
    if s["cls"] != "real":
        kw["prime"] = s["prime"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj = getattr(dreimac, pipe.CLS[s["cls"]])(D, min(s["m"], len(D)), **kw)
        k = s.get("ks", [0]) if s["cls"] == "tor" else 0
        out, w = pipe.request(obj, s, k, s["std"], pipe.Bump(s["pu"]))
        dim = pipe.DIM[s["cls"]]
        tab = [(b, d, c.tolist()) for b, d, c in pipe.class_table(obj, dim)]
        return ("ok", np.asarray(out), sorted(w), tab)
    except Skip as e:
        return ("skip", str(e))
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def compute(s):
    """in the peer: every request is served by a fork of a process that never computed anything"""
    import os
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(one(s))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("skip", "child died")


def clean(spec, ctx):
    from ..peer import Peer

    if not PEER:
        PEER.append(Peer("interp", "p14"))
    rng = np.random.default_rng(spec["seed"])
    reqs = lookalikes(rng, spec["objects"])
    for q, s in enumerate(reqs):
        del pipe.MILP[:]
        got = one(s)
        if got[0] == "skip":
            continue
        for _ in range(3):
            PEER[0].ask(s)
            want = PEER[0].answer()
            if want is None:
                PEER.pop()
                raise Skip("peer died")
            if want[0] == "skip":
                break
            ok, why = equal(got[:2] + ((),) if got[0] == "ok" else got, want[:2] + ((),) if want[0] == "ok" else want)
            if ok and got[0] == "ok" and got[3] != want[3]:
                ok, why = False, "representatives differ"
            if ok:
                break
        if want[0] == "skip":
            continue
        ctx.check(ok, "same as in a process without a history", lambda: "object %d of %d (%s, %s, %d points): %s" % (q, len(reqs), s["cls"], s["how"], s["data"]["n"], why))
        ctx.sig("clean", s)


class Delays:
    """gives the other threads a turn between lines of the library (few times in loops)"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.seen = {}
        self.n = 0

    def call(self, frame, event, arg):
        if "dreimac" not in frame.f_code.co_filename or self.seen.get(frame.f_code, 0) > 300:
            return None
        return self.line

    def line(self, frame, event, arg):
        n = self.seen[frame.f_code] = self.seen.get(frame.f_code, 0) + 1
        if n > 300:
            return None
        if self.rng.random() < 0.3:
            self.n += 1
            time.sleep(self.rng.random() * 0.001)
        return self.line


def threads(spec, ctx, rng, obj, tab, other, tab_o, arr, dm):
    """distinct objects used from distinct threads"""
    from mon import pipe as p

    jobs = []
    for q in range(3):
        s = dict(spec)
        o = pipe.construct(ctx, s, arr, dm)
        reqs = [random_request(rng, spec, tab) for _ in range(3)]
        jobs.append((o, reqs, arr, dm))
    want = []
    for o, reqs, a, d in jobs:
        f = pipe.construct(ctx, spec, a, d)
        want.append([ask(f, *r) for r in reqs])
    got = [None] * len(jobs)
    import warnings

    # the warnings machinery of python is not thread safe: ask without recording warnings
    def req(o, r, k, std):
        kw = dict(perc=r["perc"], standard_range=std, partunity_fn=pipe.Bump(r["pu"]))
        if spec["cls"] == "tor":
            kw["cocycle_idxs"] = k
        else:
            kw["cocycle_idx"] = k
        if "check" in r and spec["cls"] in ("circ", "tor", "cplx"):
            kw["check_cocycle_condition"] = r["check"]
        if spec["cls"] == "lens":
            kw["complex_dim"] = r["proj_dim"] + 1
        elif spec["cls"] in pipe.PROJ:
            kw["proj_dim"] = r["proj_dim"]
        if spec["cls"] in pipe.PROJ:
            kw["projective_dim_red_mode"] = r["red"]
        try:
            return ("ok", o.get_coordinates(**kw))
        except Skip as e:
            return ("skip",)
        except Exception as e:
            return ("raised", type(e).__name__, str(e))

    def go(q):
        o, reqs, a, d = jobs[q]
        out = []
        delays = Delays(spec["vs"] + q)
        for t in range(2):
            if t:
                sys.settrace(delays.call)
            try:
                out.append([req(o, *r) for r in reqs])
            finally:
                sys.settrace(None)
        got[q] = out
        waited.append(delays.n)

    waited = []

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ths = [threading.Thread(target=go, args=(q,)) for q in range(len(jobs))]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.setswitchinterval(old)
    for q in range(len(jobs)):
        for a, b in zip(got[q][0] + got[q][1], want[q] * 2):
            if a[0] == "skip":
                continue
            ok, why = equal(a, b)
            ctx.check(ok, "threads", lambda: "object %d used in its own thread: %s" % (q, why))
    ctx.ev("threads: injected delays", sum(waited))


def utilities(spec, ctx):
    import dreimac
    from dreimac import utils as u

    rng = np.random.default_rng(spec["seed"])
    N = spec["N"]
    X = rng.normal(size=(N, 3))
    D = ref.dist(X)
    th = rng.uniform(0, 2 * np.pi, N)
    S3 = rng.normal(size=(N, 3))
    S3 /= np.linalg.norm(S3, axis=1)[:, None]
    S4 = rng.normal(size=(N, 4))
    S4 /= np.linalg.norm(S4, axis=1)[:, None]
    C2 = rng.normal(size=(N, 2)) + 1j * rng.normal(size=(N, 2))
    C2 /= np.linalg.norm(C2, axis=1)[:, None]
    a, b = rng.normal(size=(2, 3))
    M = int(rng.integers(2, N))
    tab = None
    from dreimac import combinatorial as comb

    tab = comb.combinatorial_number_system_table(N, 3)
    coc = np.array([[0, 1, 2], [3, 2, 1], [4, 5, 2]])
    coc2 = np.array([[0, 1, 2, 2], [5, 2, 1, 1]])
    Dsmall, tabs = D[:12, :12].copy(), comb.combinatorial_number_system_table(min(N, 12), 3)
    ds = rng.uniform(0, 0.9, N)
    calls = [
        ("get_csm", u.GeometryUtils.get_csm, (X, X[: N // 2])),
        ("get_csm_projarc", u.GeometryUtils.get_csm_projarc, (S3, S3[: N // 2])),
        ("get_ssm", u.GeometryUtils.get_ssm, (X,)),
        ("get_greedy_perm_pc", u.GeometryUtils.get_greedy_perm_pc, (X, M)),
        ("get_greedy_perm_dm", u.GeometryUtils.get_greedy_perm_dm, (D, M)),
        ("landmark_geodesic_distance", u.GeometryUtils.landmark_geodesic_distance, (X, M, min(N, 5))),
        ("sparse_cocycle_to_vector", u.CohomologyUtils.sparse_cocycle_to_vector, (coc, tab, N, int)),
        ("sparse_cocycle_to_vector", u.CohomologyUtils.sparse_cocycle_to_vector, (coc2, tab, N, int)),
        ("order_simplex", u.CohomologyUtils.order_simplex, (np.array([4, 1, 3]),)),
        ("make_delta0", u.CohomologyUtils.make_delta0, (Dsmall, 2.0, tabs)),
        ("make_delta1", u.CohomologyUtils.make_delta1, (Dsmall, 2.0, tabs)),
        ("make_delta1_compact", u.CohomologyUtils.make_delta1_compact, (Dsmall, 2.0, tabs)),
        ("make_delta2_compact", u.CohomologyUtils.make_delta2_compact, (Dsmall, 2.0, tabs)),
        ("linear", u.PartUnity.linear, (ds, 1.0)),
        ("quadratic", u.PartUnity.quadratic, (ds, 1.0)),
        ("exp", u.PartUnity.exp, (ds, 1.0)),
        ("ppca", u.EquivariantPCA.ppca, (S4, 2, "direct")),
        ("ppca", u.EquivariantPCA.ppca, (S4, 1, "exponential")),
        ("ppca", u.EquivariantPCA.ppca, (S4, 1, "one-by-one")),
        ("to_sinebow", u.CircleMapUtils.to_sinebow, (th,)),
        ("center", u.CircleMapUtils.center, (th,)),
        ("offset", u.CircleMapUtils.offset, (th, 0.3)),
        ("linear_combination", u.CircleMapUtils.linear_combination, (np.array([th, th[::-1]]), np.array([[1, 2], [0, -1]]))),
        ("levelset_coloring", u.CircleMapUtils.levelset_coloring, (th, 4, 0.25)),
        ("get_stereo_proj_codim1", u.ProjectiveMapUtils.get_stereo_proj_codim1, (S4, S4[0].copy())),
        ("get_stereo_proj_codim1", u.ProjectiveMapUtils.get_stereo_proj_codim1, (S3,)),
        ("circle_to_3dnorthpole", u.ProjectiveMapUtils.circle_to_3dnorthpole, (1.7 * S3[0, :2],)),
        ("circle_to_3dnorthpole", u.ProjectiveMapUtils.circle_to_3dnorthpole, (-np.array([3.0, 0.25]) * a[:2] / max(1e-9, np.abs(a[0])),)),
        ("hopf_map", u.ProjectiveMapUtils.hopf_map, (C2,)),
        ("stereographic_projection_hemispheres", u.ProjectiveMapUtils.stereographic_projection_hemispheres, (S3,)),
        ("stereographic_projection_hemispheres", u.ProjectiveMapUtils.stereographic_projection_hemispheres, (S3, S3[0].copy())),
        ("rotmat", u.ProjectiveMapUtils.rotmat, (a, b)),
        ("rotmat", u.ProjectiveMapUtils.rotmat, (a,)),
        ("lens_3D_to_disk_3D", u.LensMapUtils.lens_3D_to_disk_3D, (C2, 3)),
        ("lens_3D_to_disk_3D", u.LensMapUtils.lens_3D_to_disk_3D, (C2, 2)),
    ]

    def snap(v):
        return tuple(np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in v)

    def flat(o):
        if hasattr(o, "toarray"):
            return [o.toarray()]
        if isinstance(o, dict):
            return [y for x in sorted(o) for y in flat(o[x])]
        if isinstance(o, (tuple, list)):
            return [y for x in o for y in flat(x)]
        return [np.asarray(o)]

    order = rng.permutation(len(calls))
    for q in order:
        name, fn, args = calls[q]
        before = snap(args)
        out1 = flat(ctx.real(name, fn, *args))
        ok = all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(args, before))
        ctx.check(ok, "utility arguments unchanged", lambda: "%s changed its arguments" % name)
        kept = [np.array(x, copy=True) for x in out1]
        out2 = flat(ctx.real(name, fn, *snap(before)))
        ctx.check(len(out1) == len(out2) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(kept, out2)), "utility repeatable", lambda: "%s gave different results for the same arguments" % name)
        ctx.check(all(np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(out1, kept)), "earlier results unchanged", lambda: "a second call of %s changed the first result" % name)
        # read-only arguments
        ro = tuple(np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in before)
        for x in ro:
            if isinstance(x, np.ndarray):
                x.setflags(write=False)
        ctx.real(name + " with read-only arguments", fn, *ro)
        ctx.sig("utility", name, N, spec["seed"])
