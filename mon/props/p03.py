"""The filtration scale is chosen inside the life of the selected classes."""
import numpy as np

from .. import gen, pipe, ref
from ..core import Skip

RULE = ("random datasets x all five classes x class index or list of up to 5 indices x percentage in [0,1] x range; the radius is observed through the "
        "user-supplied partition function; requests with an empty range or whose classes never coexist (constructed from the diagram) must raise; "
        "non-trivial: a radius observed or a refusal required; distinct by (dataset, landmarks, prime, classes, percentage, range)")
MIN_DISTINCT = {"quick": 500, "thorough": 5000}
NEED = ["radius", "radius of several classes", "refused: empty range", "refused: classes never coexist", "extreme percentage", "defaults"]
CASE_TIMEOUT = 60
COST = {"jit": 4.0, "bc": 4.0, "interp": 0.3}
ASSUMPTIONS = ["ranges whose ends coincide up to rounding may be answered or refused", "known finding: the documented lower end by the covering radius of the landmarks is ignored"]


def cases(rng, tier):
    n = 840 if tier == "quick" else 6500
    for i in range(n):
        cls = str(rng.choice(["circ", "tor", "real", "lens", "cplx"], p=[0.2, 0.35, 0.15, 0.15, 0.15]))
        s = pipe.case(rng, cls, **({"mmax": 14} if cls == "cplx" else {}))
        if cls != "cplx" and rng.random() < 0.4:
            s["data"]["space"] = str(rng.choice(["blob", "random_metric", "three_circles", "concentric", "two_circles", "genus2", "hop_cycle", "hop_torus"]))
            s["data"].pop("embed", None)
        if rng.random() < 0.3:
            s["m"] = 10 ** 6
            s["data"]["n"] = int(rng.integers(10, 16 if cls == "cplx" else 28))
        s["red"] = "direct"
        s["proj_dim"] = 1
        s["rq"] = int(rng.integers(1 << 30))
        yield ("jit" if rng.random() < 0.06 else "interp"), s


def run(spec, ctx):
    arr, dm, D, rep = pipe.arrays(spec)
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo(obj, spec, D)
    dim = pipe.DIM[spec["cls"]]
    tab = pipe.class_table(obj, dim)
    tab = [t for t in tab]
    if not tab:
        raise Skip("no class")
    rng = np.random.default_rng(spec["rq"])
    reach = float(np.max(np.min(g.DL, axis=0)))  # the landmarks cover the data at this radius
    eps = 1e-6 * g.scale
    p = pipe.prime_of(spec)
    for q in range(5):
        std = bool(rng.random() < 0.5)
        perc = float(rng.choice([rng.uniform(0, 1), 0.5, 0.0, 1.0, 0.001, 0.999, 0.9]))
        n = 1
        if spec["cls"] == "tor":
            n = int(rng.choice([1, 2, 2, 3, 4, 5]))
        n = min(n, len(tab))
        sel = [int(x) for x in rng.permutation(len(tab))[:n]] if rng.random() < 0.6 else [int(x) for x in rng.permutation(min(len(tab), n + 1))[:n]]
        b = max(tab[k][0] for k in sel)
        d = min(tab[k][1] for k in sel)
        if not np.isfinite(d):
            continue
        start = 2 * b if std else b
        pu = pipe.Bump(spec["pu"])
        must = None
        if len(sel) > 1 and b >= d:
            must = "refused: classes never coexist"
        elif start > d + eps:
            must = "refused: empty range"
        elif start > d - eps:
            ctx.ev("ends coincide")
            continue
        out, err = None, None
        req = dict(spec, perc=perc)
        try:
            out, warns = pipe.request(obj, req, sel if spec["cls"] == "tor" else sel[0], std, pu, **({"check_cocycle_condition": False} if spec["cls"] in ("circ", "tor", "cplx") else {}))
        except Skip:
            raise
        except Exception as e:
            err = e
        where = "%s classes %s (latest birth %g, earliest death %g) percentage %g standard_range %s" % (spec["cls"], sel, b, d, perc, std)
        if must:
            ctx.check(err is not None, must, lambda: where + ": answered")
            ctx.sig(spec["data"], g.m, p, sel, perc, std)
            continue
        if err is not None:
            if reach > d + eps and ("short" in str(err) or "cover" in str(err).lower()):
                ctx.ev("refused: landmarks do not cover the data before the death of the class")
                continue
            singular = len(sel) > 1 and isinstance(err, np.linalg.LinAlgError)
            if singular and (len(set(sel)) < len(sel) or perc in (0.0, 1.0) or pu.r is not None):
                ctx.ev("dependent classes")
            else:
                ctx.viol("radius", "%s: raised %s: %s" % (where, type(err).__name__, str(err)[:160]))
                continue
        if pu.r is None:
            raise Skip("radius not observed")
        rs = {c[1] for c in pu.calls}
        want = ((1 - perc) * start + perc * d) / 2
        s2 = max(start, reach)
        doc = ((1 - perc) * s2 + perc * d) / 2
        tol = 1e-9 * max(g.scale, d)
        ctx.ev("radius")
        if len(sel) > 1:
            ctx.ev("radius of several classes")
        if perc in (0.0, 1.0):
            ctx.ev("extreme percentage")
        for r in rs:
            if reach <= start + eps or abs(doc - want) <= tol:
                if abs(r - want) > tol:
                    ctx.viol("radius", "%s: covering radius %.9g, half of the interpolation is %.9g" % (where, r, want))
            elif abs(r - doc) > tol:
                if abs(r - want) <= tol:
                    ctx.finding("coverage-ignored", "%s: covering radius %.6g although the landmarks cover the data only from %.6g on" % (where, r, reach))
                else:
                    ctx.viol("radius", "%s: covering radius %.9g, half of the interpolation is %.9g (%.9g when started at the covering radius of the landmarks)" % (where, r, want, doc))
        ctx.sig(spec["data"], g.m, p, sel, perc, std)
    if rng.random() < 0.4:
        defaults(spec, ctx, obj, g, tab, reach, eps)


def defaults(spec, ctx, obj, g, tab, reach, eps):
    """a request that leaves everything to the documented defaults"""
    import warnings

    perc, width = {"circ": (0.5, None), "tor": (0.5, None), "cplx": (0.5, 2), "real": (0.9, 3), "lens": (0.9, 2)}[spec["cls"]]
    b, d = tab[0][:2]
    if not np.isfinite(d) or abs(2 * b - d) <= eps or (width or 0) > g.m:
        return
    pu = pipe.Bump(spec["pu"])
    out, err = None, None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = obj.get_coordinates(partunity_fn=pu)
    except Skip:
        raise
    except Exception as e:
        err = e
    where = "%s default request (birth %g, death %g)" % (spec["cls"], b, d)
    if 2 * b > d:
        ctx.check(err is not None, "refused: empty range", lambda: where + ": answered")
        return
    if reach > 2 * b + eps:
        return
    if err is not None:
        if "integral lift" not in str(err):
            ctx.viol("defaults", "%s: raised %s: %s" % (where, type(err).__name__, str(err)[:160]))
        return
    if pu.r is None:
        raise Skip("radius not observed")
    want = ((1 - perc) * 2 * b + perc * d) / 2
    ctx.check(abs(pu.r - want) <= 1e-9 * max(g.scale, d), "defaults", lambda: "%s: covering radius %.9g, documented %.9g" % (where, pu.r, want))
    shape = np.shape(np.asarray(out))
    doc = {"circ": (g.N,), "tor": (1, g.N)}.get(spec["cls"], (g.N, width))
    ctx.check(shape == doc, "defaults", lambda: "%s: shape %s, documented %s" % (where, shape, doc))
