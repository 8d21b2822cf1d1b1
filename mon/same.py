"""Comparison of two runs that should give the same coordinates up to the symmetries of the target."""
import numpy as np

from . import pipe, proj, ref
from .core import Skip


def unique_greedy(D, m, tol=1e-6):
    """farthest point sample of the exact square matrix D; None if rounding could change it"""
    D = np.asarray(D, float)
    scale = ref.top(D)
    ds = D[0].copy()
    idx = [0]
    while len(idx) < m:
        o = np.sort(ds)
        if o[-1] <= tol * scale:
            return np.array(idx), bool(o[-1] == 0)
        near = ds >= o[-1] - tol * scale
        i = int(np.argmax(ds))
        # ties are harmless only between copies of one point; copies make the index ambiguous
        if near.sum() > 1:
            return None, False
        idx.append(i)
        ds = np.minimum(ds, D[i])
    return np.array(idx), True


def exact_greedy(D, m):
    return ref.greedy(np.asarray(D, float), m)


class Run:
    pass


def run(ctx, obj, spec, k, std, m, label="get_coordinates", red=True):
    """coordinates asked in full and (projective classes) reduced"""
    o = Run()
    pu = pipe.Bump(spec["pu"])
    cls = spec["cls"]
    if cls in pipe.PROJ:
        full = dict(complex_dim=m) if cls == "lens" else dict(proj_dim=m - 1)
        o.full, o.warns = pipe.ask(ctx, label, obj, spec, k, std, pu, **full)
        o.red = None
        if red and spec["proj_dim"] + 1 <= m:
            o.red, _ = pipe.ask(ctx, label, obj, spec, k, std, pipe.Bump(spec["pu"]))
    else:
        o.full, o.warns = pipe.ask(ctx, label, obj, spec, k, std, pu)
        o.full = np.atleast_2d(np.asarray(o.full, float))
        o.red = None
    o.full = np.asarray(o.full)
    o.r = pu.r
    return o


def angles(A, B, lab):
    """largest difference in turns after one rotation per component and coordinate"""
    d = ref.wrap((A - B) / (2 * np.pi))
    out = 0.0
    for row in np.atleast_2d(d):
        for q in np.unique(lab):
            z = row[lab == q]
            out = max(out, float(np.max(np.abs(ref.wrap(z - ref.circ_mean(z))))))
    return out


def compare(ctx, spec, A, B, cols, lab, monitor, what, tol=1e-4, exact=False):
    """A, B: Run objects; cols = (columns of A, corresponding columns of B) of covered points;
    lab: component label of those points; exact: not even rotations are allowed (angles)"""
    ia, ib = cols
    if spec["cls"] in pipe.PROJ:
        FA, FB = A.full[ia], B.full[ib]
        fa, fb = np.isfinite(FA).all(1), np.isfinite(FB).all(1)
        if not ctx.check(np.array_equal(fa, fb), monitor, lambda: "%s: different rows undefined" % what):
            return
        if len(ia) > 300:
            s = np.sort(np.random.default_rng(1).choice(len(ia), 300, replace=False))
        else:
            s = np.arange(len(ia))
        s = s[fa[s]]
        if len(s) < 2:
            return
        mod, dev, _ = proj.align(FA[s].astype(complex), FB[s].astype(complex))
        ctx.check(mod < tol and dev < 50 * tol, monitor, lambda: "%s: full coordinates differ by %g (%g)" % (what, mod, dev))
        if A.red is not None and B.red is not None and fa.all() and len(ia) <= 300:
            k = A.red.shape[1]
            X, info = ref.ppca(FA, k, spec["red"])
            ok = info["norms"] > 1e-2
            gap = min(info["gaps"]) if info["gaps"] else 1.0
            if info["early"] > 1e-2 and gap > 1e-2 and ok.sum() > 1:
                mod, dev, _ = proj.align(np.asarray(A.red)[ia][ok].astype(complex), np.asarray(B.red)[ib][ok].astype(complex))
                ctx.ev("reduced coordinates compared")
                # (the two inputs differ by up to tol)
                t = max(tol * 10 / gap / min(info["early"], info["norms"][ok].min()), (ref.ppca_tolerance(FA, k, spec["red"], ok) - 1e-8) * tol * 1e11)
                if t < 0.05:
                    ctx.check(mod < t, monitor + " (reduced)", lambda: "%s: reduced coordinates differ by %g (%g), gap %g" % (what, mod, dev, gap))
    else:
        a, b = A.full[:, ia], B.full[:, ib]
        if not ctx.check(a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)), monitor, lambda: "%s: different points undefined" % what):
            return
        ok = ~np.isnan(a).any(0)
        if ok.sum() < 1:
            return
        e = angles(a[:, ok], b[:, ok], lab[ok])
        if exact:
            e = max(e, float(np.max(np.abs(ref.wrap((a[:, ok] - b[:, ok]) / (2 * np.pi))))))
        ctx.check(e < tol, monitor, lambda: "%s: angles differ by %g turns" % (what, e))


def labels(g, r):
    """component (at scale 2r) of the nearest landmark of every point"""
    return ref.components(g.complex(r))[np.argmin(g.DL, 0)]


def same_rows(ta, tb, k):
    ks = k if isinstance(k, list) else [k]
    for q in ks:
        if q >= len(ta) or q >= len(tb) or not np.array_equal(ta[q][2], tb[q][2]):
            return False
    return True


def pick(tab, spec, rng=None):
    """class (or list of coexisting classes for toroidal requests) and range"""
    if spec["cls"] != "tor" or spec.get("nclass", 1) == 1:
        return pipe.choose(tab, spec)
    std = spec.get("std", False)
    first = pipe.admissible(tab, std)
    if len(first) < 2:
        std = False
        first = pipe.admissible(tab, std)
    if not first:
        raise Skip("no admissible class")
    sel = [first[0]]
    for q in first[1:]:
        b = max(tab[x][0] for x in sel + [q])
        d = min(tab[x][1] for x in sel + [q])
        if (2 if std else 1) * b < d * (1 - 1e-6) and b < d * (1 - 1e-6) and len(sel) < spec["nclass"]:
            sel.append(q)
    return sel, std
