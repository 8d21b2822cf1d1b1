"""Oracles for circle-valued coordinates."""
import numpy as np

from . import pipe, ref
from .core import Skip

RES_TOL = 2e-5     # turns: distance from every map of the class (integrality, rounding)
DEV_TOL = 2e-4     # turns: distance from the harmonic map (iterative solver)


def setup(ctx, spec, min_points=3):
    """construct, choose a class, evaluate; -> dict with everything the oracles need"""
    arr, dm, D, rep = pipe.arrays(spec)
    obj = pipe.construct(ctx, spec, arr, dm)
    g = pipe.Geo(obj, spec, D)
    tab = pipe.class_table(obj, 1)
    if not tab:
        raise Skip("no class")
    return obj, g, tab


def cover(g, r, kind):
    phi, cov, U = ref.weights(g.DL, r, kind)
    return phi, cov, U


def naive_is_cocycle(C, K, tris=None):
    tris = ref.triangles_of(K) if tris is None else tris
    return not np.any(ref.d1_max_defect(C, tris)), tris


def edge_vector_to_cochain(v, m):
    C = np.zeros((m, m), dtype=np.int64)
    n = 0
    for j in range(m):
        for i in range(j):
            C[i, j] = v[n]
            C[j, i] = -v[n]
            n += 1
    return C


def candidates(C, K, p, theta, g, cov):
    """integer cocycles congruent to C mod p that the code may have used (guesses, verified)"""
    out = []
    m = len(C)
    tris = ref.triangles_of(K)
    for res in pipe.MILP:
        x = res.get("x")
        if x is None or len(x) != m * (m - 1) // 2:
            continue
        cand = C - p * edge_vector_to_cochain(np.rint(x).astype(np.int64), m)
        if not np.any(ref.d1_max_defect(np.where(K, cand, 0), tris)):
            out.append(("solver", cand))
    # winding: angles next to the landmarks, shortest arcs along the edges
    near = np.argmin(np.where(np.isnan(theta), np.inf, g.DL), 1)
    t = np.asarray(theta)[near] / (2 * np.pi)
    d = ref.wrap(t[None, :] - t[:, None])
    # the integer class with harmonic values d: C = d - (f_j - f_i) rounded
    W = np.rint(d - (t[None, :] - t[:, None])).astype(np.int64)
    W = np.where(K, np.triu(W, 1) - np.triu(W, 1).T, 0)
    if not np.any(ref.d1_max_defect(W, tris)):
        out.append(("winding", W))
    return out


def congruent(W, C, K, p):
    """is W - C trivial in cohomology mod p on K?"""
    i, j = ref.edges_of(K)
    m = len(K)
    d0 = np.zeros((len(i), m), dtype=np.int64)
    d0[np.arange(len(i)), i] = -1
    d0[np.arange(len(i)), j] = 1
    return ref.in_span_mod(d0, np.mod((W - C)[i, j], p), p)


def judge(theta, C, K, phi, cov, U, DL):
    """fit against the class of the integer cocycle C, evaluated in a ball chosen by us"""
    ch = ref.charts(U, "near", DL)
    return ref.fit_circle_map(theta, C, K, phi, cov, ch)
