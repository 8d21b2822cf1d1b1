"""Reference models, written from the theory (docs/theory.rst and the cited papers), not from
dreimac's code.  Nothing in this file imports dreimac.

Conventions.  A 1-cochain on m landmarks is an antisymmetric integer m x m matrix C, C[a,b] its
value on the oriented edge (a,b).  A 2-cochain is a totally antisymmetric m x m x m array.
A map to the circle with transition cocycle C and values f at the landmarks is, at a point b with
blending weights phi(b) and evaluated in any ball j containing b,
        h_j(b) = sum_k phi_k(b) * (f_k + C[j,k])            (mod 1)
"""
import itertools
import numpy as np


# ---------------------------------------------------------------- distances, landmarks, weights
def dist(X, Y=None):
    Y = X if Y is None else Y
    X = np.asarray(X, float)
    Y = np.asarray(Y, float)
    return np.sqrt(((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1))


def top(D):
    """largest finite distance"""
    D = np.asarray(D, float)
    return float(np.max(D, where=np.isfinite(D), initial=0.0)) or 1.0


def greedy_ok(D, idx, tol):
    """Is idx a farthest point sample of the (square) distance matrix D, starting at 0?"""
    if idx[0] != 0 or len(set(int(i) for i in idx)) != len(idx):
        return False
    ds = np.array(D[idx[0]], float)
    for i in idx[1:]:
        if ds[i] < ds.max() - tol:
            return False
        ds = np.minimum(ds, D[i])
    return True


def greedy(D, m):
    idx = [0]
    ds = np.array(D[0], float)
    for _ in range(1, m):
        i = int(np.argmax(ds))
        if ds[i] <= 0:
            break
        idx.append(i)
        ds = np.minimum(ds, D[i])
    return np.array(idx)


def bump(kind, d, r):
    if kind == "linear":
        return r - d
    if kind == "quadratic":
        return (r - d) ** 2
    if kind == "exp":
        return np.exp(r * r / (d * d - r * r))
    if kind == "cosine":  # user supplied
        return 1 + np.cos(np.pi * d / r)
    if kind == "const":  # user supplied, discontinuous
        return np.ones_like(d)
    raise KeyError(kind)


def weights(DL, r, kind):
    """(m x N) weights; columns of uncovered points are nan. Also the mask of covered points."""
    DL = np.asarray(DL, float)
    phi = np.zeros(DL.shape)
    U = DL < r
    with np.errstate(all="ignore"):
        phi[U] = bump(kind, DL[U], r)
    s = phi.sum(0)
    cov = s > 1e-280  # (points whose weights underflow are covered, but their weights are not compared)
    out = np.full(DL.shape, np.nan)
    out[:, cov] = phi[:, cov] / s[cov]
    return out, cov, U


# ---------------------------------------------------------------- cochains
def balanced(v, p):
    """representative of v mod p in (-p/2, p/2]; for p=2 the lift of 1 is +-1 (sign is free)"""
    v = np.mod(v, p)
    return np.where(v > (p - 1) / 2, v - p, v)


def cochain1(rows, m, p=None):
    C = np.zeros((m, m), dtype=np.int64)
    for a, b, v in np.asarray(rows, dtype=np.int64):
        C[a, b] = v
        C[b, a] = -v
    return C


def lift1(rows, m, p):
    rows = np.array(rows, dtype=np.int64, copy=True)
    if len(rows):
        rows[:, -1] = balanced(rows[:, -1], p)
    return cochain1(rows, m)


_SGN3 = [((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((1, 0, 2), -1), ((0, 2, 1), -1), ((2, 1, 0), -1)]


def cochain2(rows, m):
    C = np.zeros((m, m, m), dtype=np.int64)
    for r in np.asarray(rows, dtype=np.int64):
        for perm, s in _SGN3:
            C[r[perm[0]], r[perm[1]], r[perm[2]]] = s * r[3]
    return C


def lift2(rows, m, p):
    rows = np.array(rows, dtype=np.int64, copy=True)
    if len(rows):
        rows[:, -1] = balanced(rows[:, -1], p)
    return cochain2(rows, m)


def edges_of(K):
    i, j = np.nonzero(np.triu(K, 1))
    return i, j


def triangles_of(K):
    m = K.shape[0]
    out = []
    for i in range(m):
        ni = np.nonzero(K[i, i + 1:])[0] + i + 1
        for j in ni:
            for k in ni[ni > j]:
                if K[j, k]:
                    out.append((i, int(j), int(k)))
    return out


def tetrahedra_of(K, tris=None):
    tris = triangles_of(K) if tris is None else tris
    m = K.shape[0]
    out = []
    for i, j, k in tris:
        for l in range(k + 1, m):
            if K[i, l] and K[j, l] and K[k, l]:
                out.append((i, j, k, l))
    return out


def d1_max_defect(C, tris, mod=None):
    """values of the coboundary of the 1-cochain C on the triangles"""
    if not tris:
        return np.zeros(0, dtype=np.int64)
    t = np.array(tris)
    v = C[t[:, 0], t[:, 1]] + C[t[:, 1], t[:, 2]] - C[t[:, 0], t[:, 2]]
    return v if mod is None else np.mod(v, mod)


def d2_values(C, tets, mod=None):
    if not tets:
        return np.zeros(0, dtype=np.int64)
    t = np.array(tets)
    a, b, c, d = t.T
    v = C[b, c, d] - C[a, c, d] + C[a, b, d] - C[a, b, c]
    return v if mod is None else np.mod(v, mod)


def components(K):
    m = K.shape[0]
    lab = -np.ones(m, int)
    n = 0
    for s in range(m):
        if lab[s] >= 0:
            continue
        lab[s] = n
        st = [s]
        while st:
            a = st.pop()
            for b in np.nonzero(K[a])[0]:
                if lab[b] < 0:
                    lab[b] = n
                    st.append(b)
        n += 1
    return lab


# ---------------------------------------------------------------- linear algebra mod p
def rank_mod(A, p):
    A = np.array(A, dtype=np.int64) % p
    r = 0
    rows, cols = A.shape
    for c in range(cols):
        if r == rows:
            break
        piv = np.nonzero(A[r:, c])[0]
        if len(piv) == 0:
            continue
        k = r + piv[0]
        if k != r:
            A[[r, k]] = A[[k, r]]
        A[r] = (A[r] * pow(int(A[r, c]), -1, p)) % p
        nz = np.nonzero(A[:, c])[0]
        nz = nz[nz != r]
        if len(nz):
            A[nz] = (A[nz] - np.outer(A[nz, c], A[r])) % p
        r += 1
    return r


def in_span_mod(B, v, p):
    """is v in the column span of B mod p"""
    if B.shape[1] == 0:
        return not np.any(np.mod(v, p))
    return rank_mod(B, p) == rank_mod(np.hstack([B, np.reshape(v, (-1, 1))]), p)


def boundary_matrices(K, dim):
    """dense delta_{dim-1} and delta_dim of the flag complex of K (rows: higher simplices)"""
    m = K.shape[0]
    ei, ej = edges_of(K)
    eidx = {(int(a), int(b)): n for n, (a, b) in enumerate(zip(ei, ej))}
    tris = triangles_of(K)
    if dim == 1:
        d0 = np.zeros((len(eidx), m), dtype=np.int64)
        for (a, b), n in eidx.items():
            d0[n, a] = -1
            d0[n, b] = 1
        d1 = np.zeros((len(tris), len(eidx)), dtype=np.int64)
        for n, (a, b, c) in enumerate(tris):
            d1[n, eidx[a, b]] = 1
            d1[n, eidx[b, c]] = 1
            d1[n, eidx[a, c]] = -1
        return d0, d1, eidx
    tidx = {t: n for n, t in enumerate(tris)}
    tets = tetrahedra_of(K, tris)
    d1 = np.zeros((len(tris), len(eidx)), dtype=np.int64)
    for n, (a, b, c) in enumerate(tris):
        d1[n, eidx[a, b]] = 1
        d1[n, eidx[b, c]] = 1
        d1[n, eidx[a, c]] = -1
    d2 = np.zeros((len(tets), len(tris)), dtype=np.int64)
    for n, (a, b, c, d) in enumerate(tets):
        d2[n, tidx[b, c, d]] = 1
        d2[n, tidx[a, c, d]] = -1
        d2[n, tidx[a, b, d]] = 1
        d2[n, tidx[a, b, c]] = -1
    return d1, d2, tidx


# ---------------------------------------------------------------- linear algebra over the integers
def solve_integer(A, y):
    """Is there an integer x with A x = y?  A: list of dict(col->int) rows, y: list of int.
    Unit pivots first (exact, no coefficient growth in practice), then a small dense
    Hermite-style elimination with python integers."""
    rows = [(dict(r), int(v)) for r, v in zip(A, y)]
    active = [r for r in rows if r[0]]
    for r in rows:
        if not r[0] and r[1] != 0:
            return False
    col_rows = {}
    live = {}
    for n, (r, v) in enumerate(active):
        live[n] = [r, v]
        for c in r:
            col_rows.setdefault(c, set()).add(n)
    work = True
    while work:
        work = False
        for n in sorted(live, key=lambda k: len(live[k][0])):
            if n not in live:
                continue
            r, v = live[n]
            if not r:
                if v != 0:
                    return False
                del live[n]
                continue
            piv = [c for c, a in r.items() if a in (1, -1)]
            if not piv:
                continue
            c = min(piv, key=lambda c: len(col_rows[c]))
            a = r[c]
            for k in list(col_rows[c]):
                if k == n:
                    continue
                q, w = live[k]
                t = q[c] * a  # a is +-1
                for cc, aa in r.items():
                    nv = q.get(cc, 0) - t * aa
                    if nv:
                        q[cc] = nv
                        col_rows.setdefault(cc, set()).add(k)
                    elif cc in q:
                        del q[cc]
                        col_rows[cc].discard(k)
                live[k][1] = w - t * v
            for cc in r:
                col_rows[cc].discard(n)
            del live[n]
            work = True
    # residual dense system without unit entries
    rest = [(r, v) for r, v in live.values() if r or v]
    if not rest:
        return True
    cols = sorted({c for r, _ in rest for c in r})
    if not cols:
        return all(v == 0 for _, v in rest)
    M = [[r.get(c, 0) for c in cols] for r, _ in rest]
    b = [v for _, v in rest]
    # column-style Hermite form: unimodular column operations keep the set of reachable A x
    nr, nc = len(M), len(cols)
    pc = 0
    for i in range(nr):
        while True:
            nz = [j for j in range(pc, nc) if M[i][j]]
            if len(nz) <= 1:
                break
            j0 = min(nz, key=lambda j: abs(M[i][j]))
            for j in nz:
                if j != j0:
                    q = M[i][j] // M[i][j0]
                    for k in range(i, nr):
                        M[k][j] -= q * M[k][j0]
        nz = [j for j in range(pc, nc) if M[i][j]]
        if nz:
            j = nz[0]
            for k in range(nr):
                M[k][pc], M[k][j] = M[k][j], M[k][pc]
            if b[i] % M[i][pc]:
                return False
            q = b[i] // M[i][pc]
            for k in range(i, nr):
                b[k] -= q * M[k][pc]
            pc += 1
        elif b[i] != 0:
            return False
    return True


def lift_exists1(C, K, p, tris=None):
    """Does the mod p class of the (lifted) cochain C have an integer lift on the flag complex K?"""
    tris = triangles_of(K) if tris is None else tris
    v = d1_max_defect(C, tris)
    if np.any(v % p):
        raise ValueError("not a cocycle mod p")
    if not np.any(v):
        return True
    A = [{(a, b): 1, (b, c): 1, (a, c): -1} for a, b, c in tris]
    return solve_integer(A, [int(x) // p for x in v])


def lift_exists2(C, K, p):
    tets = tetrahedra_of(K)
    v = d2_values(C, tets)
    if np.any(v % p):
        raise ValueError("not a cocycle mod p")
    if not np.any(v):
        return True
    A = [{(b, c, d): 1, (a, c, d): -1, (a, b, d): 1, (a, b, c): -1} for a, b, c, d in tets]
    return solve_integer(A, [int(x) // p for x in v])


# ---------------------------------------------------------------- circle valued maps
def harmonic1(C, K):
    """values f at the landmarks minimising sum over edges of (C_ij + f_j - f_i)^2, and the energy"""
    m = K.shape[0]
    i, j = edges_of(K)
    A = np.zeros((len(i), m))
    A[np.arange(len(i)), i] = -1
    A[np.arange(len(i)), j] = 1
    c = C[i, j].astype(float)
    f = np.linalg.lstsq(A, -c, rcond=None)[0]
    th = c + A @ f
    return f, th, float((th ** 2).sum()), (A, c)


def charts(U, which="near", DL=None, rng=None):
    """for every column (point) one ball containing it (any: the map must not depend on it)"""
    if which == "near":
        return np.argmin(DL, 0)
    return np.argmax(U, 0)


def circle_map(C, f, phi, cov, ch):
    """h(b)/turns, nan where uncovered"""
    N = phi.shape[1]
    out = np.full(N, np.nan)
    idx = np.nonzero(cov)[0]
    W = phi[:, idx]
    out[idx] = np.einsum("kb,kb->b", W, f[:, None] + C[ch[idx]].T)
    return out


def wrap(x):
    return x - np.round(x)


def circ_mean(d):
    z = np.exp(2j * np.pi * d).mean()
    return np.angle(z) / (2 * np.pi)


def fit_circle_map(theta, C, K, phi, cov, ch, min_class_points=1):
    """Compare angles (radians) with the harmonic map of the integer cocycle C on K.
    Returns dict(resid, fdev, energy, emin): resid = how far the observed map is from *every*
    map of this class on this cover (turns), fdev = how far its landmark values are from the
    harmonic ones (turns, modulo a constant per component), energy vs the minimum."""
    f, th, emin, (A, c) = harmonic1(C, K)
    comp = components(K)
    idx = np.nonzero(cov)[0]
    h = circle_map(C, f, phi, cov, ch)[idx]
    obs = np.asarray(theta, float)[idx] / (2 * np.pi)
    d = wrap(obs - h)
    pc = comp[ch[idx]]
    off = np.zeros(comp.max() + 1)
    for q in np.unique(pc):
        off[q] = circ_mean(d[pc == q])
    d = wrap(d - off[pc])
    Phi = phi[:, idx].T
    e = np.linalg.lstsq(Phi, d, rcond=1e-9)[0]
    resid = float(np.max(np.abs(Phi @ e - d))) if len(idx) else 0.0
    # deviation modulo one constant per component
    seen = np.unique(pc)
    e2 = e.copy()
    for q in seen:
        e2[comp == q] -= np.median(e2[comp == q])
    fdev = float(np.max(np.abs(d))) if len(idx) else 0.0
    energy = float(((c + A @ (f + e)) ** 2).sum())
    return dict(resid=resid, fdev=fdev, energy=energy, emin=emin, comps=int(len(seen)), npts=int(len(idx)), th=th)


# ---------------------------------------------------------------- projective maps
def sign_map(C, phi, cov, ch):
    """rows: points; entries sqrt(phi_k) * (-1)^C[ch,k]"""
    s = np.where(np.mod(C, 2) == 1, -1.0, 1.0)
    F = np.full(phi.T.shape, np.nan)
    F[cov] = np.sqrt(phi.T[cov]) * s[ch[cov]]
    return F


def lens_map(C, q, phi, cov, ch):
    F = np.full(phi.T.shape, np.nan, dtype=complex)
    F[cov] = np.sqrt(phi.T[cov]) * np.exp(2j * np.pi * np.mod(C, q) / q)[ch[cov]]
    return F


def harmonic2(C, K):
    """nu on edges minimising |C - d nu|^2, minimum norm; antisymmetric matrix; residual tensor"""
    m = K.shape[0]
    ei, ej = edges_of(K)
    eidx = -np.ones((m, m), int)
    eidx[ei, ej] = np.arange(len(ei))
    tris = triangles_of(K)
    t = np.array(tris).reshape(-1, 3)
    n = np.arange(len(t))
    cols = [eidx[t[:, 0], t[:, 1]], eidx[t[:, 1], t[:, 2]], eidx[t[:, 0], t[:, 2]]]
    c = C[t[:, 0], t[:, 1], t[:, 2]].astype(float)
    if len(t) * len(ei) < 500000:
        A = np.zeros((len(t), len(ei)))
        for q, s in zip(cols, (1, 1, -1)):
            A[n, q] += s
        x, *_ = np.linalg.lstsq(A, c, rcond=1e-10)
    else:
        # normal equations: the Gram matrix is an exact integer matrix with a clear spectral gap
        from scipy.sparse import coo_matrix

        A = coo_matrix((np.repeat([1.0, 1.0, -1.0], len(t)), (np.tile(n, 3), np.concatenate(cols))), shape=(len(t), len(ei))).tocsr()
        w, V = eigh((A.T @ A).toarray())
        inv = np.where(w > 1e-9 * max(w[-1], 1), 1 / np.where(w > 0, w, 1), 0)
        x = V @ (inv * (V.T @ (A.T @ c)))
    nu = np.zeros((m, m))
    nu[ei, ej] = x
    nu[ej, ei] = -x
    return nu, c - A @ x, tris


def complex_map(C, nu, K, phi, cov, ch):
    """phases 2 pi * ( nu_{i j} + sum_t phi_t * (C - d nu)_{i j t} ), j a ball containing the point"""
    m = K.shape[0]
    F = np.full(phi.T.shape, np.nan, dtype=complex)
    eta = C - (nu[:, :, None] + nu[None, :, :] - nu[:, None, :])
    ok = K[:, :, None] & K[None, :, :] & K[:, None, :]
    eta = np.where(ok, eta, 0.0)
    for b in np.nonzero(cov)[0]:
        j = ch[b]
        ph = nu[:, j] + eta[:, j, :] @ phi[:, b]
        F[b] = np.exp(2j * np.pi * ph) * np.sqrt(phi[:, b])
    return F


def gram_mod(F):
    return np.abs(F @ np.conjugate(F).T)


# ---------------------------------------------------------------- principal projective components
_eigh = np.linalg.eigh  # (checks make the one of numpy fail)


def eigh(G):
    """eigenvalues (ascending) and eigenvectors of a positive semidefinite Hermitian matrix, also
    when the solver of numpy does not converge (it happens, with 100 to 300 rows)"""
    try:
        return _eigh(G)
    except np.linalg.LinAlgError:
        U, w, _ = np.linalg.svd(G, hermitian=False)
        return w[::-1], U[:, ::-1]


def ppca(F, k, mode, drop=False):
    """reference for the three documented modes; rows of F are unit vectors.  Returns
    (rows, info) with info: gaps (relative eigenvalue gap of every step that matters), norms (per
    row, smallest norm before a renormalisation: small = the point is lost, its image is noise),
    early (smallest norm before the last step: small = later steps are noise), loss (mean squared
    angle of every one-by-one step, last step first).  drop: rows that a projection annihilates are
    left undefined and out of the later steps, instead of being normalised noise"""
    X = np.array(F)
    N, n = X.shape
    info = dict(gaps=[], norms=np.ones(N), early=1.0, loss=None)

    def step(X, d, count=True):
        live = np.isfinite(X).all(1)
        w, V = eigh(X[live].T @ np.conjugate(X[live]))
        V = V[:, ::-1]
        w = w[::-1]
        Y = X @ np.conjugate(V[:, :d])
        nr = np.linalg.norm(Y, axis=1)
        if drop:
            nr[nr < 1e-12] = np.nan
        if count:
            info["early"] = min(info["early"], float(np.nanmin(info["norms"])))
            info["norms"] = np.minimum(info["norms"], nr)
            if d < len(w):
                info["gaps"].append((w[d - 1] - w[d]) / w[0])
        return Y / np.maximum(nr, 1e-300)[:, None], V

    X = X.astype(complex) if np.iscomplexobj(X) else X.astype(float)
    if mode == "direct":
        return step(X, k)[0], info
    if mode == "exponential":
        extra = (n - k) // 2
        dims = []
        while extra > 0:
            dims.append(k + extra)
            extra //= 2
        dims.append(k)
        for d in dims:
            if X.shape[1] > d:
                X = step(X, d)[0]
        return X, info
    if mode == "one-by-one":
        out = X if k == n else None
        loss = []
        while X.shape[1] > 1:
            d = X.shape[1] - 1
            Xn, V = step(X, d, count=d >= k)
            comp = np.clip(np.abs(X @ np.conjugate(V[:, -1])), 0, 1)
            loss.append(np.mean(np.arcsin(comp) ** 2))
            X = Xn
            if d == k:
                out = X
        info["loss"] = np.array(loss[::-1])
        return out, info
    raise KeyError(mode)


def ppca_tolerance(F, k, mode, rows, drop=False):
    """How far apart may two correct reductions be, in inner products of the given rows?  Rounding is
    amplified by every step, so the amplification is measured: noise of size 1e-13 is added to F."""
    rng = np.random.default_rng(12345)
    G = None
    dev = 0.0
    for q in range(4):
        E = 0.0
        if q:
            E = 1e-13 * rng.normal(size=F.shape)
            if drop:  # what is annihilated exactly stays so
                E = E * F
            elif np.iscomplexobj(F):
                E = E + 1e-13j * rng.normal(size=F.shape)
        X = ppca(F + E, k, mode, drop)[0][rows]
        H = X @ np.conjugate(X).T
        if G is None:
            G = H
        dev = max(dev, float(np.max(np.abs(H - G), initial=0.0)))
    return 300 * dev + 1e-8


def loss_tolerance(F):
    """the same for the losses of the one-by-one reduction"""
    rng = np.random.default_rng(54321)
    L = [ppca(F + (1e-13 * rng.normal(size=F.shape) if q else 0.0), 1, "one-by-one")[1]["loss"] for q in range(4)]
    return 300 * max(float(np.max(np.abs(x - L[0]))) for x in L) + 1e-8


# ---------------------------------------------------------------- lattices
def lll_reduced(G, delta=0.75, tol=1e-6):
    """is the Gram matrix G of a basis size- and Lovasz-reduced (up to tol)?"""
    n = len(G)
    L = np.linalg.cholesky(G)
    d = np.diag(L) ** 2
    mu = L / np.diag(L)[None, :]
    for i in range(n):
        for j in range(i):
            if abs(mu[i, j]) > 0.5 + tol:
                return False, "size condition mu[%d,%d]=%g" % (i, j, mu[i, j])
    for i in range(1, n):
        if d[i] < (delta - mu[i, i - 1] ** 2) * d[i - 1] * (1 - tol) - tol * d[0]:
            return False, "Lovasz condition at %d" % i
    return True, ""


def perm_sign(p):
    s = 1
    for i, j in itertools.combinations(range(len(p)), 2):
        if p[i] > p[j]:
            s = -s
    return s
