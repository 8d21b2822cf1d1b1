"""Workload generators: datasets as small JSON specs, so every case can be replayed."""
import numpy as np

from . import ref


def _graph_geodesic(P, k):
    D = ref.dist(P)
    n = len(P)
    G = np.full((n, n), np.inf)
    nn = np.argsort(D, 1)[:, : k + 1]
    for i in range(n):
        G[i, nn[i]] = D[i, nn[i]]
    G = np.minimum(G, G.T)
    for j in range(n):
        G = np.minimum(G, G[:, j][:, None] + G[j][None, :])
    return G


def _moore(n, q, rng):
    """exact quotient metric of the disk with boundary points identified under rotation by 2pi/q
    (discretised boundary), for sampled points"""
    r = np.sqrt(rng.uniform(0, 1, n))
    t = rng.uniform(0, 2 * np.pi, n)
    P = np.c_[r * np.cos(t), r * np.sin(t)]
    nb = 60 * q
    s = np.arange(nb) * 2 * np.pi / nb
    B = np.c_[np.cos(s), np.sin(s)]
    d = ref.dist(P, B)
    # distance to the boundary class of each boundary point
    dq = d.reshape(n, q, nb // q).min(1)
    D = np.minimum(ref.dist(P), (dq[:, None, :] + dq[None, :, :]).min(-1))
    np.fill_diagonal(D, 0)
    for j in range(n):
        D = np.minimum(D, D[:, j][:, None] + D[j][None, :])
    return P, D


def circle(n, rng, noise=0.05, r=1.0, c=(0, 0), even=False):
    t = np.arange(n) * 2 * np.pi / n if even else rng.uniform(0, 2 * np.pi, n)
    return np.c_[np.cos(t), np.sin(t)] * r + np.array(c) + rng.normal(0, 1, (n, 2)) * noise * r


def build(spec):
    """-> (X or None, D) ; X points, D exact (n x n) distances.  spec: {space, n, seed, ...}"""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    s = spec["space"]
    X = D = None
    if s == "circle":
        X = circle(n, rng, spec.get("noise", 0.06))
    elif s == "circle_even":
        X = circle(n, rng, 0.0, even=True)
    elif s == "circle_dense_arc":
        t = 2 * np.pi * rng.uniform(0, 1, n) ** 1.7
        X = np.c_[np.cos(t), np.sin(t)] + rng.normal(0, 0.04, (n, 2))
    elif s == "ellipse":
        X = circle(n, rng, 0.04) * np.array([1.0, 0.6])
    elif s == "two_circles":
        a = n // 2
        X = np.r_[circle(a, rng, 0.06), circle(n - a, rng, 0.06, 1.4, (5, 1))]
    elif s == "three_circles":
        a = n // 3
        X = np.r_[circle(a, rng, 0.05), circle(a, rng, 0.05, 1.3, (5, 1)), circle(n - 2 * a, rng, 0.05, 1.7, (-1, 6))]
    elif s == "eight":
        a = n // 2
        X = np.r_[circle(a, rng, 0.06), circle(n - a, rng, 0.06, 1.1, (2.1, 0))]
    elif s == "concentric":
        a = n // 3
        X = np.r_[circle(a, rng, 0.03), circle(n - a, rng, 0.03, 2.2)]
    elif s == "annulus":
        X = circle(n, rng, 0.0) * rng.uniform(0.7, 1.3, (n, 1))
    elif s == "torus4":
        t = rng.uniform(0, 2 * np.pi, (n, 2))
        X = np.c_[np.cos(t[:, 0]), np.sin(t[:, 0]), 1.2 * np.cos(t[:, 1]), 1.2 * np.sin(t[:, 1])]
    elif s == "torus_grid":
        k = int(round(np.sqrt(n)))
        g = np.arange(k) * 2 * np.pi / k
        a, b = [v.ravel() for v in np.meshgrid(g, g)]
        a = a + rng.normal(0, 0.03, a.shape)
        b = b + rng.normal(0, 0.03, b.shape)
        X = np.c_[np.cos(a), np.sin(a), 1.15 * np.cos(b), 1.15 * np.sin(b)]
    elif s == "skew_torus":
        # flat torus with a sheared lattice: individual harmonic classes are far from orthogonal
        k = int(round(np.sqrt(n)))
        u, v = [w.ravel() for w in np.meshgrid(np.arange(k) / k, np.arange(k) / k)]
        u = u + rng.normal(0, 0.01, u.shape)
        v = v + rng.normal(0, 0.01, v.shape)
        A = np.array([[1.0, spec.get("shear", 0.45)], [0.0, 1.0]])
        P = np.c_[u, v]
        best = np.full((len(P), len(P)), np.inf)
        for i in (-2, -1, 0, 1, 2):
            for j in (-2, -1, 0, 1, 2):
                d = (P[:, None] - P[None] + np.array([i, j])) @ A.T
                best = np.minimum(best, np.sqrt((d ** 2).sum(-1)))
        D = (best + best.T) / 2
        np.fill_diagonal(D, 0)
    elif s == "torus3d":
        a, b = rng.uniform(0, 2 * np.pi, (2, n))
        X = np.c_[(3 + np.cos(a)) * np.cos(b), (3 + np.cos(a)) * np.sin(b), np.sin(a)]
    elif s == "klein":
        a, b = rng.uniform(0, 2 * np.pi, (2, n))
        X = np.c_[(2 + np.cos(a)) * np.cos(b), (2 + np.cos(a)) * np.sin(b), np.sin(a) * np.cos(b / 2), np.sin(a) * np.sin(b / 2)]
    elif s == "rp2":
        V = rng.normal(size=(n, 3))
        V /= np.linalg.norm(V, axis=1)[:, None]
        D = np.arccos(np.clip(np.abs(V @ V.T), 0, 1))
        np.fill_diagonal(D, 0)
        D = (D + D.T) / 2
    elif s == "susp_rp2":
        # suspension of a projective plane: its degree 2 mod 2 class has no integer lift
        k = n - 2
        i = np.arange(k) + 0.5
        V = np.c_[np.cos(np.pi * (1 + 5 ** 0.5) * i) * np.sqrt(1 - (i / k) ** 2), np.sin(np.pi * (1 + 5 ** 0.5) * i) * np.sqrt(1 - (i / k) ** 2), i / k]
        V = V + rng.normal(0, 0.03, V.shape)
        V /= np.linalg.norm(V, axis=1)[:, None]
        R = spec.get("R", 0.8)
        D = np.full((n, n), R)
        A = np.arccos(np.clip(np.abs(V @ V.T), 0, 1))
        D[:k, :k] = (A + A.T) / 2
        D[k, k + 1] = D[k + 1, k] = 2 * R
        np.fill_diagonal(D, 0)
    elif s == "cross":
        # corners of a cross polytope (integer distances) or a perturbed one: the smallest spheres
        k = spec.get("dimension", 3)
        A = np.ones((2 * k, 2 * k), int)
        A[np.arange(2 * k), (np.arange(2 * k) + k) % (2 * k)] = 2
        np.fill_diagonal(A, 0)
        i = np.r_[np.arange(2 * k), rng.integers(0, 2 * k, max(0, n - 2 * k))]
        D = A[i][:, i]
        if not spec.get("int", False):
            t = rng.uniform(0, 0.12, len(i))
            D = D + t[:, None] + t
            D = np.where(i[:, None] == i, np.abs(t[:, None] + t) * 0.5, D)
            np.fill_diagonal(D, 0)
    elif s == "sphere":
        V = rng.normal(size=(n, 3))
        X = V / np.linalg.norm(V, axis=1)[:, None] + rng.normal(0, 0.02, (n, 3))
    elif s == "ellipsoid":
        V = rng.normal(size=(n, 3))
        X = V / np.linalg.norm(V, axis=1)[:, None] * np.array([1, 1.15, 1.3])
    elif s == "two_spheres":
        V = rng.normal(size=(n, 3))
        X = V / np.linalg.norm(V, axis=1)[:, None]
        X[n // 2:] = X[n // 2:] * 1.3 + np.array([4.0, 0, 0])
    elif s == "fib_sphere":
        i = np.arange(n) + 0.5
        ph = np.arccos(1 - 2 * i / n)
        t = np.pi * (1 + 5 ** 0.5) * i
        X = np.c_[np.cos(t) * np.sin(ph), np.sin(t) * np.sin(ph), np.cos(ph)]
        X = X[rng.permutation(n)] + rng.normal(0, 0.03, (n, 3))
    elif s == "trefoil":
        u = 4 * np.pi * (np.arange(n) + rng.uniform(-0.3, 0.3, n)) / n
        w = spec.get("width", 10)
        X = np.c_[np.cos(u) + w * np.cos(u) * (1.5 + np.sin(1.5 * u) / 2), np.sin(u) + w * np.sin(u) * (1.5 + np.sin(1.5 * u) / 2), 4 * np.cos(1.5 * u)]
    elif s == "two_trefoils":
        a = n // 2
        A = build(dict(spec, space="trefoil", n=a))[0]
        B = build(dict(spec, space="trefoil", n=n - a, seed=spec["seed"] + 1))[0]
        X = np.r_[A, B * 1.1 + np.array([90.0, 0, 0])]
    elif s == "rp2_circles":
        # a class without integer lift next to classes that have one
        k = n - 2 * (n // 3)
        i = np.arange(k) + 0.5
        V = np.c_[np.cos(np.pi * (1 + 5 ** 0.5) * i) * np.sqrt(1 - (i / k) ** 2), np.sin(np.pi * (1 + 5 ** 0.5) * i) * np.sqrt(1 - (i / k) ** 2), i / k]
        V = V + rng.normal(0, 0.03, V.shape)
        V /= np.linalg.norm(V, axis=1)[:, None]
        A = np.arccos(np.clip(np.abs(V @ V.T), 0, 1))
        np.fill_diagonal(A, 0)
        parts = [(A + A.T) / 2 * rng.uniform(0.9, 1.2)]
        for j in range(2):
            parts.append(ref.dist(circle(n // 3, rng, 0.02, even=True)) * rng.uniform(0.8, 1.2))
        N = sum(len(q) for q in parts)
        D = np.full((N, N), 3.0)
        at = 0
        for q in parts:
            D[at: at + len(q), at: at + len(q)] = q
            at += len(q)
        i = rng.permutation(N)
        D = D[i][:, i]
    elif s == "moore":
        _, D = _moore(n, spec.get("q", 3), rng)
    elif s == "hop_cycle":
        i = np.arange(n)
        H = np.abs(i[:, None] - i)
        D = np.minimum(H, n - H)
        if spec.get("int", True) is False:
            D = D.astype(float)
    elif s == "long_cycle":
        # path metric of a long cycle graph with unequal edges
        w = rng.uniform(0.8, 1.2, n)
        at = np.r_[0, np.cumsum(w)[:-1]]
        H = np.abs(at[:, None] - at)
        D = np.minimum(H, w.sum() - H)
        i = rng.permutation(n)
        D = D[i][:, i]
    elif s == "hop_whisker":
        # a cycle graph with pendant vertices (at the end) at integer distances from it
        w = spec.get("whiskers", 10)
        k = n - w
        i = np.r_[np.arange(k), rng.integers(0, k, w)]
        t = np.r_[np.zeros(k, int), rng.integers(1, max(2, k // 3), w)]
        H = np.abs(i[:, None] - i)
        D = np.minimum(H, k - H) + t[:, None] + t
        np.fill_diagonal(D, 0)
        if spec.get("int", True) is False:
            D = D.astype(float)
    elif s == "hop_torus":
        k = max(5, int(round(np.sqrt(n))))
        i = np.arange(k)
        H = np.abs(i[:, None] - i)
        H = np.minimum(H, k - H)
        a, b = [v.ravel() for v in np.meshgrid(i, i)]
        D = H[a][:, a] + H[b][:, b]
    elif s in ("split_circles", "split_spheres"):
        # several pieces at infinite distance from each other (shortest paths in a disconnected graph)
        k = int(rng.integers(2, 4)) if s == "split_circles" else 2
        D = np.full((n, n), np.inf)
        at = np.array_split(rng.permutation(n), k)
        for q, w in enumerate(at):
            if s == "split_circles":
                P = circle(len(w), rng, 0.05, 1 + 0.2 * q)
            else:
                V = rng.normal(size=(len(w), 3))
                P = V / np.linalg.norm(V, axis=1)[:, None] * (1 + 0.2 * q)
            D[np.ix_(w, w)] = ref.dist(P)
    elif s == "graph_circle":
        D = _graph_geodesic(circle(n, rng, 0.08), 4)
    elif s == "graph_two":
        a = n // 2
        D = _graph_geodesic(np.r_[circle(a, rng, 0.05), circle(n - a, rng, 0.05, 1.3, (9, 0))], 4)
    elif s == "blob":
        X = rng.normal(size=(n, spec.get("d", 3)))
    elif s == "random_metric":
        A = rng.uniform(1, 2, (n, n))
        D = np.triu(A, 1)
        D = D + D.T
    elif s == "int_ring":
        # integer lattice points near a circle: many ties and repeated points
        X = np.unique(np.round(circle(4 * n, rng, 0.03) * spec.get("rad", 5)), axis=0)
        X = X[rng.permutation(len(X))[:n]]
    elif s == "dup_circle":
        P = circle(max(8, n // 3), rng, 0.06)
        X = np.r_[P, P, P][rng.permutation(3 * len(P))][:n]
    elif s == "int_dup_ring":
        P = np.round(circle(max(10, n // 3), rng, 0.03) * 6)
        X = np.r_[P, P, P][rng.permutation(3 * len(P))][:n]
    elif s == "line":
        X = np.c_[rng.uniform(0, 10, n), np.zeros(n)]
    elif s == "genus2":
        k = 4 * n
        st = rng.uniform(0, 2 * np.pi, (2, k))
        Y = np.c_[(5 + 2 * np.cos(st[0])) * np.cos(st[1]), (5 + 2 * np.cos(st[0])) * np.sin(st[1]), 2 * np.sin(st[0])]
        Z = Y + np.array([9.0, 0, 0])
        A = np.r_[Y[Y[:, 0] <= 4.5], Z[Z[:, 0] >= 4.5]]
        X = A[rng.permutation(len(A))[:n]]
    else:
        raise KeyError(s)
    sc = spec.get("scale", 1.0)
    if X is not None:
        X = X * sc
        if spec.get("embed"):
            d = spec["embed"]
            if d < 0:  # as many coordinates as points, or more
                d = -d * (len(X) + (spec.get("outliers") or 0))
            Q = np.linalg.qr(rng.normal(size=(d, d)))[0][:, : X.shape[1]]
            X = X @ Q.T
        if spec.get("outliers"):
            k = spec["outliers"]
            far = X[rng.integers(0, len(X), k)] + rng.normal(size=(k, X.shape[1])) * np.abs(X).max() * 1.5
            X = np.r_[X, far]
        if len(X) < 4000:
            D = ref.dist(X)
        else:
            X = X[rng.permutation(len(X))]
            D = Rows(X)
    elif sc != 1.0:
        D = D * sc
    return X, D


DIM1 = ["circle", "circle_dense_arc", "ellipse", "two_circles", "three_circles", "eight", "concentric", "annulus",
        "torus4", "torus_grid", "skew_torus", "torus3d", "trefoil", "graph_circle", "graph_two", "hop_cycle", "hop_torus",
        "klein", "blob", "random_metric", "int_ring", "dup_circle", "int_dup_ring", "circle_even", "genus2", "rp2", "moore", "split_circles"]
MULTI1 = ["two_circles", "three_circles", "eight", "concentric", "torus4", "torus_grid", "skew_torus", "torus3d", "graph_two", "blob", "genus2", "random_metric", "hop_torus", "split_circles"]
DIM2 = ["sphere", "ellipsoid", "two_spheres", "split_spheres", "fib_sphere", "blob", "random_metric", "torus_grid", "torus4", "rp2"]


class Rows:
    """distances of a large cloud, computed for the rows asked for"""

    def __init__(self, X):
        self.X = X

    def __len__(self):
        return len(self.X)

    def __getitem__(self, i):
        return ref.dist(self.X[i], self.X)


def dataset(rng, spaces, nmin=16, nmax=60, **kw):
    s = str(rng.choice(spaces))
    n = int(rng.integers(nmin, nmax + 1))
    spec = {"space": s, "n": n, "seed": int(rng.integers(1 << 30))}
    if s == "blob":
        spec["d"] = int(rng.integers(2, 5))
    if s == "moore":
        spec["q"] = int(rng.choice([2, 3, 5]))
    if s == "hop_cycle":
        spec["int"] = bool(rng.random() < 0.7)
    if rng.random() < 0.35:
        # (the few extreme ones: nothing may depend on the unit of length)
        spec["scale"] = float(2.0 ** (rng.integers(-8, 9) if rng.random() < 0.75 else rng.choice([-40, -30, -20, 20, 30, 40])))
        if s in ("hop_cycle", "hop_torus"):
            spec.pop("scale")
    if rng.random() < 0.15 and s not in ("int_ring", "int_dup_ring"):
        spec["embed"] = int(rng.integers(4, 12)) if rng.random() < 0.7 or n > 200 else int(rng.choice([-1, -1, -2]))
    spec.update(kw)
    return spec
