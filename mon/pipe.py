"""Common machinery of the checks that drive the five coordinate classes."""
import warnings

import numpy as np

from . import gen, ref
from .core import Skip

CLS = {"circ": "CircularCoords", "tor": "ToroidalCoords", "real": "ProjectiveCoords", "cplx": "ComplexProjectiveCoords", "lens": "LensCoords"}
DIM = {"circ": 1, "tor": 1, "real": 1, "cplx": 2, "lens": 1}
PROJ = ("real", "cplx", "lens")

# ---------------------------------------------------------------- recording of the integer solver
MILP = []


def patch_milp():
    """Called before dreimac is imported: record what the integer solver is asked and answers.
    Only used to *guess* the repaired integer class; every guess is verified independently."""
    import scipy.optimize as so

    if getattr(so.milp, "_recorded", False):
        return
    real = so.milp

    def milp(*a, **k):
        opt = dict(k.get("options") or {})
        opt.setdefault("time_limit", 8)
        k["options"] = opt
        res = real(*a, **k)
        MILP.append(res)
        if res.get("x") is not None:
            # the solver promises integers up to a tolerance (1e-6): answers are never exactly integral
            x = np.array(res["x"], dtype=float)
            res["x"] = x + 1e-9 * np.where(np.arange(len(x)) % 2 == 0, -1.0, 1.0) * np.where(x < 0, -1, 1)
        if res.get("status") == 1:
            raise Skip("integer solver time limit")
        return res

    milp._recorded = True
    so.milp = milp


# ---------------------------------------------------------------- inputs
def arrays(spec):
    """-> arr (what is handed to dreimac), distance_matrix flag, D (exact, rows x points, the rows
    being the admissible landmarks), scale"""
    X, D = gen.build(spec["data"])
    rep = spec.get("rep", "pc" if X is not None else "dm")
    if rep == "pc" and X is None:
        rep = "dm"
    N = len(D)
    if isinstance(D, gen.Rows) and rep == "dm":
        rep = "rect"
    if rep == "pc":
        arr = X
    elif rep == "dm":
        arr = D
    else:
        d = min(max(4, int(round(N * spec.get("rect", 0.6)))), N - 1)
        if isinstance(D, gen.Rows):
            d = 120
        arr = D[:d]
        D = D[:d]
    arr = np.array(arr)
    st = spec.get("store")
    if st == "F":
        arr = np.asfortranarray(arr)
    elif st == "strided":
        big = np.full((arr.shape[0] * 2, arr.shape[1] * 2), -7, dtype=arr.dtype)
        big[::2, ::2] = arr
        arr = big[::2, ::2]
    elif st == "ro":
        arr.setflags(write=False)
    elif st == "rev":
        arr = arr[::-1, ::-1].copy()[::-1, ::-1]
    return arr, rep != "pc", D if isinstance(D, gen.Rows) else np.asarray(D), rep


def rows_of(D, idx):
    return np.asarray(D[np.asarray(idx)], float)


def construct(ctx, spec, arr=None, dm=None, verbose=False):
    import dreimac

    if arr is None:
        arr, dm, _, _ = arrays(spec)
    cls = getattr(dreimac, CLS[spec["cls"]])
    kw = dict(distance_matrix=np.bool_(dm) if spec.get("flag") == "numpy" else int(dm) if spec.get("flag") == "int" else bool(dm))
    if spec["cls"] != "real" and "prime" in spec:
        kw["prime"] = spec["prime"]
    if "maxdim" in spec:
        kw["maxdim"] = spec["maxdim"]
    if spec.get("verbose") or verbose:
        kw["verbose"] = True
    m = min(spec["m"], arr.shape[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ctx.real("constructor", cls, arr, m, **kw)


def prime_of(spec):
    return 2 if spec["cls"] == "real" else spec.get("prime", 3 if spec["cls"] == "lens" else 41)


def landmarks(obj, spec, arr=None, dm=None):
    """positions of the landmarks among the rows of the input"""
    idx = getattr(obj, "_idx_land", None)
    if idx is not None:
        return np.asarray(idx, dtype=int)
    from ripser import ripser

    if arr is None:
        arr, dm, _, _ = arrays(spec)
    A = arr if not dm or arr.shape[0] == arr.shape[1] else arr[:, : arr.shape[0]]
    m = min(spec["m"], arr.shape[0])
    r = ripser(A, n_perm=m, distance_matrix=dm, maxdim=0)
    u = len(np.unique(r["idx_perm"]))
    if u < m:
        r = ripser(A, n_perm=u, distance_matrix=dm, maxdim=0)
    return np.asarray(r["idx_perm"], dtype=int)


class Geo:
    """exact geometry of the landmarks of a constructed object"""

    def __init__(self, obj, spec, D):
        self.idx = landmarks(obj, spec)
        self.m = len(self.idx)
        self.DL = rows_of(D, self.idx)
        self.DLL = self.DL[:, self.idx]
        self.N = self.DL.shape[1]
        self.scale = ref.top(self.DL)

    def guard(self, r, tol=1e-6):
        """distances too close to the decision thresholds decide nothing"""
        off = self.DLL[np.triu_indices(self.m, 1)]
        if np.min(np.abs(self.DL - r)) < (tol if self.N < 4000 else 1e-10) * self.scale or (len(off) and np.min(np.abs(off - 2 * r)) < tol * self.scale):
            raise Skip("distance ties with the scale")

    def complex(self, r):
        K = self.DLL < 2 * r
        np.fill_diagonal(K, False)
        return K


def class_table(obj, dim):
    """births, deaths of every class, through the public accessor"""
    out = []
    k = 0
    n = None
    for name in ("_dgms", "dgms_"):
        d = getattr(obj, name, None)
        if d is not None:
            n = len(d[dim])
            break
    while n is None or k < n:
        try:
            b, d, c = obj.get_representative_cocycle(k, dim)
        except IndexError:
            break
        out.append((float(b), float(d), np.array(c, copy=True)))
        k += 1
    return out


def admissible(table, std, minlen=0.0):
    """indices of the classes whose range is non empty"""
    out = []
    for k, (b, d, c) in enumerate(table):
        s = 2 * b if std else b
        if np.isfinite(d) and d > s * (1 + 1e-9) and (d - s) > minlen * d:
            out.append(k)
    return out


def choose(table, spec):
    """resolve spec['pick'] to (class index, standard_range)"""
    std = bool(spec.get("std", False))
    adm = admissible(table, std)
    if not adm and std:
        std = False
        adm = admissible(table, std)
    if not adm:
        raise Skip("no admissible class")
    pick = spec.get("pick", 0)
    # persistent classes first, with some probability any of them
    return adm[min(pick, len(adm) - 1) if pick >= 0 else (-pick) % len(adm)], std


def formula_r(b, d, perc, std):
    s = 2 * b if std else b
    return ((1 - perc) * s + perc * d) / 2


PU = ["linear", "quadratic", "exp", "cosine", "const"]


class Bump:
    """user-supplied partition function: records what dreimac hands to it"""

    def __init__(self, kind):
        import dreimac.utils as u

        self.kind = kind
        self.calls = []
        self.fn = {"linear": u.PartUnity.linear, "quadratic": u.PartUnity.quadratic, "exp": u.PartUnity.exp}.get(kind)

    def __call__(self, ds, r):
        self.calls.append((np.array(ds, copy=True), float(r)))
        if self.fn is not None:
            return self.fn(ds, r)
        return ref.bump(self.kind, np.asarray(ds, float), r)

    @property
    def r(self):
        return self.calls[-1][1] if self.calls else None


class Refused(Exception):
    pass


def request(obj, spec, k, std, pu=None, **over):
    """one get_coordinates call -> (result, warnings)"""
    c = spec["cls"]
    kw = dict(perc=spec.get("perc", 0.5), standard_range=std)
    if pu is not None:
        kw["partunity_fn"] = pu
    if c == "tor":
        kw["cocycle_idxs"] = k if isinstance(k, list) else [k]
    else:
        kw["cocycle_idx"] = k
    if c in ("circ", "tor", "cplx") and "check" in spec:
        kw["check_cocycle_condition"] = spec["check"]
    if c == "lens":
        kw["complex_dim"] = spec.get("proj_dim", 1) + 1
    elif c in PROJ:
        kw["proj_dim"] = spec.get("proj_dim", 1)
    if c in PROJ:
        kw["projective_dim_red_mode"] = spec.get("red", "exponential")
    kw.update(over)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = obj.get_coordinates(**kw)
    return out, [str(x.message) for x in w]


def may_refuse(obj, spec, k, std):
    """is the balanced lift of a requested class not an integer cocycle at the scale asked for?
    Then a refusal can be right, and whether it is belongs to P08."""
    if spec["cls"] in ("real", "lens"):
        return False
    arr, dm, D, rep = arrays(spec)
    tab = class_table(obj, DIM[spec["cls"]])
    ks = k if isinstance(k, list) else [k]
    idx = landmarks(obj, spec, arr, dm)
    if max(idx, default=0) >= len(D):
        return False
    DLL = rows_of(D, idx)[:, idx]
    b, d = max(tab[q][0] for q in ks), min(tab[q][1] for q in ks)
    K = DLL < min(2 * formula_r(b, d, spec.get("perc", 0.5), std), d) * (1 + 1e-6)
    np.fill_diagonal(K, False)
    tris = ref.triangles_of(K)
    for q in ks:
        p = prime_of(spec)
        if DIM[spec["cls"]] == 1:
            if np.any(ref.d1_max_defect(np.where(K, ref.lift1(tab[q][2], len(idx), p), 0), tris)):
                return True
        else:
            C = np.where(K[:, :, None] & K[None] & K[:, None, :], ref.lift2(tab[q][2], len(idx), p), 0)
            if np.any(ref.d2_values(C, ref.tetrahedra_of(K, tris))):
                return True
    return False


def ask(ctx, label, obj, spec, k, std, pu=None, **over):
    """a request that should be answered, unless the class may have no integer lift"""
    try:
        return request(obj, spec, k, std, pu, **over)
    except Skip:
        raise
    except Exception as e:  # noqa
        if not isinstance(e, (IndexError, TypeError)) and may_refuse(obj, spec, k, std):
            raise Skip("refused: lift")
        ctx.viol(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:300]))
        raise Skip("raised")


def case(rng, cls, **kw):
    """random pipeline case for one of the five classes"""
    spec = {"cls": cls}
    if cls == "cplx":
        spaces, nm, nM, mm, mM = gen.DIM2, 14, 60, 10, 18
    elif cls == "tor":
        spaces, nm, nM, mm, mM = gen.MULTI1, 24, 80, 14, 28
    else:
        spaces, nm, nM, mm, mM = gen.DIM1, 12, 80, 8, 26
    spec["data"] = gen.dataset(rng, kw.pop("spaces", spaces), kw.pop("nmin", nm), kw.pop("nmax", nM))
    spec["m"] = int(rng.integers(kw.pop("mmin", mm), kw.pop("mmax", mM) + 1))
    spec["rep"] = str(rng.choice(["pc", "pc", "dm", "rect"]))
    if rng.random() < 0.25:
        spec["store"] = str(rng.choice(["F", "strided", "ro", "rev"]))
    if cls != "real":
        spec["prime"] = int(rng.choice([2, 3, 5, 7, 11, 13, 23, 41, 41, 47, 97] if cls != "lens" else [2, 3, 3, 5, 7, 11, 13, 41]))
    if rng.random() < 0.2:
        spec["maxdim"] = 2
    if rng.random() < 0.05:
        spec["verbose"] = True  # may print, not change anything
    if rng.random() < 0.1:
        spec["flag"] = str(rng.choice(["numpy", "int"]))
    spec["std"] = bool(rng.random() < 0.4)
    spec["perc"] = float(np.round(rng.choice([rng.uniform(0.02, 0.98), 0.5, 0.9, 0.1, 0.99]), 4))
    spec["pick"] = int(rng.choice([0, 0, 0, 1, 2, 3, -1, -2]))
    spec["pu"] = str(rng.choice(PU[:4], p=[0.4, 0.25, 0.2, 0.15]))
    if cls in PROJ:
        spec["red"] = str(rng.choice(["direct", "exponential", "one-by-one"]))
        spec["proj_dim"] = int(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
    spec.update(kw)
    return spec


def crowd(rng, s, what=None):
    """more landmarks, or more points, than small integers can count"""
    what = what or str(rng.choice(["landmarks", "points"]))
    s.pop("maxdim", None)
    s.pop("outliers", None)
    s["pick"] = int(rng.choice([0, 0, 1]))
    seed = int(rng.integers(1 << 30))
    if what == "landmarks":
        s["m"] = int(rng.choice([rng.integers(129, 150), rng.integers(257, 275)]))
        s["data"] = {"space": str(rng.choice(["circle", "trefoil", "annulus", "two_circles", "rp2"])), "n": s["m"] + int(rng.integers(5, 60)), "seed": seed}
        s["perc"] = float(np.round(rng.uniform(0.05, 0.3), 3))
        s["rect"] = 0.98
        if rng.random() < 0.5:
            # small balls: points that only the last landmarks cover
            s["data"]["space"] = "circle_even"
            s["m"] = int(rng.integers(257, 275))
            s["data"]["n"] = s["m"] + int(rng.choice([0, 0, 7]))
            s["perc"] = float(np.round(rng.uniform(0.001, 0.02), 4))
            s["std"] = False
    else:
        s["m"] = int(rng.integers(14, 24))
        n = int(rng.choice([rng.integers(32800, 33400), rng.integers(65600, 66200)]))
        s["data"] = {"space": str(rng.choice(["circle", "trefoil", "annulus", "ellipse"])), "n": n, "seed": seed}
        s["rep"] = str(rng.choice(["pc", "rect"]))
        if rng.random() < 0.5:
            s["data"]["outliers"] = int(rng.integers(1, 3))
    return s


def subtle_ties(DLL, tol=1e-6):
    """are there pairs of landmark distances that rounding could reorder?"""
    v = np.sort(DLL[np.triu_indices(len(DLL), 1)])
    if len(v) < 2:
        return True
    return bool(np.min(np.diff(v)) < tol * v[-1])
