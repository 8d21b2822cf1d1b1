"""The lens-space picture is well defined on the lens space."""
import numpy as np

from ..core import Skip

RULE = ("unit vectors of C^2 (generic, near both coordinate circles, with first coordinate on or next to the rays at multiples of 2 pi / q, vanishing coordinates) x primes up to 200 x every power of the root of unity; "
        "images checked for the ball, invariance, and recovery of the vector up to a root; non-trivial: one set of vectors and prime; distinct by input")
MIN_DISTINCT = {"quick": 800, "thorough": 9000}
NEED = ["ball", "invariance", "recovery", "boundary", "vanishing coordinate"]
COST = {"jit": 0.02, "bc": 0.02, "interp": 0.02}
INTERP_IS_FINAL = True
ASSUMPTIONS = ["vectors whose first coordinate is within 1e-9 of a wall of the fundamental domain may be drawn on either of its two copies"]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199]


def cases(rng, tier):
    n = 5200 if tier == "quick" else 15000
    for i in range(n):
        yield "interp", {"q": int(rng.choice(PRIMES[:4])) if rng.random() < 0.5 else int(rng.choice(PRIMES)), "kind": str(rng.choice(["generic", "generic", "wall", "near", "zero1", "zero2", "polar", "small"])),
                         "n": int(rng.integers(1, 120)), "vs": int(rng.integers(1 << 30))}


def vectors(spec, rng):
    n, q, k = spec["n"], spec["q"], spec["kind"]
    X = rng.normal(size=(n, 2)) + 1j * rng.normal(size=(n, 2))
    if k == "wall":
        X[:, 0] = np.abs(X[:, 0]) * np.exp(2j * np.pi * rng.integers(0, q, n) / q)
    elif k == "near":
        X[:, 0] = np.abs(X[:, 0]) * np.exp(1j * (2 * np.pi * rng.integers(0, q, n) / q + rng.choice([-1, 1], n) * 10.0 ** -rng.uniform(2, 16, n)))
    elif k == "zero1":
        X[:, 0] = 0
        X[:, 1] = np.exp(1j * np.angle(X[:, 1]))
    elif k == "zero2":
        X[:, 1] = 0
    elif k == "polar":
        X[:, 1] = rng.choice([1, -1, 1j, -1j], n) * np.abs(X[:, 1])
    elif k == "small":
        X[:, int(rng.integers(2))] *= 10.0 ** -rng.uniform(1, 12, n)
    return X / np.linalg.norm(X, axis=1)[:, None]


def run(spec, ctx):
    from dreimac import LensMapUtils as lm

    rng = np.random.default_rng(spec["vs"])
    q = spec["q"]
    X = vectors(spec, rng)
    n = len(X)
    X0 = X.copy()
    P = np.asarray(ctx.real("lens_3D_to_disk_3D", lm.lens_3D_to_disk_3D, X, q), float)
    if not ctx.check(P.shape == (n, 3) and np.isfinite(P).all(), "ball", lambda: "q=%d: shape %s, %d undefined images" % (q, P.shape, (~np.isfinite(P)).any(-1).sum())):
        return
    ctx.check(np.linalg.norm(P, axis=1).max() <= 1 + 1e-9, "ball", lambda: "q=%d: image of norm %g" % (q, np.linalg.norm(P, axis=1).max()))
    ctx.check(np.array_equal(X, X0), "ball", "vectors modified")
    k = rng.integers(0, q, n)
    Z = X * np.exp(2j * np.pi * k / q)[:, None]
    T = np.asarray(ctx.real("lens_3D_to_disk_3D", lm.lens_3D_to_disk_3D, Z, q), float)
    step = 2 * np.pi / q
    a = np.mod(np.angle(X[:, 0]), step)
    # angle of the first coordinate is lost when it vanishes
    p1, p2 = np.abs(X[:, 0]), np.abs(X[:, 1])
    wall = (np.minimum(a, step - a) < 1e-9) & (p1 > 1e-6)
    tiny = p1 <= 1e-6
    e = np.abs(T - P).max(1)
    ok = e < 1e-5
    # across the wall: the upper and lower boundary points are identified by a rotation
    for s in (1, -1):
        c, d = np.cos(step), s * np.sin(step)
        Q = np.c_[c * P[:, 0] - d * P[:, 1], d * P[:, 0] + c * P[:, 1], -P[:, 2]]
        ok |= wall & (np.abs(Q - T).max(1) < 1e-5)
    if spec["kind"] == "zero1":
        # on this circle the images of an orbit are the q rotated copies on the boundary of the ball
        ctx.ev("vanishing coordinate")
        ok = np.ones(n, bool)
    else:
        ok |= tiny
    ctx.check(ok.all(), "invariance", lambda: "q=%d: vectors %s and their rotations by %s steps have images %s and %s" % (q, X[~ok][:2].tolist(), k[~ok][:2].tolist(), P[~ok][:2].tolist(), T[~ok][:2].tolist()))
    if wall.any():
        ctx.ev("boundary", int(wall.sum()))
    # the vector can be recovered from the image
    r = np.hypot(P[:, 0], P[:, 1])
    ctx.check(np.abs(r - p2).max() < 1e-7, "recovery", lambda: "q=%d: distance from the axis is not the modulus of the second coordinate (%g)" % (q, np.abs(r - p2).max()))
    h = np.sqrt(np.maximum(0, 1 - r ** 2))
    good = (h > 1e-3) & (r > 1e-3)
    if good.any():
        th = step / 2 * (1 + np.clip(P[good, 2] / h[good], -1, 1))
        Y = np.c_[h[good] * np.exp(1j * th), P[good, 0] + 1j * P[good, 1]]
        # <x, y> must be a q-th root of unity
        z = np.sum(X[good] * np.conjugate(Y), 1)
        d = np.abs(z ** 1 - np.exp(1j * step * np.rint(np.angle(z) / step)))
        ctx.check(d.max() < 1e-5, "recovery", lambda: "q=%d: a vector is at %g from the orbit recovered from its image" % (q, d.max()))
    flat = (h > 1e-3) & (r <= 1e-3)
    if flat.any():
        th = step / 2 * (1 + np.clip(P[flat, 2] / h[flat], -1, 1))
        d = np.mod(np.angle(X[flat, 0]) - th + step / 2, step) - step / 2
        ctx.check(np.abs(d).max() < 1e-5, "recovery", lambda: "q=%d: heights on the axis are wrong by %g" % (q, np.abs(d).max()))
    ctx.sig(spec)
