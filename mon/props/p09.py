"""Real projective coordinates are the classifying map of the mod 2 class."""
import numpy as np

from .. import gen, pipe, proj, ref
from ..core import Skip

RULE = ("random datasets x class x percentage x range x bump function x reduction mode x target dimension; non-trivial: unreduced coordinates "
        "compared, through all inner products up to one sign per point, with the sign map evaluated in the nearest ball; distinct by (dataset, landmarks, class, radius, mode, dimension)")
MIN_DISTINCT = {"quick": 100, "thorough": 600}
NEED = ["classifying map: lines", "classifying map: holonomy", "unit norm reduced", "reduced coordinates compared"]
CASE_TIMEOUT = 60
INTERP_IS_FINAL = True
ASSUMPTIONS = ["distances closer than 1e-6 (relative) to the radius or the scale decide nothing", "reduced coordinates are compared with a reference reduction only when eigenvalue gaps exceed 1e-4"]


def cases(rng, tier):
    n = 3300 if tier == "quick" else 22000
    for i in range(n):
        s = pipe.case(rng, "real", nmin=20, nmax=110)
        if rng.random() < 0.3:
            s["data"]["space"] = str(rng.choice(["rp2", "klein", "moore", "torus4", "annulus"]))
            if s["data"]["space"] == "moore":
                s["data"]["q"] = 2
        if rng.random() < 0.1:
            s["m"] = int(rng.integers(30, 60))
            s["data"]["n"] = int(rng.integers(100, 300))
        if i % 40 == 7:
            yield "jit", pipe.crowd(rng, s)
            continue
        yield ("jit" if rng.random() < 0.03 else "interp"), s


def run(spec, ctx):
    proj.check(spec, ctx, "classifying map")
