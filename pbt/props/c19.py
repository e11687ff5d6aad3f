import math

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Skip, require, split
from pbt.gen import num, nums, seeds

ID = "C19"
RULE = ("A case is a configured sampler and a target inside of the space; the weighted samples estimate the mean and the mass of half spaces, "
        "compared with quadrature. Non-trivial: the estimate with equal weights or the uniform law over the space would miss the bound, "
        "or the mean of the target is away from the centre of the space.")
ASSUMPTIONS = ["tolerances from calibration over thousands of seeded runs of the unchanged samplers, at least twice the largest error seen"]

RUNS = 3
# samples, tolerance of the masses, tolerance of the means (in half widths of the space)
TOL = {"dm": (1200, .2, .08), "lais": (1200, .2, .12), "mpmc": (1800, .6, .16), "hidaisee": (900, .35, .18), "tp.leaf": (400, .3, .1),
       "tp.none": (600, .25, .12), "mh": (1200, .2, .1), "nested": (150, .7, .3), "multinested": (100, 1.0, .45), "rejection": (600, .1, .06)}


def reference(t, d, cuts):
    n = 4000 if d == 1 else 250
    g = (np.arange(n) + 0.5) / n * 2 - 1
    u = np.stack(np.meshgrid(*([g] * d), indexing="ij"), axis=-1).reshape(-1, d)
    v = np.exp(S.shape_log(t, u))
    v /= v.sum()
    return v @ u, [float(v @ (u[:, i] < c)) for i, c in cuts]


def estimate(x, w, sp, cuts):
    lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
    u = (x - (lo + hi) / 2) / ((hi - lo) / 2)
    w = w / w.sum()
    return w @ u, [float(w @ (u[:, i] < c)) for i, c in cuts]


def key_of(p):
    if p["m"] != "tp":
        return p["m"]
    return "tp." + p["resampling"]


def errors(case):
    sp, t = case["sp"], case["t"]
    cuts = [(i, c) for i in range(sp["d"]) for c in case["cuts"]]
    key = key_of(case["p"])
    n = TOL[key][0]
    mean, mass = reference(t, sp["d"], cuts)
    found = []
    for i in range(RUNS):
        np.random.seed((case["seed"] + i) % 2 ** 32)
        with S.session(case, evals=100000) as (s, target, clock):
            x, w = S.request(s, target, n)
        if len(x) < n:
            raise Skip("out of time")                    # the number of samples is C17's matter
        require(w.sum() > 0, "all weights are 0")
        found.append(estimate(x, w, sp, cuts))
    # The median of the runs: a single run may miss a part of the target
    em, eh = np.median([f[0] for f in found], axis=0), np.median([f[1] for f in found], axis=0)
    return key, float(np.max(np.abs(em - mean))), float(np.max(np.abs(np.array(eh) - mass))), mean, mass, em, eh


def check(case, ctx):
    key, a, b, mean, mass, em, eh = errors(case)
    n, tb, ta = TOL[key]
    require(a <= ta, "mean %s estimated as %s (error %.3f half widths of the space, bound %.3f)", np.round(mean, 3).tolist(), np.round(em, 3).tolist(), a, ta)
    require(b <= tb, "masses %s estimated as %s (error %.3f, bound %.3f)", np.round(mass, 3).tolist(), np.round(eh, 3).tolist(), b, tb)
    ctx.label("dims %d" % case["sp"]["d"], "target " + case["t"]["t"])
    if np.max(np.abs(mean)) <= ta and np.max(np.abs(np.array(mass) - [(c + 1) / 2 for _ in range(case["sp"]["d"]) for c in case["cuts"]])) <= tb:
        ctx.trivial("near the uniform law")


WIDE = ["gauss", "gmm", "box", "flat", "ramp", "checker", "cut"]        # for methods that stay in the space
SHAPES = {"hidaisee": ["gauss", "gmm", "flat", "ramp", "checker", "cut"], "tp.leaf": WIDE, "tp.none": ["gauss", "gmm", "flat", "ramp"], "rejection": WIDE}


@st.composite
def make(draw, key):
    kind = key.split(".")[0]
    nest = "nested" in kind
    d = draw(st.integers(1, 2))
    sp = draw(S.space(d=d, cubic=kind == "tp", long=kind == "rejection", scales=(1, 1, 0.1, 30) if kind != "mpmc" else (3, 6)))
    w = 2 * min(S.halves(sp))
    t = draw(S.target(sp, shapes=SHAPES.get(key, ["gauss", "gauss", "gmm"]), inside=True))
    near = 0.2 if kind == "mh" or nest else 0.5
    lo, hi = (0.15, 0.25) if nest else (0.14, 0.2) if kind == "hidaisee" else (0.1, 0.16)
    if t["t"] in ("gauss", "cut"):
        t["s"] = draw(nums(d, lo, hi))
        t["m"] = draw(nums(d, -near, near))
        if t["t"] == "cut":
            t["at"] = t["m"][0] + draw(num(-0.1, 0.1))
            if key == "tp.leaf":                 # first cells with two samples may miss what is left of a narrow target
                t["s"] = draw(nums(d, 0.14, 0.2))
    elif t["t"] == "gmm":
        k = 2
        t["s"] = [draw(nums(d, lo, hi)) for _ in range(k)]
        a = draw(nums(d, -near, near))
        t["m"] = [a, [min(max(v + draw(num(-0.25, 0.25)), -near), near) for v in a]]
        t["w"] = draw(nums(k, 0.2, 1))
    elif t["t"] == "ramp":
        t["k"] = draw(nums(d, -2.5, 2.5))
    elif t["t"] == "checker":
        t["n"] = draw(st.integers(1, 2))
    fixed = {}
    if kind in S.MIXTURE_IS:
        fixed = {"N": draw(st.integers(3, 6)), "K": draw(st.integers(8, 14)) if kind != "mpmc" else 300, "sigma": (draw(num(0.2, 0.35)) * w) ** 2}
        if kind == "lais":
            fixed["mh_sigma"] = (draw(num(0.05, 0.15)) * w) ** 2
    elif kind == "hidaisee":
        fixed = {"n_min": draw(st.integers(3, 10)), "target_ess": draw(num(0.3, 0.9)), "tau": draw(st.sampled_from([0.1, 0.2, 0.3])) * t["c"]}
    elif kind == "tp":
        fixed = {"kernel": "haar", "resampling": "leaf" if key != "tp.none" else "none",
                 "n_min": draw(st.integers(2 if t["t"] != "cut" else 4, 5)), "ess_target": draw(st.sampled_from([None, 0.8, 0.95])), "parallel_samples": draw(st.sampled_from([16, 32, 64]))}
    elif kind == "mh":
        fixed = {"n_burnin": 200, "n_steps": draw(st.integers(1, 2)), "proposal_sigma": (draw(num(0.1, 0.3)) * w) ** 2}
    elif kind == "nested":
        fixed = {"N": draw(st.integers(20, 30)), "prop_var": (draw(num(0.1, 0.25)) * w) ** 2}
    elif kind == "multinested":
        fixed = {"N": draw(st.integers(20, 30)), "inflate_factor": draw(num(1.5, 3))}
    elif kind == "rejection":
        fixed = {"proposal": "uniform"}
    p = draw(S.params(kind, sp, t, **fixed))
    return {"sp": sp, "t": t, "p": p, "seed": draw(seeds), "cuts": sorted(draw(st.lists(num(-0.5, 0.5), min_size=1, max_size=2, unique=True)))}


COUNT = {"dm": 10, "lais": 10, "mpmc": 7, "hidaisee": 12, "tp.leaf": 16, "tp.none": 10, "mh": 10, "nested": 5, "multinested": 4, "rejection": 20}
PARTS = split("converge", {k: (make(k), n) for k, n in COUNT.items()}, check)
