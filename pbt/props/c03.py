import math

import hypothesis.strategies as st
import numpy as np

from pbt import dists
from pbt.core import Part, split, require, require_close
from pbt.gen import num, nums, seeds

ID = "C03"
RULE = ("A case is a distribution and a box in its units, or a distribution and its support. Non-trivial: the box has between "
        "1e-3 and 1 - 1e-3 of the mass (boxes beside the support and around it are counted by labels), or any support.")
ASSUMPTIONS = ["Boxes do not touch the point of a delta with their faces."]


def scalar(v, what):
    v = np.asarray(v, float).reshape(-1)
    require(v.size == 1, "%s has %d values", what, v.size)
    return float(v[0])


@st.composite
def box(draw, d):
    mode = draw(st.sampled_from(["any", "any", "inside", "around", "beside"]))
    lo, hi = [], []
    for i in range(d):
        if mode == "around":
            a, b = draw(num(-4, -1)), draw(num(1, 4))
        elif mode == "inside":
            a, b = sorted([draw(num(-1, 1)), draw(num(-1, 1))])
        else:
            a, b = sorted([draw(num(-3, 3)), draw(num(-3, 3))])
        if b - a < 1e-3:
            b = a + 0.25
        lo.append(a)
        hi.append(b)
    if mode == "beside":
        i = draw(st.integers(0, d - 1))
        lo[i], hi[i] = 1.25, 2.5
    return [lo, hi]


@st.composite
def uniform_cases(draw):
    spec = draw(dists.leaf(kinds=("uniform", "uniform", "bd_uniform"), dmax=5))
    return {"dist": spec, "box": draw(box(spec["d"])), "cut": [draw(st.integers(0, spec["d"] - 1)), draw(num(0.05, 0.95))], "seed": 0}


def check_uniform(case, ctx):
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    a, b = ref.loc + np.array(case["box"][0]) * ref.scale, ref.loc + np.array(case["box"][1]) * ref.scale
    over = np.maximum(np.minimum(b, ref.hi) - np.maximum(a, ref.lo), 0)
    want = float(np.prod(over / (2 * ref.scale)))
    got = scalar(dist.integral(a.copy(), b.copy()), "integral")
    require(abs(got - want) <= 1e-9, "integral over %s is %r, expected %r", [a.tolist(), b.tolist()], got, want)
    ctx.label("zero" if want == 0 else "one" if want > 1 - 1e-9 else "part")
    i, f = case["cut"]
    m = b.copy()
    m[i] = a[i] + f * (b[i] - a[i])
    k = a.copy()
    k[i] = m[i]
    s = scalar(dist.integral(a, m), "integral") + scalar(dist.integral(k, b), "integral")
    require(abs(got - s) <= 1e-9, "integral over %s is %r and %r over its halves", [a.tolist(), b.tolist()], got, s)
    if not 1e-3 < want < 1 - 1e-3:
        ctx.trivial("all or nothing")


@st.composite
def delta_cases(draw):
    spec = draw(dists.delta())
    return {"dist": spec, "box": draw(box(spec["d"])), "seed": 0}


def check_delta(case, ctx):
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    lo, hi = np.array(case["box"][0]), np.array(case["box"][1])
    lo, hi = np.where(np.abs(lo) < 1e-3, -0.01, lo), np.where(np.abs(hi) < 1e-3, 0.01, hi)
    want = float(np.all(lo < 0) and np.all(hi > 0))
    s = 1 + np.abs(ref.loc)
    got = scalar(dist.integral(ref.loc + lo * s, ref.loc + hi * s), "integral")
    require(got == want, "integral over %s around the point is %r, expected %r", [lo.tolist(), hi.tolist()], got, want)
    ctx.label("inside" if want else "outside")


@st.composite
def mc_cases(draw, specs):
    spec = draw(specs.filter(lambda s: s["d"] <= 2))
    return {"dist": spec, "box": draw(box(spec["d"])), "seed": draw(seeds)}


def check_mc(case, ctx):
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    ctx.label(ref.t, "d%d" % ref.d)
    a, b = ref.loc + np.array(case["box"][0]) * ref.scale, ref.loc + np.array(case["box"][1]) * ref.scale
    x, w = dists.box_rule(ref, a, b)
    p = np.exp(ref.logpdf(x)[0])
    want = float(w @ p)
    g = np.linspace(0, 1, 41 if ref.d == 2 else 400)
    axes = [np.concatenate([a[i] + g * (b[i] - a[i])] + [c + np.array([-1e-9, 0, 1e-9]) * s for c, s in dists.centers(ref, i)]
                           + [e + np.array([-1e-9, 1e-9]) * (1 + abs(e)) for e in ref.edges()[i]]) for i in range(ref.d)]
    axes = [v[(v >= a[i]) & (v <= b[i])] for i, v in enumerate(axes)]
    pts = dists.grid([(v, v) for v in axes])[0]
    height = max(p.max(), np.exp(ref.logpdf(pts)[0]).max()) * 1.05
    n = 10000
    got = scalar(dist.integral(a.copy(), b.copy(), nsamples=n), "integral")
    vol = float(np.prod(b - a)) * height
    tol = vol * math.sqrt(math.log(2e9) / (2 * n)) + 1e-3 * want + 1e-15
    require(abs(got - want) <= tol, "integral over %s is %r, expected %r within %.2g", [a.tolist(), b.tolist()], got, want, tol)
    if want < 4 * tol:
        ctx.trivial("mass below the tolerance")


@st.composite
def wide_cases(draw, specs):
    spec = draw(specs.filter(lambda s: s["d"] <= 2))
    return {"dist": spec, "n": draw(st.sampled_from([4000000, 1000000])), "hits": draw(st.integers(1500, 4000)), "at": draw(nums(spec["d"], 0.3, 0.7)),
            "seed": draw(seeds)}


def check_wide(case, ctx):
    """All of the mass, in a box so wide that few of many points fall where it is."""
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    d, n = ref.d, case["n"]
    ctx.label(ref.t, "d%d" % d)
    g = np.linspace(-4, 4, 161 if d == 2 else 4001)
    pts = dists.grid([(ref.loc[i] + g * ref.scale[i], g) for i in range(d)])[0]
    height = np.exp(ref.logpdf(pts)[0]).max()
    want = 2 * math.pi / math.sqrt(0.03) if ref.t == "banana" else 1.0
    side = (n * want / (case["hits"] * height * np.prod(ref.scale))) ** (1 / d)
    at = np.array(case["at"])
    a, b = ref.loc - at * side * ref.scale, ref.loc + (1 - at) * side * ref.scale
    got = scalar(dist.integral(a.copy(), b.copy(), nsamples=n), "integral")
    L = math.log(2e10)
    tol = (L / 3 + math.sqrt(2 * case["hits"] * L)) / case["hits"] + 0.03
    require(abs(got / want - 1) <= tol, "integral over %s is %r, expected %r within %.0f%%", [a.tolist(), b.tolist()], got, want, 100 * tol)


@st.composite
def narrow_cases(draw, specs):
    return {"dist": draw(specs.filter(lambda s: s["d"] == 1)), "hits": draw(st.integers(20, 40)), "at": draw(num(0.3, 0.7)), "seed": draw(seeds)}


def check_narrow(case, ctx):
    """The mean of many estimates with few points where the mass is."""
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    ctx.label(ref.t)
    g = np.linspace(-4, 4, 4001)
    height = np.exp(ref.logpdf((ref.loc[0] + g * ref.scale[0]).reshape(-1, 1))[0]).max()
    n, reps, at = 20000, 60, case["at"]
    side = n / (case["hits"] * height * ref.scale[0])
    a, b = ref.loc - at * side * ref.scale, ref.loc + (1 - at) * side * ref.scale
    got = np.mean([scalar(dist.integral(a.copy(), b.copy(), nsamples=n), "integral") for _ in range(reps)])
    L, hits = math.log(2e10), case["hits"] * reps
    tol = (L / 3 + math.sqrt(2 * hits * L)) / hits + 2.0 / case["hits"]
    require(abs(got - 1) <= tol, "the mean integral over %s is %r, expected 1 within %.0f%%", [a.tolist(), b.tolist()], got, 100 * tol)


@st.composite
def support_cases(draw, specs):
    spec = draw(specs)
    return {"dist": spec, "seed": 0}


def check_support(case, ctx):
    spec = case["dist"]
    ref = dists.Ref(spec)
    dist = dists.build(spec)
    ctx.label(ref.t, "given" if "support" in spec else "default")
    require(dist.dims == ref.d, "dims is %r, expected %d", dist.dims, ref.d)
    sup = dist.support()
    require(isinstance(sup, np.ndarray) and sup.shape == (2, ref.d), "the support has shape %s", getattr(sup, "shape", None))
    sup = sup.astype(float)
    if ref.t == "banana" or ref.t.startswith("bd_"):
        require(np.all(sup[0] < sup[1]), "support %s", sup.tolist())
        require(np.all(sup[1] - sup[0] <= 200), "support %s", sup.tolist())
    else:
        require_close(sup, ref.sup, "support", 1e-9, 1e-12)
    if ref.d > 2 or ref.t in ("delta",):
        return
    x, w = dists.box_rule(ref, sup[0], sup[1])
    mass = float(w @ dist.prob(x))
    ctx.label("mass>0.98" if mass > 0.98 else "mass>0.75" if mass > 0.75 else "less mass")
    if ref.t == "banana":
        # Not normalized: all of the mass is 2 pi / sqrt(0.03)
        mass /= 2 * math.pi / math.sqrt(0.03)
        require(mass > 0.5, "the support holds %.4f of the mass", mass)
        return
    require(mass <= 1 + 1e-4, "the mass in the support is %r", mass)
    if ref.t.startswith("bd_") or (ref.t == "normal" and "support" not in spec):
        floor = 0.75 if ref.t.startswith("bd_") else 0.999
        require(mass >= floor, "the support holds %.4f of the mass", mass)
    if ref.t in ("uniform", "bd_uniform"):
        require(abs(mass - 1) < 1e-6, "the mass in the support of a uniform is %r", mass)


MC = ["normal", "exponential", "mixture", "banana", "bd_exponential", "bd_maxwell", "bd_laplace", "bd_pareto"]
PARTS = [Part("uniform", uniform_cases(), check_uniform, 500), Part("delta", delta_cases(), check_delta, 200)]
PARTS += split("monte_carlo", dists.by_kind(mc_cases, 240, MC), check_mc)
PARTS += split("wide", dists.by_kind(wide_cases, 24, ["normal", "exponential", "banana", "bd_laplace", "bd_maxwell", "bd_exponential"]), check_wide)
PARTS += split("narrow", dists.by_kind(narrow_cases, 24, ["normal", "exponential", "bd_laplace", "bd_maxwell", "bd_exponential"]), check_narrow)
PARTS += split("support", dists.by_kind(support_cases, 300), check_support)
