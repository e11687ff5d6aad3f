import hypothesis.strategies as st
import numpy as np

from pbt import dists
from pbt.core import Part, require, require_close, vec
from pbt.gen import num, nums, rows, seeds, zbatch

ID = "C07"
RULE = ("A case is a kernel function with arguments, a placed kernel with points, or a kernel density with points. Non-trivial: "
        "some value is positive.")
ASSUMPTIONS = ["Points at the limits of the uniform kernel are left out."]


@st.composite
def fun_cases(draw):
    return {"kernel": draw(st.sampled_from(dists.KERNELS)), "u": draw(st.lists(st.one_of(num(-3, 3), num(-3, 3), num(-30, 30)), min_size=1, max_size=12)),
            "shape": draw(st.sampled_from(["column", "flat", "table"])), "seed": 0}


def kernel(name):
    from ais_benchmarks.distributions import CKernel
    return getattr(CKernel, "kernel_" + name)


def check_fun(case, ctx):
    name = case["kernel"]
    u = np.array(case["u"], float)
    if name == "uniform":
        u = np.where(np.abs(np.abs(u) - 1) < 1e-9, u * 1.01, u)
    u = {"column": u.reshape(-1, 1), "flat": u, "table": np.stack([u, u[::-1]], axis=1)}[case["shape"]]
    keep = u.copy()
    v = kernel(name)(u)
    require(isinstance(v, np.ndarray) and v.shape == u.shape, "%s kernel: shape %s for %s", name, getattr(v, "shape", None), u.shape)
    require(np.array_equal(u, keep), "the %s kernel changed its argument", name)
    require_close(v, dists.kernel_ref(name, u), "%s kernel at %s" % (name, u.ravel().tolist()[:4]), 1e-9, 1e-12)
    if name == "normal":
        require_close(np.log(v[np.abs(u) < 35]), np.log(dists.kernel_ref(name, u))[np.abs(u) < 35], "log of the normal kernel", 1e-9, 1e-9)
    require_close(v, kernel(name)(-u), "%s kernel at the negative argument" % name, 1e-12)
    require(np.all(v >= 0), "the %s kernel is negative", name)
    x, w = dists.nodes(-1.0, 1.0) if name != "normal" else dists.nodes(-9.0, 9.0, pieces=20)
    x2, w2 = dists.nodes(-1.0, 0.0)
    x3, w3 = dists.nodes(0.0, 1.0)
    if name == "triangular":
        x, w = np.concatenate([x2, x3]), np.concatenate([w2, w3])
    mass = float(w @ kernel(name)(x))
    require(abs(mass - 1) < 1e-6, "the mass of the %s kernel is %r", name, mass)
    ctx.label(name)
    if not np.any(v > 0):
        ctx.trivial("zero")


UNITS = [1, 1, 1, 1, 1, 1, 1, 1e-3, 1e3, 1e-8, 1e7]


@st.composite
def placed_cases(draw):
    d = draw(st.integers(1, 4))
    k = draw(st.sampled_from([0, 1, d]))
    bw = draw(num(0.1, 6)) if k == 0 else draw(nums(k, 0.1, 6))
    f = draw(st.sampled_from(UNITS))
    bw = [v / f for v in bw] if isinstance(bw, list) else bw / f
    return {"kernel": draw(st.sampled_from(dists.KERNELS)), "d": d, "loc": [v * f for v in draw(nums(d, -4, 4))], "bw": bw,
            "z": draw(rows(draw(st.integers(1, 8)), d, *draw(st.sampled_from([(-1.6, 1.6)] * 3 + [(-15, 15)])))), "single": draw(st.booleans()), "seed": 0}


def check_placed(case, ctx):
    from ais_benchmarks.distributions import CKernel
    d, name = case["d"], case["kernel"]
    h = np.broadcast_to(np.array(case["bw"], float), (d,))
    z = np.array(case["z"], float)
    z = np.where(np.abs(np.abs(z) - 1) < 1e-6, z * 1.01, z)
    loc = np.array(case["loc"], float)
    x = loc + z / h
    # scalar bandwidths stay scalar: a product over the dimensions has one factor h per dimension
    bw = np.array(case["bw"], float) if isinstance(case["bw"], list) else case["bw"]
    k = CKernel(loc, bw, kernel(name))
    want = np.prod(h * dists.kernel_ref(name, (x - loc) * h), axis=1)
    tol = 1e-8 * d
    for q in ("prob", "call"):
        got = vec(k.prob(x.copy()) if q == "prob" else k(x.copy()), len(x), "kernel density")
        require_close(got, want, "density of the %s kernel" % name, tol, 1e-12 * float(np.prod(h)))
    lp = vec(k.log_prob(x.copy()), len(x), "log density")
    with np.errstate(all="ignore"):
        lw = np.log(want)
    unit = float(np.prod(h))
    if name == "normal":
        ok = np.abs(lp - lw) < 1e-6 * (1 + d)
        require_close(k.prob(x.copy()).ravel()[want > 1e-290], want[want > 1e-290], "density of the normal kernel", tol, 0)
        ok |= want < 1e-290 * max(unit, 1)
    else:
        ok = (lp == lw) | (np.abs(lp - lw) < 1e-6) | ((want < 1e-6 * unit) & (lp < np.log(2e-6 * unit)))
    require(ok.all(), "log density of the %s kernel: %s, expected %s", name, lp[~ok][:2].tolist(), lw[~ok][:2].tolist())
    if case["single"]:
        require_close(vec(k.prob(x[0]), 1, "density at a single vector"), want[:1], "density at a single vector", tol, 1e-12 * unit)
    ctx.label(name, "positive" if np.any(want > 0) else "all zero", "scalar bw" if not isinstance(case["bw"], list) else "bw%d" % len(case["bw"]))
    if not np.any(want > 0):
        ctx.trivial("zero")


@st.composite
def kde_cases(draw):
    spec = draw(dists.kde())
    f = draw(st.sampled_from(UNITS))
    if f != 1:
        spec.update(samples=[[v * f for v in r] for r in spec["samples"]], bw=[v / f for v in spec["bw"]], support=[[v * f for v in r] for r in spec["support"]])
    if len(spec["samples"]) > 1 and draw(st.integers(0, 3)) == 0:        # samples close to each other
        e = draw(st.sampled_from([0.0, 1e-3, 1e-1]))
        spec["samples"][-1] = [v + e / b for v, b in zip(spec["samples"][0], np.broadcast_to(spec["bw"], (spec["d"],)).tolist())]
    return {"dist": spec, "batch": draw(zbatch(spec["d"], nmax=6, extra=20)), "near": draw(st.booleans()), "seed": 0}


def check_kde(case, ctx):
    spec = case["dist"]
    ref = dists.Ref(spec)
    dist = dists.build(spec)
    require(dist.dims == ref.d, "dims is %r", dist.dims)
    x = ref.points(case["batch"])
    if case["near"]:
        # Around the samples, in units of the bandwidth
        z = np.array([[0.31, -0.62, 0.17][: ref.d], [-0.55, 0.23, 0.44][: ref.d]])
        x = np.vstack([x] + [s + z / ref.bw for s in ref.x])
        if spec["kernel"] == "uniform":
            r = np.broadcast_to(1 / ref.bw, (ref.d,))
            e = np.min([np.min(np.abs(np.abs(x - s) - r) / r, axis=1) for s in ref.x], axis=0)
            x = x[e > 1e-6]
            if not len(x):
                ctx.trivial("on the limits")
                return
    want = np.exp(ref.logpdf(x)[0])
    got = vec(dist.prob(x.copy()), len(x), "prob")
    require_close(got, want, "kernel density (%s, bandwidth %s)" % (spec["kernel"], spec["bw"]), 1e-7, 1e-9 * float(np.prod(np.broadcast_to(ref.bw, (ref.d,)))))
    lp = vec(dist.log_prob(x.copy()), len(x), "log_prob")
    big = want > 1e-4 * min(1.0, float(np.prod(np.broadcast_to(ref.bw, (ref.d,)))))
    require_close(lp[big], np.log(want[big]), "log kernel density", 1e-6, 1e-6)
    ctx.label(spec["kernel"])
    if not np.any(want > 0):
        ctx.trivial("zero")


PARTS = [Part("kernel", fun_cases(), check_fun, 200), Part("placed", placed_cases(), check_placed, 400), Part("kde", kde_cases(), check_kde, 250)]
