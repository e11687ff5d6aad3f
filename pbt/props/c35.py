import io

import hypothesis.strategies as st
import numpy as np

from pbt import dists as D
from pbt import stats
from pbt.core import Part, require, require_close, split, vec
from pbt.gen import num, nums, rows, seeds

ID = "C35"
RULE = ("A case is a box with a resolution, a distribution on it, a number of components with their spread, a duration, or lines of a stream with the reads "
        "in between. Non-trivial: two dimensions with different numbers of points, several components, a duration over an hour, several lines and reads.")


def box(case):
    lo = np.array(case["lo"], float)
    return lo, lo + np.array(case["size"], float)


def resolution(case):
    r = case["res"]
    return np.array(r, float) if isinstance(r, list) else r


def axes_of(case, lo, hi):
    """Per dimension, the numbers of points that range over resolution can round to."""
    r = np.broadcast_to(np.array(case["res"], float), lo.shape)
    ratio = (hi - lo) / r
    return [{max(1, int(np.floor(v * (1 - 1e-12)))), max(1, int(np.floor(v * (1 + 1e-12))))} for v in ratio]


def require_grid(case, grid, dims, shape, ctx=None):
    lo, hi = box(case)
    d = len(lo)
    counts = axes_of(case, lo, hi)
    require(len(dims) == d and len(shape) == d, "a grid of %d dimensions has %d axes and a shape of %d", d, len(dims), len(shape))
    axes = []
    for i in range(d):
        a = np.asarray(dims[i], float)
        require(int(shape[i]) in counts[i], "dimension %d has %s points for a range of %g and a resolution of %s", i, shape[i], hi[i] - lo[i], case["res"])
        require(a.shape == (int(shape[i]),), "axis %d has shape %s, the grid has %s points there", i, a.shape, shape[i])
        want = np.linspace(lo[i], hi[i], len(a)) if len(a) > 1 else lo[i:i + 1]
        require_close(a, want, "axis %d" % i, 1e-12, 1e-12 * max(1, np.abs(lo).max(), np.abs(hi).max()))
        axes.append(a)
    n = int(np.prod([len(a) for a in axes]))
    require(np.shape(grid) == (n, d), "the grid has shape %s instead of %s", np.shape(grid), (n, d))
    # The point of index (i, j, ...) of the shape is (axis 0 at i, axis 1 at j, ...)
    cube = np.asarray(grid, float).reshape([len(a) for a in axes] + [d])
    for i in range(d):
        want = axes[i].reshape([-1 if j == i else 1 for j in range(d)])
        require(np.all(cube[..., i] == want), "coordinate %d of the grid is not constant along the other dimensions of its shape %s", i, [len(a) for a in axes])
    if ctx is not None:
        ctx.label("dims %d" % d)
        if d == 1 or len({len(a) for a in axes}) == 1 or n < 4:
            ctx.trivial("square grid")


def modules():
    from ais_benchmarks.sampling_methods import base
    from ais_benchmarks.utils import plot_utils
    return {"base": base, "plot": plot_utils}


def check_grid(case, ctx):
    lo, hi = box(case)
    m = modules()[case["module"]]
    a, b, r = lo.copy(), hi.copy(), resolution(case)
    grid, dims, shape = m.make_grid(a, b, r)
    require(np.array_equal(a, lo) and np.array_equal(b, hi) and np.all(resolution(case) == r), "make_grid changes the limits or the resolution it was given")
    require_grid(case, grid, dims, shape, ctx)


def check_density(case, ctx):
    """The density (plot_utils) or log density (base) of a distribution on the grid, and at uniform points."""
    spec = case["dist"]
    o, ref = D.build(spec), D.Ref(spec)
    lo, hi = box(case)
    m = modules()[case["module"]]
    grid, values, dims, shape = m.grid_sample_distribution(o, lo.copy(), hi.copy(), resolution(case))
    require_grid(case, grid, dims, shape)
    v = vec(values, len(grid), "density on the grid")
    f = o.log_prob if case["module"] == "base" else o.prob
    some = np.arange(len(grid)) if len(grid) <= 2000 else np.random.RandomState(case["seed"] % 2 ** 32).randint(0, len(grid), 1000)
    one, v = np.array([float(np.ravel(f(g.reshape(1, -1)))[0]) for g in np.asarray(grid)[some]]), v[some]
    if case["module"] == "base":
        require(np.all((v == one) | (np.abs(v - one) <= 1e-9 * (1 + np.abs(one)))), "log density on the grid is not that of each of its points")
    else:
        tol = 1e-300 + one * 1e-9 * (1 + np.abs(np.log(np.maximum(one, 1e-300))))
        require(np.all((v == one) | (np.abs(v - one) <= tol)), "density on the grid is not that of each of its points")
    np.random.seed(case["seed"] % 2 ** 32)
    x, lp = modules()["base"].uniform_sample_distribution(o, lo.copy(), hi.copy(), case["n"])
    require(np.shape(x) == (case["n"], len(lo)), "%d uniform points have shape %s", case["n"], np.shape(x))
    require(np.all(x >= lo) and np.all(x <= hi), "a uniform point lies outside of the box")
    lp = vec(lp, case["n"], "log density at the uniform points")
    one = np.array([float(np.ravel(o.log_prob(g.reshape(1, -1)))[0]) for g in x])
    require(np.all((lp == one) | (np.abs(lp - one) <= 1e-9 * (1 + np.abs(one)))), "log density at the uniform points is not that of each of them")
    if spec["d"] == 1 or len(grid) < 4:
        ctx.trivial("one dimension")


def check_uniform(case, ctx):
    lo, hi = box(case)
    n = 3000

    class One:
        def log_prob(self, x):
            return np.zeros(len(x))

    np.random.seed(case["seed"] % 2 ** 32)
    x, _ = modules()["base"].uniform_sample_distribution(One(), lo, hi, n)
    u = (x - lo) / (hi - lo)
    for i in range(len(lo)):
        stats.require_uniform(u[:, i], "coordinate %d of the uniform points" % i)
        for j in range(i):
            stats.require_uniform((u[:, i] + u[:, j]) % 1, "sum of the coordinates %d and %d" % (j, i))
            stats.require_uniform((u[:, i] + 2 * u[:, j]) % 1, "sum of the coordinates %d and twice %d" % (i, j))
    stats.require_uniform((u[1:, 0] + u[:-1, 0])[::2] % 1, "sum of the first coordinates of consecutive points")


def check_random(case, ctx):
    """generateRandomGMM: number of components, variances between the given limits, all of it within the space and in a tight support."""
    from ais_benchmarks.utils.misc import generateRandomGMM
    lo, hi = box(case)
    d, k = len(lo), case["k"]
    smin, smax = np.array(case["smin"], float), np.array(case["smin"], float) + np.array(case["ds"], float)
    np.random.seed(case["seed"] % 2 ** 32)
    g = generateRandomGMM(lo.copy(), hi.copy(), k, smin.copy(), smax.copy())
    other = generateRandomGMM(lo.copy(), hi.copy(), k, smin.copy(), smax.copy())
    desc, desc2 = g.to_dict(), other.to_dict()
    p = desc["params"]
    mu, s, w = np.array(p["means"], float), np.array(p["sigmas"], float), np.array(p["weights"], float)
    require(mu.shape == (k, d) and s.shape == (k, d) and w.shape == (k,), "%d components in %d dimensions: means %s, sigmas %s, weights %s", k, d, mu.shape, s.shape, w.shape)
    require(g.dims == d, "the mixture has %s dimensions instead of %d", g.dims, d)
    require(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, "weights %s", w.tolist())
    e = 1e-9
    require(np.all(s >= smin - e) and np.all(s <= smax + e), "variances %s outside of %s to %s", s.tolist(), smin.tolist(), smax.tolist())
    require(np.all(mu - 5 * s >= lo - e) and np.all(mu + 5 * s <= hi + e), "a component is nearer than 5 sigmas to the limits of the space")
    require_close(g.support(), [np.min(mu - 5 * s, axis=0), np.max(mu + 5 * s, axis=0)], "support", 1e-9, 1e-9)
    require(not np.array_equal(np.array(desc2["params"]["means"]), mu), "two random mixtures have the same means")
    require(k == 1 or not np.array_equal(np.array(desc2["params"]["weights"]), w), "two random mixtures have the same weights")
    require(k == 1 or not np.any(np.all(mu == mu[:1], axis=1)[1:]), "two components have the same mean")
    require(d == 1 or np.all(np.ptp((mu - lo) / (hi - lo), axis=1) > 0), "the coordinates of a mean are in the same place of the space")
    x = mu[0] + np.array(case["z"], float)[:, :d] * np.sqrt(s[0])
    want = gmm_pdf(x, mu, s, w)
    require_close(vec(g.prob(x), len(x), "prob"), want, "density of the random mixture", 1e-7, 1e-300)
    if k == 1:
        ctx.trivial("one component")


def gmm_pdf(x, mu, s, w):
    out = np.zeros(len(x))
    for m, v, a in zip(mu, s, w):
        out += a * np.exp(-0.5 * np.sum((x - m) ** 2 / v, axis=1)) / np.sqrt(np.prod(2 * np.pi * v))
    return out


def check_spread(case, ctx):
    """Over many components, means and variances are uniform over what the limits allow."""
    from ais_benchmarks.utils.misc import generateRandomGMM
    lo, hi = box(case)
    smin, smax = np.array(case["smin"], float), np.array(case["smin"], float) + np.array(case["ds"], float)
    k = 800
    np.random.seed(case["seed"] % 2 ** 32)
    p = generateRandomGMM(lo.copy(), hi.copy(), k, smin.copy(), smax.copy()).to_dict()["params"]
    mu, s = np.array(p["means"], float), np.array(p["sigmas"], float)
    for i in range(len(lo)):
        a, b = lo[i] + 5 * s[:, i], hi[i] - 5 * s[:, i]
        stats.require_uniform((mu[:, i] - a) / (b - a), "coordinate %d of the means" % i)
        if smax[i] > smin[i]:
            stats.require_uniform((s[:, i] - smin[i]) / (smax[i] - smin[i]), "variances in dimension %d" % i)


def check_egg(case, ctx):
    from ais_benchmarks.utils.misc import generateEggBoxGMM
    lo, hi = box(case)
    d = len(lo)
    sigma = np.array(case["sigma"], float) if isinstance(case["sigma"], list) else case["sigma"]
    g = generateEggBoxGMM(lo.copy(), hi.copy(), resolution(case), sigma)
    p = g.to_dict()["params"]
    mu, s, w = np.array(p["means"], float), np.array(p["sigmas"], float), np.array(p["weights"], float)
    axes = [np.unique(mu[:, i]) for i in range(d)]
    for i, c in enumerate(axes_of(case, lo, hi)):
        require(len(axes[i]) in c, "%d places in dimension %d for a range of %g and a step of %s", len(axes[i]), i, hi[i] - lo[i], case["res"])
        want = np.linspace(lo[i], hi[i], len(axes[i])) if len(axes[i]) > 1 else lo[i:i + 1]
        require_close(axes[i], want, "places in dimension %d" % i, 1e-9, 1e-9)
    n = int(np.prod([len(a) for a in axes]))
    require(len(mu) == n and len(np.unique(mu, axis=0)) == n, "%d components at %d places, there are %d", len(mu), len(np.unique(mu, axis=0)), n)
    require_close(s, np.broadcast_to(sigma, (n, d)), "variances", 1e-12)
    require_close(w, np.full(n, 1 / n), "weights", 1e-9)
    require_close(g.support(), [lo - 5 * np.ones(d) * sigma, hi + 5 * np.ones(d) * sigma], "support", 1e-9, 1e-9)
    x = mu[:3] + 0.3 * np.sqrt(np.broadcast_to(sigma, (d,)))
    require_close(vec(g.prob(x), len(x), "prob"), gmm_pdf(x, mu, s, w), "density of the egg box", 1e-7, 1e-300)
    if n < 4:
        ctx.trivial("few components")


def check_time(case, ctx):
    from ais_benchmarks.utils.misc import time_to_hms
    t = case["t"]
    h, m, s = time_to_hms(t)
    require(h == int(h) and m == int(m), "%s s are %s hours, %s minutes, %s seconds", t, h, m, s)
    require(0 <= m < 60 and 0 <= s < 60 + 1e-9 and h >= 0, "%s s are %s hours, %s minutes, %s seconds", t, h, m, s)
    require(abs(3600 * h + 60 * m + s - t) <= 1e-9 * max(t, 1), "%s s are %s hours, %s minutes, %s seconds", t, h, m, s)
    if t < 3600:
        ctx.trivial("within an hour")


class Stream:
    """A stream whose lines arrive when the case says so."""

    def __init__(self):
        import queue
        self.q = queue.Queue()
        self.calls = 0

    def readline(self):
        self.calls += 1
        return self.q.get()


def check_stream(case, ctx):
    from ais_benchmarks.utils.misc import CNonBlockingStreamReader
    import time
    stream = Stream()
    r = CNonBlockingStreamReader(stream)
    pending, n, read = [], 0, 0
    try:
        for op in case["ops"]:
            if op[0] == "write":
                for _ in range(op[1]):
                    line = ["line %d\n" % n, "\n", "  \n", "line %d" % n, "0\n", "line\n"][op[2] if len(op) > 2 else 0]
                    n += 1
                    stream.q.put(line)
                    pending.append(line)
                # The reader thread waits for the next line once it has passed this one on
                for _ in range(20000):
                    if stream.calls > n:
                        break
                    time.sleep(0.001)
                else:
                    require(False, "a line of the stream is never passed on")
            elif op[0] == "read":
                got = r.read()
                want = pending.pop(0) if pending else ""
                read += 1
                require(got == want, "read returns %r instead of %r", got, want)
            else:
                got = r.read_last_and_clear(op[1])
                want = pending[-1] if pending else None
                pending = pending[-1:] if op[1] else []
                read += 1
                require(got == want, "read_last_and_clear returns %r instead of %r", got, want)
    finally:
        stream.q.put("end\n")
    if n < 2 or read < 2:
        ctx.trivial("few lines or reads")


@st.composite
def boxes(draw, dmin=1, dmax=4, most=9):
    d = draw(st.integers(dmin, dmax))
    most = most if d < 4 else 4
    res = draw(st.one_of(nums(d, 0.05, 2), num(0.05, 2)))
    r = res if isinstance(res, list) else [res] * d
    ks = draw(st.lists(num(0.2, most), min_size=d, max_size=d))
    if draw(st.integers(0, 2)) == 0:                         # just short of, or beyond, a multiple of the resolution
        i = draw(st.integers(0, d - 1))
        ks[i] = draw(st.integers(2, max(2, int(most)))) * (1 + draw(st.sampled_from([-1e-3, -1e-4, -1e-5, -1e-7, 1e-4, 1e-6])))
    return {"d": d, "lo": draw(nums(d, -5, 5)), "size": [a * k for a, k in zip(r, ks)], "res": res}


@st.composite
def grids(draw, module, dmin, dmax):
    return dict(draw(boxes(dmin, dmax)), module=module, seed=0)


@st.composite
def densities(draw, module):
    spec = draw(D.leaf(kinds=("normal", "uniform", "gmm", "exponential"), dmax=3))
    b = draw(boxes(spec["d"], spec["d"], 5))
    if draw(st.integers(0, 9)) == 0:                         # a fine grid
        n = {1: 100000, 2: 280, 3: 42}[spec["d"]]
        b["size"] = [draw(num(0.5, 9)) for _ in range(spec["d"])]
        b["res"] = [v / n for v in b["size"]]
    return dict(b, module=module, dist=spec, n=draw(st.integers(1, 20)), seed=draw(seeds))


@st.composite
def randoms(draw, d=None):
    d = d or draw(st.integers(1, 4))
    smin, ds = draw(nums(d, 0.02, 0.3)), draw(st.one_of(nums(d, 0.01, 0.3), st.just([0.0] * d)))
    return {"lo": draw(nums(d, -9, 9)), "size": [10 * (a + b) + draw(num(0.3, 8)) for a, b in zip(smin, ds)], "k": draw(st.one_of(st.integers(1, 8), st.integers(9, 20))),
            "smin": smin, "ds": ds, "z": draw(rows(3, 4, -3, 3)), "seed": draw(seeds)}


@st.composite
def eggs(draw):
    b = draw(boxes(1, 3, 6))
    b["sigma"] = draw(st.one_of(num(0.05, 1), nums(b["d"], 0.05, 1)))
    b["seed"] = 0
    return b


times = st.fixed_dictionaries({"t": st.one_of(st.integers(0, 10 ** 6), num(0, 4000), num(0, 10 ** 6), st.integers(0, 300).map(lambda k: 60 * k),
                                              st.integers(0, 5000).map(lambda k: 59.5 + 60 * k)), "seed": st.just(0)})
OPS = st.one_of(st.tuples(st.just("write"), st.integers(1, 3), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])), st.just(("read",)), st.tuples(st.just("last"), st.booleans())).map(list)
streams = st.fixed_dictionaries({"ops": st.lists(OPS, min_size=1, max_size=14), "seed": st.just(0)})

PARTS = split("grid", {"%s.%s" % (m, k): (grids(m, a, b), 120) for m in ("base", "plot") for k, (a, b) in {"low": (1, 2), "high": (3, 4)}.items()}, check_grid) + \
    split("density", {m: (densities(m), 80) for m in ("base", "plot")}, check_density) + \
    [Part("uniform", boxes().map(lambda b: dict(b, seed=int(1000 * b["size"][0]))), check_uniform, 40),
     Part("random", randoms(), check_random, 120), Part("spread", st.integers(1, 3).flatmap(randoms), check_spread, 20),
     Part("egg", eggs(), check_egg, 120), Part("time", times, check_time, 300), Part("stream", streams, check_stream, 60)]
