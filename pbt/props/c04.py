import hypothesis.strategies as st
import numpy as np

from pbt import dists, stats
from pbt.core import Part, fail, require, split
from pbt.gen import seeds

ID = "C04"
RULE = ("A case is a distribution and the sizes of the requests that add up to a few thousand samples, transformed to uniforms "
        "by the Rosenblatt transform of the reference law. Non-trivial: the distribution is not a delta.")
ASSUMPTIONS = ["Statistical distances are bounded by DKW at error probability 1e-10 per comparison."]


@st.composite
def cases(draw, specs):
    return {"dist": draw(specs.filter(lambda s: s["d"] <= 5)), "sizes": draw(st.lists(st.sampled_from([1, 2, 3, 10, 100]), max_size=5)),
            "seed": draw(seeds), "n": draw(st.sampled_from([3000] * 7 + [40000]))}


def ask(dist, n, d, form):
    x = dist.sample() if form == "default" else dist.sample(n)
    require(isinstance(x, np.ndarray) and x.shape == (n, d), "sample(%s) has shape %s, expected %s", n, getattr(x, "shape", None), (n, d))
    require(np.all(np.isfinite(x)), "sample(%s) is not finite", n)
    return np.array(x, float)


def check(case, ctx):
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    d = ref.d
    probe = ref.loc + np.random.RandomState(case["seed"] % 2 ** 32).normal(size=(6, d)) * ref.scale
    before = np.array(dist.log_prob(probe.copy()))
    parts = [ask(dist, 1, d, "default")] + [ask(dist, k, d, "n") for k in case["sizes"]]
    parts.append(ask(dist, case["n"] - sum(len(p) for p in parts), d, "n"))
    x = np.vstack(parts)
    require(np.array_equal(before, np.array(dist.log_prob(probe.copy()))), "sampling changed the density")
    if ref.t == "delta":
        ctx.trivial("delta")
        require(np.all(x == ref.loc), "a sample of a delta is not its point")
        return
    eps = 1e-9 * (ref.scale + np.abs(ref.loc))
    require(np.all((x >= ref.lo - eps) & (x <= ref.hi + eps)), "a sample is outside of the range of the distribution")
    lp = np.array(dist.log_prob(x.copy()), float)
    require(np.mean(lp > -np.inf) > 0.999, "samples have zero density")
    u = dists.rosenblatt(ref, x)
    for i in range(d):
        stats.require_uniform(u[:, i], "dimension %d of the samples" % i)
        stats.require_tails(u[:, i], "dimension %d of the samples" % i)
        step = np.max(np.spacing(np.abs(x[:, i])))
        if ref.t != "mixture" and ref.scale[i] > 1e5 * step:
            most = np.unique(x[:, i], return_counts=True)[1].max()
            require(most <= 10, "dimension %d of %d samples has the same value %d times", i, len(x), most)
    # Joint law: sums and differences of independent uniforms, modulo 1, are uniform
    for i in range(d):
        for j in range(i):
            stats.require_uniform((u[:, i] - u[:, j]) % 1, "difference of dimensions %d and %d" % (i, j))
            stats.require_uniform((u[:, i] + u[:, j]) % 1, "sum of dimensions %d and %d" % (i, j))
    # Independence of the samples of a request, at several lags
    last = u[-(len(parts[-1]) // 2 * 2):]
    h = len(last) // 2
    for a, b in ((last[0::2], last[1::2]), (last[:h], last[h:]), (last[0::2][:h - 3], last[1::2][3:])):
        for i in range(d):
            j = (i + 1) % d
            for k in {i, j}:
                stats.require_uniform((a[:, i] - b[:, k]) % 1, "differences of samples of one request")
                stats.require_uniform((a[:, i] + b[:, k]) % 1, "sums of samples of one request")
    # and of different requests
    again = dists.rosenblatt(ref, ask(dist, h, d, "n"))
    for i in range(d):
        stats.require_uniform((again[:, i] - last[:h, i]) % 1, "differences of samples of two requests")
    ctx.label("d%d" % d)


@st.composite
def count_cases(draw, specs):
    spec = draw(specs.filter(lambda s: s["d"] <= 3))
    return {"dist": spec, "n": draw(st.integers(5, 40)), "batches": 300, "cut": draw(st.sampled_from([0.2, 0.5, 0.7])), "seed": draw(seeds)}


def check_counts(case, ctx):
    """How many of the samples of a request fall on one side of a quantile is binomial."""
    ref = dists.Ref(case["dist"])
    dist = dists.build(case["dist"])
    n, m, p = case["n"], case["batches"], case["cut"]
    u = dists.rosenblatt(ref, np.vstack([ask(dist, n, ref.d, "n") for _ in range(m)]))
    sets = {"dimension %d" % i: u[:, i] < p for i in range(ref.d)}
    if ref.t in ("mixture", "gmm"):                              # the likeliest component of every sample
        x = np.vstack([ask(dist, n, ref.d, "n") for _ in range(m)])
        with np.errstate(all="ignore"):
            if ref.t == "gmm":
                each = np.array([np.log(w) - 0.5 * np.sum((x - c) ** 2 / v + np.log(v), axis=1) for w, c, v in zip(ref.w, ref.means, ref.vars)])
            else:
                each = np.array([np.log(w) + q.logpdf(x)[0] for w, q in zip(ref.w, ref.parts)])
        first = np.argmax(each, axis=0)
        sets.update({"component %d" % i: first == i for i in range(len(each))})
    for what, hit in sets.items():
        k = hit.reshape(m, n).sum(axis=1)
        q = p if what.startswith("dim") else hit.mean()
        if not 0.1 < q < 0.9:
            continue
        # Variance of the counts over that of a binomial law: m - 1 degrees of freedom, about normal
        ratio = np.sum((k - k.mean()) ** 2) / (m - 1) / (n * q * (1 - q))
        require(0.45 < ratio < 1.8, "%s: the counts of %d requests of %d samples vary %.3f times as much as they should", what, m, n, ratio)
    ctx.label(ref.t)


KINDS = ["normal", "uniform", "exponential", "gmm", "mixture", "bd_uniform", "bd_exponential", "delta"]
PARTS = split("sample", dists.by_kind(cases, 160, KINDS), check) + \
    split("counts", dists.by_kind(count_cases, 60, [k for k in KINDS if k != "delta"]), check_counts)
