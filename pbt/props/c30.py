import math

import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt import samplers as S
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C30"
RULE = ("A case is a vector of weights or a chain given to a sampler, or a sampler after requests; its effective sample size and acceptance rate are "
        "compared with their definitions. Non-trivial: at least three samples, weights or states that differ.")


def value(v, what):
    require(np.size(v) == 1, "%s is %s", what, v)
    return float(np.ravel(v)[0])


def kish(w):
    w = w / w.max()
    return w.sum() ** 2 / (len(w) * np.sum(w * w))


def entropy(w):
    w = w[w > 0]
    return -np.sum(w * np.log(w))


def reference(kind, x, w):
    if kind in ("dm", "lais", "mpmc", "hidaisee", "tp"):
        return kish(w)
    if kind in ("nested", "multinested"):
        return math.exp(entropy(w)) / len(w)
    return autocorrelation(x)


def autocorrelation(x):
    """n over the integrated autocorrelation time: the lags up to the first pair (odd, even) of negative sum."""
    n = len(x)
    var = sum(float(np.sum((x[:, i] - math.fsum(x[:, i]) / n) ** 2)) for i in range(x.shape[1])) / (n - 1)
    if not var > 0 or np.all(x == x[0]):
        return math.nan                                    # a chain that never moves
    rho = [1.0]
    for t in range(1, n):
        v = float(np.sum((x[t:] - x[:-t]) ** 2)) / (n - t)
        rho.append(1 - v / (2 * var))
        if t % 2 == 0 and rho[-1] + rho[-2] < 0:
            break
    # A sum so close to 0 that its sign is chance
    edge = any(abs(rho[t] + rho[t - 1]) < 1e-9 for t in range(2, len(rho), 2))
    den = 1 + 2 * sum(rho[1:])
    return math.nan if edge or abs(den) < 1e-6 else 1 / den


def given(case, ctx):
    """Weights and samples put into a sampler."""
    kind = case["p"]["m"]
    sp = case["sp"]
    s = S.build(case["p"], sp, case["t"])
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    w = np.array(case["w"], float)
    if case["many"]:
        w = np.concatenate((w, rng.gamma(0.3, size=case["many"])))
    if kind in ("nested", "multinested"):
        w = w / w.sum()
    else:
        w = w * case["scale"]
    n, d = len(w), sp["d"]
    lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
    s.samples = lo + (hi - lo) * rng.uniform(size=(n, d))
    s.weights = w.copy()
    keep = s.samples.copy()
    got = value(s.get_NESS(), "NESS")
    want = math.exp(entropy(w)) / n if kind in ("nested", "multinested") else kish(w)
    require_close(got, want, "NESS of the weights %s" % w[:6], 1e-9)
    require(0 < got <= 1 + 1e-9, "the NESS is %r", got)
    require(np.array_equal(s.weights, w) and np.array_equal(s.samples, keep), "computing the NESS changes the samples or weights")
    if kind not in ("nested", "multinested"):
        require_close(value(s.get_approx_NESS(), "approximate NESS"), want, "approximate NESS", 1e-9)
    # Order does not matter
    p = rng.permutation(n)
    s.samples, s.weights = s.samples[p], s.weights[p]
    require_close(value(s.get_NESS(), "NESS"), want, "NESS of the weights in another order", 1e-9)
    if len(set(w.tolist())) < 3:
        ctx.trivial("equal weights")


def chain(case, ctx):
    """A chain put into Metropolis-Hastings or rejection sampling."""
    s = S.build(case["p"], case["sp"], case["t"])
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    n, d, a = case["n"], case["sp"]["d"], case["ar"]
    x = np.zeros((n, d))
    x[0] = rng.normal(size=d)
    for i in range(1, n):
        x[i] = a * x[i - 1] + math.sqrt(1 - a * a) * rng.normal(size=d)
    if case["hold"]:
        x = np.repeat(x, 3, axis=0)[:n]
    loc = np.array(case["loc"][:d])
    y = loc + x * case["scale"]
    s.samples, s.weights = y.copy(), np.full(n, 1 / n)
    want = autocorrelation(y)
    got = value(s.get_NESS(), "NESS")
    if math.isnan(want):
        raise Skip("on an edge, or constant")
    require_close(got, want, "NESS of a chain", 1e-6 * (1 + np.max(np.abs(loc)) / case["scale"]))
    require(np.array_equal(s.samples, y), "computing the NESS changes the samples")
    s.samples = y - loc + 3.0
    require_close(value(s.get_NESS(), "NESS"), got, "NESS of the chain elsewhere", 1e-6 * (1 + np.max(np.abs(loc)) / case["scale"]))
    if n >= 400 and not case["hold"] and a <= 0.9:
        # Autoregressive: (1 - a) / (1 + a) in the limit
        r = got * (1 + a) / (1 - a)
        require(0.25 < r < 4, "NESS %.4f of an autoregressive chain, in the limit %.4f", got, (1 - a) / (1 + a))
        ctx.label("limit")
    if n < 3:
        ctx.trivial("short")


def after(case, ctx):
    kind = case["p"]["m"]
    moved = False
    with S.session(case) as (s, target, clock):
        for n in case["reqs"]:
            x, w = S.request(s, target, n)
            if len(x) == 0:
                continue
            st_ = s.get_stats()
            if w.sum() > 0 and len(x) > 1 and not (kind in ("mh", "rejection") and np.all(x == x[0])):
                want = reference(kind, x, w)
                got = value(s.get_NESS(), "NESS")
                if not math.isnan(want):
                    require_close(got, want, "NESS after a request of %d" % n, 1e-6)
                    moved = moved or len(x) > 2
                if kind not in ("mh", "rejection"):
                    require(0 < got <= 1 + 1e-9, "the NESS is %r", got)
                if "NESS" in st_ and not math.isnan(want):
                    require_close(value(st_["NESS"], "NESS of the statistics"), want, "NESS of the statistics", 1e-6)
            rate = value(s.get_acceptance_rate(), "the acceptance rate")
            require(s.num_proposal_samples > 0, "no samples are drawn from the proposals for %d samples", len(x))
            require_close(rate, len(x) / s.num_proposal_samples, "acceptance rate", 1e-12)
            require(st_["n_samples"] == len(x), "the statistics count %s of %d samples", st_["n_samples"], len(x))
    if not moved:
        ctx.trivial("few samples")


@st.composite
def weights(draw, kind):
    c = draw(S.cases(kind, shapes=("flat",)))
    w = draw(st.lists(st.one_of(num(0.01, 1), num(0, 1), st.sampled_from([0.0, 1e-12, 1.0, 1.0])), min_size=1, max_size=12))
    if sum(w) <= 0:
        w[0] = 1.0
    c["w"], c["scale"], c["many"] = w, draw(st.sampled_from([1.0, 1e-8, 1e6, 0.3])), draw(st.sampled_from([0, 0, 0, 50, 400, 3000]))
    return c


@st.composite
def chains(draw, kind):
    c = draw(S.cases(kind, shapes=("flat",)))
    c["n"] = draw(st.sampled_from([2, 3, 4, 5, 8, 13, 40, 400, 400, 2500]))
    c["ar"] = draw(num(-0.3, 0.9))
    if c["n"] == 2500 and draw(st.integers(0, 2)) > 0:
        c["ar"] = draw(st.sampled_from([0.99, 0.998, 1 - 1e-6]))        # correlated over hundreds of steps, or no more than a drift
    c["hold"] = draw(st.booleans())
    c["loc"] = draw(nums(4, -30, 30))
    c["scale"] = draw(st.sampled_from([1.0, 0.01, 50.0]))
    return c


PARTS = split("weights", {k: (weights(k), 60) for k in ("dm", "lais", "mpmc", "hidaisee", "nested", "multinested")}, given) + \
    split("chain", {k: (chains(k), 80) for k in ("mh", "rejection")}, chain) + \
    split("after", S.by_sampler(lambda k: S.cases(k, reqs=S.requests), 270), after)
