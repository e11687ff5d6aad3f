import hypothesis.strategies as st
import numpy as np

from pbt.core import Part, fail, require, require_close, vec
from pbt.gen import num, nums, rows, seeds

ID = "C08"
RULE = ("A case is a simulator (function, noise, prior, surrogate likelihood) and a history of conditionings, parameter updates, "
        "evaluations and samples. Non-trivial: an evaluation or sample after a conditioning.")
ASSUMPTIONS = ["The user's functions take batches, as documented."]


def noise_class():
    from ais_benchmarks.distributions import CDistribution

    class Noise(CDistribution):
        """Normal noise that records what was drawn from it and at which points it was evaluated."""

        def __init__(self, d, sigma):
            super().__init__({"type": "noise", "family": "noise", "dims": d, "support": [[-9.0] * d, [9.0] * d],
                              "likelihood_f": self.prob, "loglikelihood_f": self.log_prob})
            self.sigma, self.drawn, self.asked = sigma, [], []

        def sample(self, nsamples=1):
            x = np.random.normal(0, self.sigma, (nsamples, self.dims))
            self.drawn.append(x.copy())
            return x

        def law(self, x):
            return -0.5 * np.sum((x / self.sigma) ** 2, axis=1) - self.dims * np.log(self.sigma * np.sqrt(2 * np.pi))

        def log_prob(self, x):
            x = np.atleast_2d(x)
            self.asked.append(np.array(x))
            return self.law(x)

        def prob(self, x):
            return np.exp(self.log_prob(x))

        def condition(self, dist):
            raise NotImplementedError

        def marginal(self, dim):
            raise NotImplementedError

        def take(self):
            out, self.drawn = self.drawn, []
            return np.vstack(out) if out else np.zeros((0, self.dims))

    return Noise


FUNS = {
    "affine": lambda a, b: (lambda x, z: a * np.asarray(x) + b if z is None else a * np.asarray(x) + b * z),
    "square": lambda a, b: (lambda x, z: a * np.asarray(x) ** 2 + b if z is None else a * np.asarray(x) ** 2 + b * z),
    "sine": lambda a, b: (lambda x, z: a * np.sin(np.asarray(x) * 3 + b) if z is None else a * np.sin(np.asarray(x) * 3 + b * z)),
}


def history(draw, op, cond):
    """Some operations before the first conditioning is certain, and some after."""
    first = draw(st.lists(op, max_size=2))
    return [list(o) for o in first + [draw(cond)] + draw(st.lists(op, min_size=2, max_size=7))]


@st.composite
def noisy_cases(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 24)))
    cond = st.tuples(st.just("condition"), rows(n, d, -3, 3))
    op = st.one_of(cond, st.tuples(st.just("sample"), st.none()), st.tuples(st.just("condition"), rows(1, d, -3, 3)),
                   st.tuples(st.just("params"), st.one_of(st.none(), num(-2, 2))),
                   st.tuples(st.just("sample"), st.none()), st.tuples(st.just("prob"), rows(n, d, -4, 4)),
                   st.tuples(st.just("log_prob"), rows(n, d, -4, 4)))
    return {"d": d, "f": draw(st.sampled_from(sorted(FUNS))), "a": draw(num(-2, 2)), "b": draw(num(-2, 2)), "sigma": draw(num(0.05, 2)),
            "ops": history(draw, op, cond), "flat": draw(st.booleans()), "seed": draw(seeds)}


def must_reject(f, what):
    try:
        r = f()
    except ValueError:
        return
    fail("%s before conditioning returned %r", what, r)


def check_noisy(case, ctx):
    from ais_benchmarks.distributions import GenericNoisyFunction
    d = case["d"]
    noise = noise_class()(d, case["sigma"])
    f = FUNS[case["f"]](case["a"], case["b"])
    dist = GenericNoisyFunction({"noise_model": noise, "function": f, "support": [[-4.0] * d, [4.0] * d], "dims": d})
    x, z, used = None, None, 0
    for op, a in case["ops"]:
        if op == "condition":
            x = np.array(a, float)
            # A value for all the points can be given as a vector
            dist.condition(x[0].copy() if len(x) == 1 and d > 1 and case["flat"] else x.copy())
            flat = len(x) == 1 and d > 1 and case["flat"]
        elif op == "params":
            z = a
            dist.set_params(z)
        elif op == "sample":
            if x is None or flat:
                continue
            noise.take()
            got = dist.sample()
            drawn = noise.take()
            require(len(drawn) == len(x), "%d draws of noise for %d points", len(drawn), len(x))
            require(np.shape(got) == (len(x), d), "sample has shape %s for %d points", np.shape(got), len(x))
            require_close(got, np.asarray(f(x, z)).reshape(len(x), d) + drawn, "sample", 1e-9, 1e-9)
            used += 1
        else:
            p = np.array(a, float)
            if x is None:
                must_reject(lambda: getattr(dist, op)(p), op)
                ctx.label("rejected")
                continue
            if len(x) != 1 and len(x) != len(p):
                continue
            want = noise.law(p - x)
            got = vec(getattr(dist, op)(p.copy()), len(p), op)
            require_close(got, want if op == "log_prob" else np.exp(want), op, 1e-9, 1e-12)
            used += 1
            ctx.label(op)
    if not used:
        ctx.trivial("no use")


@st.composite
def abc_cases(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 24)))
    cond = st.tuples(st.just("condition"), st.one_of(nums(d, -3, 3), st.lists(st.integers(-3, 3), min_size=d, max_size=d)))
    op = st.one_of(
        st.tuples(st.just("condition"), st.integers(1, d).flatmap(lambda k: nums(k, -3, 3))),
        st.tuples(st.just("condition"), nums(d, -3, 3)), st.tuples(st.just("condition"), st.lists(st.integers(-3, 3), min_size=d, max_size=d)),
        st.tuples(st.just("prob"), rows(n, d, -3, 3)), st.tuples(st.just("log_prob"), rows(n, d, -3, 3)),
        st.tuples(st.just("disturb"), rows(2, d, -3, 3)))
    return {"d": d, "f": draw(st.sampled_from(sorted(FUNS))), "a": draw(num(-2, 2)), "b": draw(num(-2, 2)), "sigma": draw(num(0.05, 1)),
            "slack": draw(num(0.05, 3)), "prior": draw(num(0.3, 3)), "fns": draw(st.sampled_from(["lik", "log", "both"])),
            "ops": history(draw, op, cond), "seed": draw(seeds)}


def check_abc(case, ctx):
    from ais_benchmarks.distributions import ABCDistribution, CMultivariateNormal, GenericNoisyFunction
    d = case["d"]
    Noise = noise_class()
    noise = Noise(d, case["sigma"])
    f = FUNS[case["f"]](case["a"], case["b"])
    gen = GenericNoisyFunction({"noise_model": noise, "function": f, "support": [[-4.0] * d, [4.0] * d], "dims": d})
    sensor = GenericNoisyFunction({"noise_model": Noise(d, 0.1), "function": lambda x, z: x, "support": [[-4.0] * d, [4.0] * d], "dims": d})
    prior = CMultivariateNormal({"mean": np.zeros(d), "sigma": np.diag([case["prior"]] * d)})

    def log(o, o_hat, slack):
        o, o_hat = np.asarray(o, float), np.asarray(o_hat, float)
        return -0.5 * np.sum((o.reshape(1, -1) - o_hat) ** 2, axis=1) / slack - slack

    dist = ABCDistribution({"prior_d": prior, "sensor_d": sensor, "gen_d": gen, "slack": case["slack"], "support": [[-4.0] * d, [4.0] * d],
                            "likelihood_f": (lambda *a: np.exp(log(*a))) if case["fns"] != "log" else None,
                            "loglikelihood_f": log if case["fns"] != "lik" else None})
    o, used, given = None, 0, []
    for op, a in case["ops"]:
        if op == "condition":
            for g in given:
                require(np.array_equal(*g), "an observation given is changed by conditioning on others")
            # Observations of integers too
            o, mine = np.array(a, float), np.array(a)
            given.append((mine, mine.copy()))
            dist.condition(mine)
        elif op == "disturb":
            gen.condition(np.array(a, float))
            gen.sample()
        else:
            z = np.array(a, float)
            if o is None:
                must_reject(lambda: getattr(dist, op)(z), op)
                ctx.label("rejected")
                continue
            noise.take()
            got = vec(getattr(dist, op)(z.copy()), len(z), op)
            drawn = noise.take()
            require(len(drawn) == len(z), "%d simulations for %d points", len(drawn), len(z))
            o_hat = (np.asarray(f(z, None)).reshape(len(z), d) + drawn)[:, : len(o)]
            pl = -0.5 * np.sum(z ** 2, axis=1) / case["prior"] - 0.5 * d * np.log(2 * np.pi * case["prior"])
            want = log(o, o_hat, case["slack"]) + pl
            if op == "prob":
                require_close(got, np.exp(want), "prob of the ABC posterior", 1e-8, 1e-250)
            else:
                keep = want > -600
                require_close(got[keep], want[keep], "log_prob of the ABC posterior", 1e-8, 1e-8)
                require(np.all(got[~keep] < -500), "log_prob of the ABC posterior far away")
            used += 1
            ctx.label(op, "observed %d of %d" % (len(o), d))
    if not used:
        ctx.trivial("no use")


@st.composite
def nuisance_cases(draw):
    d = draw(st.integers(1, 3))
    e = draw(st.integers(1, 3))
    cond = st.tuples(st.just("condition"), st.sampled_from([1, 2, 3, 4, 12]).flatmap(lambda n: rows(n, d, -3, 3)))
    op = st.one_of(cond,
                   st.tuples(st.just("vector"), nums(d, -3, 3)),
                   st.tuples(st.just("sample"), st.none()), st.tuples(st.just("prob"), rows(3, d, -3, 3)))
    return {"d": d, "e": e, "sigma": draw(num(0.1, 2)), "ops": history(draw, op, cond), "seed": draw(seeds)}


class Tensor(np.ndarray):
    """What the generator returns: an array that can be detached, as the tensors of the library it is meant for."""

    def detach(self):
        return np.array(self)


def check_nuisance(case, ctx):
    from ais_benchmarks.distributions import GenericNuisanceGenModel
    d, e = case["d"], case["e"]
    noise = noise_class()(e, case["sigma"])
    calls = []

    def gen(z, n):
        calls.append((np.array(z, float), np.array(n, float)))
        r = np.concatenate([np.array(z, float), np.array(n, float)], axis=1)
        return r.view(Tensor)

    dist = GenericNuisanceGenModel({"gen_function": gen, "params_mask": [True] * d + [False] * e, "noise_sigma": 0.1, "nuisance_dist": noise,
                                    "dims": d, "support": [[-4.0] * d, [4.0] * d]})
    z, used = None, 0
    for op, a in case["ops"]:
        if op in ("condition", "vector"):
            z = np.atleast_2d(np.array(a, float))
            dist.condition(z[0].copy() if op == "vector" else z.copy())
        elif op == "prob":
            p = np.array(a, float)
            require_close(vec(dist.prob(p), 3, "prob"), np.ones(3), "prob of a deterministic model")
            require_close(vec(dist.log_prob(p), 3, "log_prob"), np.zeros(3), "log_prob of a deterministic model")
        else:
            if z is None:
                must_reject(dist.sample, "sample")
                ctx.label("rejected")
                continue
            noise.take()
            del calls[:]
            got = dist.sample()
            drawn = noise.take()
            require(len(calls) >= 1, "the generator was not used")
            cz, cn = np.vstack([c[0] for c in calls]), np.vstack([c[1] for c in calls])
            require(cz.shape == z.shape and np.array_equal(cz, z), "the generator was given %s for %s", cz.tolist(), z.tolist())
            require(len(drawn) == len(z) and np.array_equal(cn, drawn), "the generator was not given one fresh nuisance per point")
            require_close(got, np.concatenate([z, drawn], axis=1), "sample of the nuisance model")
            used += 1
            ctx.label("sample")
    if not used:
        ctx.trivial("no use")


PARTS = [Part("noisy", noisy_cases(), check_noisy, 300), Part("abc", abc_cases(), check_abc, 300), Part("nuisance", nuisance_cases(), check_nuisance, 200)]
