"""Samplers: JSON descriptions, the objects of the repository built from them, recording targets, and request runs."""
import contextlib
import math

import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt.core import fail, require
from pbt.gen import num, nums, seeds

KINDS = ["dm", "lais", "mpmc", "hidaisee", "tp", "mh", "nested", "multinested", "rejection"]
BATCH = ["dm", "lais", "mpmc", "mh", "nested", "multinested", "rejection"]      # keep their samples in order
MIXTURE_IS = ["dm", "lais", "mpmc"]


# --- strategies --------------------------------------------------------------------------------------------------

SCALES = (1, 1, 1, 1, 0.1, 30, 1e-3, 3e3)


@st.composite
def space(draw, d=None, cubic=False, scales=SCALES, long=True):
    d = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 3, 4])) if d is None else d
    s = draw(st.sampled_from(list(scales)))
    c = draw(nums(d, -3, 3))
    r = draw(nums(d, 0.5, 3))
    if cubic:
        r = [r[0]] * d
    elif long and d > 1 and draw(st.integers(0, 9)) == 0:             # one long side
        r[draw(st.integers(0, d - 1))] *= 50
    if s == 1 and draw(st.integers(0, 5)) == 0:              # a space given in integers
        c, r = [int(v) for v in c], [math.ceil(v) for v in r]
    return {"d": d, "lo": [(a - b) * s for a, b in zip(c, r)], "hi": [(a + b) * s for a, b in zip(c, r)]}


def halves(sp):
    return [(b - a) / 2 for a, b in zip(sp["lo"], sp["hi"])]


@st.composite
def target(draw, sp, shapes=("gauss", "gauss", "gmm", "gmm", "box", "cut", "flat", "ramp", "checker"), inside=False):
    """A density known up to a constant, described in units of the space: u = -1 .. 1 from limit to limit."""
    d = sp["d"]
    t = {"t": draw(st.sampled_from(list(shapes))), "c": draw(st.sampled_from([1.0, 1.0, 1.0, 0.3, 7.0, 1e-6, 1e4, 1e-60, 1e60]))}
    m = 0.4 if inside else 1.2
    s = (0.08, 0.2) if inside else (0.05, 1.0)
    if t["t"] in ("gauss", "cut"):
        t["m"], t["s"] = draw(nums(d, -m, m)), draw(nums(d, *s))
        t["rho"] = draw(num(-0.8, 0.8)) if d == 2 and draw(st.booleans()) else 0.0
        if t["t"] == "cut":                                   # zero on one side of a plane
            t["at"] = draw(num(-0.5, 0.5))
    elif t["t"] == "gmm":
        k = draw(st.integers(2, 3))
        t["m"], t["s"] = [draw(nums(d, -m, m)) for _ in range(k)], [draw(nums(d, *s)) for _ in range(k)]
        t["w"] = draw(nums(k, 0.1, 1))
    elif t["t"] == "box":
        a = draw(nums(d, -0.9, 0.2))
        t["a"], t["b"] = a, [x + draw(num(0.3, 0.7)) for x in a]
    elif t["t"] == "ramp":
        t["k"] = draw(nums(d, -3, 3))
    elif t["t"] == "checker":                                 # two levels, alternating
        t["n"] = draw(st.integers(1, 4))
        t["low"] = draw(st.sampled_from([0.0, 0.01, 0.5]))
    return t


def shape_log(t, u):
    """log of the shape of the target at the points u (N x d, in units of the space), without the constant c."""
    k = t["t"]
    with np.errstate(all="ignore"):
        if k in ("gauss", "cut"):
            z = (u - np.array(t["m"])) / np.array(t["s"])
            if t["rho"]:
                r = t["rho"]
                q = (z[:, 0] ** 2 - 2 * r * z[:, 0] * z[:, 1] + z[:, 1] ** 2) / (1 - r * r)
            else:
                q = np.sum(z * z, axis=1)
            out = -0.5 * q
            return np.where(u[:, 0] > t["at"], out, -np.inf) if k == "cut" else out
        if k == "gmm":
            rows = [math.log(w) - np.sum(np.log(s)) - 0.5 * np.sum(((u - np.array(m)) / np.array(s)) ** 2, axis=1)
                    for m, s, w in zip(t["m"], t["s"], t["w"])]
            return np.logaddexp.reduce(rows, axis=0)
        if k == "box":
            return np.where(np.all((u > np.array(t["a"])) & (u < np.array(t["b"])), axis=1), 0.0, -np.inf)
        if k == "flat":
            return np.zeros(len(u))
        if k == "zero":
            return np.full(len(u), -np.inf)
        if k == "ramp":
            return np.clip(u, -4, 4) @ np.array(t["k"])                # bounded where a method leaves the space
        if k == "checker":
            odd = np.sum(np.floor((u + 1) * t["n"]), axis=1) % 2 != 0
            return np.where(odd, 0.0, np.log(t["low"]))
    raise ValueError(k)


def log_target(t, sp):
    lo, hi = np.array(sp["lo"]), np.array(sp["hi"])

    def f(x):
        return shape_log(t, (np.asarray(x, float) - (lo + hi) / 2) / ((hi - lo) / 2)) + math.log(t["c"]) + t.get("lc", 0.0)
    return f


def max_shape(t):
    """An upper bound of the shape over the space."""
    k = t["t"]
    if k in ("gauss", "cut", "box", "flat", "zero", "checker"):
        return 1.0
    if k == "gmm":
        return sum(w / float(np.prod(s)) for w, s in zip(t["w"], t["s"]))
    if k == "ramp":
        return math.exp(sum(abs(v) for v in t["k"]))
    raise ValueError(k)


class Target:
    """What the samplers evaluate: answers for batches and for single points, and remembers every evaluation."""

    def __init__(self, t, sp, clock=None, dt=0.0, budget=200000):
        self.f = log_target(t, sp)
        self.dims = sp["d"]
        self.clock, self.dt, self.budget = clock, dt, budget
        self.n = 0
        self.calls = []                      # (points, log values)

    def _eval(self, x):
        x = np.array(x, float)
        if x.ndim == 1:
            x = x.reshape(1, -1)
        if x.ndim != 2 or x.shape[1] != self.dims:
            fail("the target is evaluated at an array of shape %s in %d dimensions", x.shape, self.dims)
        v = self.f(x)
        self.n += len(x)
        self.calls.append((x, v))
        if self.clock is not None:
            self.clock.advance(self.dt * len(x))
        if self.n > self.budget:
            raise guard.StepLimit("more than %d evaluations of the target in one case" % self.budget)
        return v

    def log_prob(self, x):
        return self._eval(x)

    def prob(self, x):
        return np.exp(self._eval(x))

    def points(self, start=0):
        c = self.calls[start:]
        return np.vstack([p for p, _ in c]) if c else np.zeros((0, self.dims))

    def values(self, start=0):
        c = self.calls[start:]
        return np.concatenate([v for _, v in c]) if c else np.zeros(0)


@st.composite
def params(draw, kind, sp, t=None, small=False, **fixed):
    d = sp["d"]
    w = 2 * min(halves(sp))
    p = {"m": kind}

    def sd(lo=0.03, hi=0.5):
        return (draw(num(lo, hi)) * w) ** 2
    if kind in MIXTURE_IS:
        p["N"] = draw(st.integers(1, 5))
        p["J"] = 10
        p["sigma"] = sd(0.05, 0.6)
        p["K"] = draw(st.integers(1, 4) if kind != "mpmc" else st.integers(d + 2, 24))
        if kind == "lais":
            p["L"] = draw(st.integers(1, 3))
            p["mh_sigma"] = sd()
    elif kind == "hidaisee":
        p["tau"] = draw(st.sampled_from([0.001, 0.01, 0.1, 1.0, 30.0]))
        p["n_min"] = draw(st.integers(1, 10))
        p["target_ess"] = draw(num(0.1, 0.99))
    elif kind == "tp":
        p["method"] = "simple"
        p["kernel"] = draw(st.sampled_from(["haar", "haar", "normal"]))
        p["resampling"] = draw(st.sampled_from(["none", "leaf"]))
        p["ess_target"] = draw(st.one_of(st.none(), num(0.1, 0.99), st.just(1.5)))
        p["n_min"] = draw(st.integers(1, 8))
        p["parallel_samples"] = draw(st.integers(1, 16))
    elif kind == "mh":
        p["n_burnin"] = draw(st.integers(0, 12))
        p["n_steps"] = draw(st.integers(1, 4))
        p["proposal_sigma"] = sd(0.02, 0.6)
    elif kind == "nested":
        p["N"] = draw(st.integers(2, 20))
        p["prop_var"] = sd(0.05, 0.4)
    elif kind == "multinested":
        p["N"] = draw(st.integers(2 * (d + 1), 24))
        p["prop_var"] = 1.0
        p["converged_radius"] = draw(num(0.01, 0.05)) * w
        p["inflate_factor"] = draw(num(0.5, 2))
    elif kind == "rejection":
        p["slack"] = draw(num(1, 3))
        p["proposal"] = draw(st.sampled_from(["uniform", "uniform", "wide"]))
    if kind in ("mh", "nested", "multinested", "rejection"):
        p["kde_bw"] = (draw(num(0.02, 0.2)) * w) ** 2
        p["n_samples_kde"] = draw(st.integers(1, 12))
    p.update(fixed)
    return p


UNIFORM = "CMultivariateUniform({'center': (self.space_max + self.space_min) / 2, 'radius': (self.space_max - self.space_min) / 2})"
WIDE = "CMultivariateUniform({'center': (self.space_max + self.space_min) / 2, 'radius': (self.space_max - self.space_min) * 0.75})"
NORMAL = "CMultivariateNormal({'mean': np.zeros(self.ndims), 'sigma': np.diag(np.ones(self.ndims) * %r)})"


def build(p, sp, t=None):
    import ais_benchmarks.sampling_methods as S
    cls = {"dm": S.CDeterministicMixtureAIS, "lais": S.CLayeredAIS, "mpmc": S.CMixturePMC, "hidaisee": S.CHiDaiseeSampling,
           "tp": S.CTreePyramidSampling, "mh": S.CMetropolisHastings, "nested": S.CNestedSampling,
           "multinested": S.CMultiNestedSampling, "rejection": S.CRejectionSampling}[p["m"]]
    return cls(arguments(p, sp, t))


def arguments(p, sp, t=None):
    a = {k: v for k, v in p.items() if k not in ("m", "prop_var", "slack", "proposal")}
    a.update(space_min=np.array(sp["lo"]), space_max=np.array(sp["hi"]), dims=sp["d"])
    if p["m"] in ("nested", "multinested"):
        a["proposal"] = NORMAL % p["prop_var"]
    if "offset" in p:                                         # moves that are not centered at the state
        from ais_benchmarks.distributions import CMultivariateNormal
        del a["offset"]
        a["proposal_d"] = CMultivariateNormal({"mean": np.array(p["offset"]) * np.sqrt(p["proposal_sigma"]), "sigma": np.diag(np.full(sp["d"], p["proposal_sigma"]))})
    if p["m"] == "rejection":
        vol = float(np.prod(np.array(sp["hi"]) - np.array(sp["lo"])))
        if p["proposal"] == "wide":
            vol *= 1.5 ** sp["d"]
        a["proposal"] = UNIFORM if p["proposal"] == "uniform" else WIDE
        top = max_shape(t)
        if p["proposal"] == "wide" and t["t"] == "ramp":
            top **= 1.5
        a["scaling"] = p["slack"] * top * t["c"] * vol
    return a


@st.composite
def cases(draw, kind, shapes=None, reqs=None, d=None, cubic=False, inside=False, scales=SCALES, **fixed):
    sp = draw(space(d=d, cubic=cubic, scales=scales, long=kind != "tp"))
    kw = {} if shapes is None else {"shapes": shapes}
    t = draw(target(sp, inside=inside, **kw))
    p = draw(params(kind, sp, t, **fixed))
    c = {"sp": sp, "t": t, "p": p, "seed": draw(seeds)}
    if reqs is not None:
        c["reqs"] = draw(reqs)
    return c


@st.composite
def _requests(draw, most=4):
    """Totals to ask for: mostly growing, sometimes the same again or less."""
    out = [draw(st.integers(1, 20))]
    for _ in range(draw(st.sampled_from([1, 1, 2, most - 1]))):
        out.append(max(1, max(out) + draw(st.sampled_from([1, 2, 5, 9, 14, 23, 0, -1, -4]))))
    return out


requests = _requests()

EVALS = 4000          # evaluations of the target a request can do before its virtual time is over


@contextlib.contextmanager
def session(case, budget=200000, evals=None, timeout=60.0):
    """(sampler, target, clock): the time passes with the evaluations of the target, so that requests which get nowhere end."""
    if evals is None:
        evals = {"mh": 1200, "tp": 600}.get(case["p"]["m"], EVALS)
    clock = guard.Clock()
    with guard.virtual_time(clock):
        # A power of two: sums of it are exact, whenever they start
        t = Target(case["t"], case["sp"], clock, 2.0 ** math.floor(math.log2(timeout / evals)), budget)
        yield build(case["p"], case["sp"], case["t"]), t, clock


def request(s, target, n, timeout=60.0, what="importance_sample"):
    """Runs a request and checks the form of its answer. Returns samples, weights as float arrays."""
    out = s.importance_sample(target, n, timeout)
    require(isinstance(out, tuple) and len(out) == 2, "%s returns %s", what, type(out).__name__)
    x, w = out
    require(isinstance(x, np.ndarray) and isinstance(w, np.ndarray), "%s returns %s and %s", what, type(x).__name__, type(w).__name__)
    if len(x) == 0:
        require(len(w) == 0, "%s returns no samples and %d weights", what, len(w))
        return np.zeros((0, target.dims)), np.zeros(0)
    require(x.ndim == 2 and x.shape[1] == target.dims, "%s returns samples of shape %s in %d dimensions", what, x.shape, target.dims)
    require(w.shape == (len(x),), "%s returns %d samples and weights of shape %s", what, len(x), w.shape)
    x, w = np.array(x, float), np.array(w, float)
    require(np.all(np.isfinite(x)), "%s returns samples that are not finite", what)
    require(np.all(np.isfinite(w)), "%s returns weights that are not finite: %s", what, w[~np.isfinite(w)][:3].tolist())
    require(np.all(w >= 0), "%s returns negative weights: %s", what, w[w < 0][:3].tolist())
    return x, w


def by_sampler(make, total, kinds=KINDS, weights=None):
    """Label -> (strategy, cases) for core.split."""
    weights = weights or {}
    t = sum(weights.get(k, 1) for k in kinds)
    return {k: (make(k), max(5, round(total * weights.get(k, 1) / t))) for k in kinds}
