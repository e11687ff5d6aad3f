import copy
import os

import hypothesis.strategies as st
import numpy as np

from pbt import dists as D
from pbt import samplers as S
from pbt.core import fail, split
from pbt.gen import num, nums, seeds

ID = "C09"
RULE = ("A case is a valid input and one single defect; the defective input has to raise an exception and its valid twin must not. "
        "Non-trivial: every case.")
ASSUMPTIONS = ["any exception is a rejection"]


def rejected(f, what, *args):
    try:
        out = f()
    except Exception:
        return
    fail("%s is accepted (result %s)", what % args, repr(out)[:100].replace("\n", " "))


def accepted(f, what):
    try:
        return f()
    except Exception as e:
        fail("%s is rejected: %s %s", what, type(e).__name__, str(e)[:100])


# --- points --------------------------------------------------------------------------------------------------------

def check_points(case, ctx):
    spec, bad = case["dist"], case["bad"]
    d = spec["d"]
    o = D.build(spec)
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    ref = D.Ref(spec)
    n = case["n"]

    def pts(*shape):
        return rng.uniform(size=shape) * 0.5 + 0.25 + ref.loc.mean()
    x = {"more": lambda: pts(n, d + case["by"]), "fewer": lambda: pts(n, max(1, d - case["by"])), "rank3": lambda: pts(2, n, d),
         "rank3.1": lambda: pts(1, 1, d), "rank4": lambda: pts(1, 2, n, d), "vector.more": lambda: pts(d + case["by"]),
         "vector.fewer": lambda: pts(max(1, d - case["by"])), "rank0": lambda: np.array(0.5)}[bad]()
    if x.ndim in (1, 2) and x.shape[-1] == d:
        x = pts(n, d + 1) if x.ndim == 2 else pts(d + 1)
    f = getattr(o, case["f"])
    accepted(lambda: f(pts(n, d)), "a batch of %d points of %d dimensions" % (n, d))
    rejected(lambda: f(x), "%s.%s of points of shape %s in %d dimensions", type(o).__name__, case["f"], x.shape, d)
    ctx.label(bad)


def points(strategy):
    return st.fixed_dictionaries({
        "dist": strategy, "bad": st.sampled_from(["more", "more", "fewer", "fewer", "rank3", "rank3.1", "rank4", "vector.more", "vector.fewer", "rank0"]),
        "by": st.integers(1, 3), "n": st.integers(1, 4), "f": st.sampled_from(["prob", "log_prob"]), "seed": seeds})


# --- parameters of distributions -----------------------------------------------------------------------------------

REQUIRED = {"normal": ["mean", "sigma"], "uniform": ["center", "radius"], "exponential": ["mean"], "gmm": ["means", "sigmas", "support"],
            "mixture": ["models", "weights", "dims", "support"], "delta": ["center", "support"],
            "kde": ["samples", "weights", "kernel_f", "kernel_bw", "support"]}
DEFECTS = {"normal": ["cov.rows", "cov.columns", "cov.size", "cov.singular", "cov.negative", "cov.zero", "cov.vector", "cov.nan"],
           "uniform": ["radius.more", "radius.fewer"], "mixture": ["weights.more", "weights.fewer", "set_weights.more", "set_weights.fewer"],
           "gmm": ["weights.more", "weights.fewer"], "kde": ["weights.more", "weights.fewer", "kernel"]}


def check_params(case, ctx):
    import ais_benchmarks.distributions as M
    spec, bad = case["dist"], case["bad"]
    d = spec["d"]
    o = accepted(lambda: D.build(spec), "the valid description")
    cls = type(o)
    if bad.startswith("missing"):
        key = case["key"]
        p = {k: v for k, v in o.params.items() if k not in (key, "likelihood_f", "loglikelihood_f", "type", "family")}
        if key != "dims" and spec["t"] != "mixture":
            p.pop("dims", None)
        rejected(lambda: cls(p), "%s without %s", cls.__name__, key)
        return ctx.label("missing " + key)
    s = copy.deepcopy(spec)
    k = case["by"]
    if bad.startswith("cov"):
        c = np.array(s["cov"])
        if bad == "cov.rows":
            c = np.vstack([c, c[:1]])
        elif bad == "cov.columns":
            c = np.hstack([c, c[:, :1]])
        elif bad == "cov.size":
            c = np.eye(d + k)
        elif bad == "cov.vector":
            c = np.ones(d) if d > 1 else np.ones(2)
        elif bad == "cov.zero":
            c = np.zeros((d, d))
        elif bad == "cov.singular":                           # a row and its column are 0
            c = np.diag(np.arange(1.0, d + 1))
            c[k % d, k % d] = 0
        elif bad == "cov.nan":
            c = np.array(c, float)
            i, j = (k % d, k % d) if case["seed"] % 2 else (0, d - 1)
            c[i, j] = c[j, i] = np.nan
        elif bad == "cov.negative":
            c = np.diag(np.arange(1.0, d + 1))
            c[k % d, k % d] *= -1
        s["cov"] = c.tolist()
        rejected(lambda: D.build(s), "a covariance %s in %d dimensions", c.tolist(), d)
        n = accepted(lambda: D.build(spec), "the valid description")
        accepted(lambda: n.set_moments(np.zeros(d), np.eye(d)), "moments of the right size")
        rejected(lambda: n.set_moments(np.zeros(d), c), "set_moments with a covariance %s in %d dimensions", c.tolist(), d)
    elif bad.startswith("radius"):
        r = list(np.broadcast_to(s["radius"], (d,)))
        r = [float(v) for v in r]
        m = d + k if bad == "radius.more" or d < 3 else max(2, d - k)
        s["radius"] = (r * 4)[:m]
        rejected(lambda: D.build(s), "%d radii in %d dimensions", m, d)
    elif bad.startswith("weights"):
        n = len(s.get("models") or s.get("means") or s["samples"])
        w = list(s.get("weights") or [1.0] * n)
        s["weights"] = w + [0.5] * k if bad.endswith("more") or n == 1 else w[:max(1, n - k)]
        rejected(lambda: D.build(s), "%d components and %d weights", n, len(s["weights"]))
    elif bad.startswith("set_weights"):
        n = len(s["models"])
        w = [1.0] * (n + k if bad.endswith("more") or n == 1 else max(1, n - k))
        accepted(lambda: o.set_weights(np.array([1.0] * n)), "a weight for every model")
        rejected(lambda: o.set_weights(np.array(w)), "set_weights of %d weights to %d models", len(w), n)
    elif bad == "kernel":
        p = {q: v for q, v in o.params.items() if q not in ("likelihood_f", "loglikelihood_f", "type", "family", "dims")}
        p["kernel_f"] = "normal"
        rejected(lambda: cls(p), "a kernel that is a string")
    ctx.label(bad)


@st.composite
def parameters(draw, t):
    s = {"mixture": D.mixture, "kde": D.kde, "delta": D.delta}
    spec = draw(s[t]() if t in s else D.leaf(kinds=(t,), dmax=5))
    bad = draw(st.sampled_from(DEFECTS.get(t, []) + ["missing"] * (2 if t in DEFECTS else 1)))
    return {"dist": spec, "bad": bad, "key": draw(st.sampled_from(REQUIRED[t])), "by": draw(st.integers(1, 2)), "seed": draw(seeds)}


# --- boxes ---------------------------------------------------------------------------------------------------------

def check_box(case, ctx):
    spec = case["dist"]
    d = spec["d"]
    o = D.build(spec)
    ref = D.Ref(spec)
    a = ref.loc + (np.array(case["a"]) - 0.5) * ref.scale
    b = a + np.array(case["w"]) * ref.scale
    accepted(lambda: o.integral(a, b), "the integral from %s to %s" % (a, b))
    i = case["i"] % d
    a2, b2 = a.copy(), b.copy()
    if case["all"]:
        a2, b2 = b2, a2
    else:
        a2[i], b2[i] = b2[i], a2[i]
    rejected(lambda: o.integral(a2, b2), "%s.integral of the inverted box from %s to %s", type(o).__name__, a2.tolist(), b2.tolist())


@st.composite
def boxes(draw, t):
    spec = draw(D.delta() if t == "delta" else D.leaf(kinds=(t,), dmax=4))
    return {"dist": spec, "a": draw(nums(spec["d"], -1.5, 1.5)), "w": draw(nums(spec["d"], 0.1, 3)), "i": draw(st.integers(0, 3)),
            "all": draw(st.booleans()), "seed": draw(seeds)}


# --- samplers ------------------------------------------------------------------------------------------------------

WRONG = {"hidaisee": [("tau", 0.0), ("tau", -0.5), ("n_min", 0), ("n_min", -3), ("target_ess", 0.0), ("target_ess", 1.0), ("target_ess", 1.5), ("target_ess", -0.2)],
         "tp": [("method", "best"), ("method", ""), ("method", "Simple"), ("kernel", "gauss"), ("kernel", "uniform"), ("resampling", "tree"), ("resampling", "leaves")]}


def check_sampler(case, ctx):
    p, sp, t = case["p"], case["sp"], case["t"]
    good = S.arguments(p, sp, t)
    s = accepted(lambda: S.build(p, sp, t), "the valid configuration")
    cls = type(s)
    bad = case["bad"]
    q = copy.deepcopy(good)
    if bad == "missing":
        keys = sorted(good)
        if p["m"] in S.MIXTURE_IS:
            keys.remove("J")                                  # a limit that nothing uses
        key = keys[case["key"] % len(keys)]
        del q[key]
        what = "without " + key
    elif bad == "dims":
        q["dims"] = sp["d"] + (case["by"] if sp["d"] == 1 or case["key"] % 2 else -1)
        what = "with %d dimensions in a space of %d" % (q["dims"], sp["d"])
    elif bad == "limits":
        k = "space_max" if case["key"] % 2 else "space_min"
        q[k] = np.append(q[k], q[k][:1]) if sp["d"] == 1 or case["by"] > 1 else q[k][:-1]
        what = "with %s of %d dimensions in a space of %d" % (k, len(q[k]), sp["d"])
    elif bad == "rate":
        # Nothing was accepted or rejected yet
        rejected(lambda: s.get_acceptance_rate(), "the acceptance rate of %s before any sample", cls.__name__)
        return ctx.label(bad)
    else:
        ok = WRONG[p["m"]]
        k, v = ok[case["key"] % len(ok)]
        q[k] = v
        what = "with %s = %r" % (k, v)
    rejected(lambda: cls(q), "%s %s", cls.__name__, what)
    ctx.label(bad)


@st.composite
def sampler(draw, kind):
    c = draw(S.cases(kind))
    c["bad"] = draw(st.sampled_from(["missing"] * 4 + ["dims", "limits", "rate"] + (["wrong"] * 8 if kind in WRONG else [])))
    c["key"] = draw(st.integers(0, 23))
    c["by"] = draw(st.integers(1, 2))
    return c


# --- tree, derived distributions, divergences, description files ---------------------------------------------------

def check_tree(case, ctx):
    from ais_benchmarks.sampling_methods.tree_pyramid import CTreePyramid
    T = CTreePyramid(np.array(case["lo"]), np.array(case["hi"]), case["kernel"])
    for i in case["path"]:
        n = T.leaves[i % len(T.leaves)]
        accepted(lambda: T.expand(n), "the expansion of a leaf")
        rejected(lambda: T.expand(n), "the expansion of a node that is not a leaf")


@st.composite
def trees(draw):
    d = draw(st.integers(1, 3))
    lo = draw(nums(d, -3, 3))
    w = draw(num(0.5, 4))
    return {"lo": lo, "hi": [v + w for v in lo], "path": draw(st.lists(st.integers(0, 30), min_size=1, max_size=5)), "kernel": draw(st.sampled_from(["haar", "normal"])), "seed": 0}


def derived_params(case):
    import ais_benchmarks.distributions as M
    d = case["d"]
    noise = M.CMultivariateNormal({"mean": np.zeros(d), "sigma": np.eye(d)})
    base = {"support": np.array([[-3.0] * d, [3.0] * d]), "dims": d}
    if case["t"] == "noisy":
        return M.GenericNoisyFunction, dict(base, noise_model=noise, function=lambda x, z: x)
    gen = M.GenericNoisyFunction(dict(base, noise_model=noise, function=lambda x, z: x))
    return M.ABCDistribution, dict(base, prior_d=noise, sensor_d=noise, gen_d=gen, slack=0.5, likelihood_f=None,
                                   loglikelihood_f=lambda x, y, slack: -np.sum((x - y) ** 2, axis=1) / slack)


def check_derived(case, ctx):
    cls, p = derived_params(case)
    o = accepted(lambda: cls(dict(p)), "the valid description")
    x = np.array(case["x"], float).reshape(-1, case["d"])
    bad = case["bad"]
    if bad == "unconditioned":
        rejected(lambda: getattr(o, case["f"])(x), "%s.%s before condition", cls.__name__, case["f"])
        o.condition(x[:1] if case["t"] == "noisy" else x[0])
        accepted(lambda: getattr(o, case["f"])(x), "evaluation after condition")
    elif bad == "missing":
        key = {"noisy": ["noise_model", "function", "support", "dims"],
               "abc": ["prior_d", "sensor_d", "gen_d", "slack", "likelihood_f", "loglikelihood_f", "support"]}[case["t"]]
        key = key[case["key"] % len(key)]
        q = {k: v for k, v in p.items() if k != key}
        rejected(lambda: cls(q), "%s without %s", cls.__name__, key)
    else:
        key = {"noisy": ["noise_model", "function"], "abc": ["prior_d", "sensor_d", "gen_d"]}[case["t"]]
        key = key[case["key"] % len(key)]
        q = dict(p)
        q[key] = "normal"
        rejected(lambda: cls(q), "%s with a string as %s", cls.__name__, key)
    ctx.label(bad)


@st.composite
def derived(draw, t):
    d = draw(st.integers(1, 3))
    return {"t": t, "d": d, "x": draw(nums(2 * d, -2, 2)), "bad": draw(st.sampled_from(["unconditioned", "unconditioned", "missing", "type"])),
            "f": draw(st.sampled_from(["prob", "log_prob"])), "key": draw(st.integers(0, 20)), "seed": draw(seeds)}


def check_metric(case, ctx):
    from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    cls = {"KL": CKLDivergence, "JS": CJSDivergence, "EVMSE": CExpectedValueMSE}[case["m"]]
    good = {"p": D.build(case["p"]), "q": D.build(case["q"]), "nsamples": case["n"]}
    accepted(lambda: cls().compute(**good), "the valid arguments")
    q = dict(good)
    if case["bad"] == "missing":
        del q[case["key"]]
    else:
        q["p" if case["key"] != "q" else "q"] = {"none": None, "number": 3.0, "class": object()}[case["v"]]
    rejected(lambda: cls().compute(**q), "%s with arguments %s", case["m"], {k: type(v).__name__ for k, v in q.items()})


@st.composite
def metrics(draw):
    d = draw(st.integers(1, 2))
    k = ("normal", "gmm")
    return {"m": draw(st.sampled_from(["KL", "JS", "EVMSE"])), "p": draw(D.leaf(kinds=k, d=d)), "q": draw(D.leaf(kinds=k, d=d)),
            "n": draw(st.integers(2, 40)), "bad": draw(st.sampled_from(["missing", "missing", "type"])),
            "key": draw(st.sampled_from(["p", "q", "nsamples"])), "v": draw(st.sampled_from(["none", "number", "class"])), "seed": draw(seeds)}


def check_file(case, ctx):
    import yaml
    import pandas  # noqa: F401 (imported by the benchmark)
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    path = os.path.join(os.environ["PBT_SCRATCH"], "c09.yaml")
    lo, hi = np.array([-1.0]), np.array([1.0])
    t = {"name": "t", "type": "CGaussianMixtureModel", "batch_size": 2, "nsamples": 4, "nsamples_eval": 8,
         "params": {"means": [[0.0]], "sigmas": [[0.1]], "weights": [1.0], "support": [[-1.0], [1.0]], "dims": 1}}
    m = {"name": "m", "type": "CRejectionSampling", "debug": False,
         "params": {"scaling": 1.0, "proposal": "'%s'" % "None", "kde_bw": 0.1, "n_samples_kde": 3}}
    m["params"] = {"N": 2, "J": 3, "sigma": 0.1, "K": 2}
    m["type"] = "CDeterministicMixtureAIS"

    def load(data, f):
        with open(path, "w") as h:
            yaml.safe_dump(data, h)
        f()
    b = CBenchmark()
    methods = lambda: b.load_methods(path, lo, hi, 1)
    targets = lambda: b.load_benchmark(path)
    accepted(lambda: load({"methods": [m]}, methods), "the valid methods file")
    accepted(lambda: load({"targets": [t]}, targets), "the valid targets file")
    which, e, f = ("methods", m, methods) if case["methods"] else ("targets", t, targets)
    bad = copy.deepcopy(e)
    if case["bad"] == "type":
        bad["type"] = case["type"]
        what = "the unknown type " + case["type"]
    elif case["bad"] == "param":
        keys = [k for k in sorted(bad["params"]) if k not in ("J", "weights", "dims")]
        k = keys[case["key"] % len(keys)]
        del bad["params"][k]
        what = "an entry without the parameter " + k
    else:
        keys = [k for k in sorted(bad) if k != "params"]
        k = keys[case["key"] % len(keys)]
        del bad[k]
        what = "an entry without " + k
    entries = [e, e]
    entries.insert(case["key"] % 3, bad)
    rejected(lambda: load({which: entries}, f), "a file of %s with %s", which, what)


files = st.fixed_dictionaries({"methods": st.booleans(), "bad": st.sampled_from(["type", "param", "field"]),
                               "type": st.sampled_from(["CNormal", "CSampling", "Gaussian", "CMetropolis", "xyz"]), "key": st.integers(0, 11), "seed": seeds})

PARTS = split("points", D.by_kind(points, 260), check_points) + \
    split("parameters", {t: (parameters(t), 45) for t in REQUIRED}, check_params) + \
    split("boxes", {t: (boxes(t), 40) for t in ("uniform", "delta")}, check_box) + \
    split("sampler", {k: (sampler(k), 60) for k in S.KINDS}, check_sampler) + \
    split("tree", {"expand": (trees(), 40)}, check_tree) + \
    split("derived", {t: (derived(t), 40) for t in ("noisy", "abc")}, check_derived) + \
    split("metrics", {"all": (metrics(), 50)}, check_metric) + \
    split("files", {"all": (files, 60)}, check_file)
