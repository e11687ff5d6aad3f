import os

import hypothesis.strategies as st
import numpy as np

from pbt import dists as D
from pbt import samplers as S
from pbt.core import Part, require, require_close, split, vec
from pbt.gen import num, nums, seeds, zbatch

ID = "C33"
RULE = ("A case is a file of targets, a file of methods with a space, or a configuration, loaded after another one. Non-trivial: at least two "
        "entries of different kinds, or a configuration that differs from the one before.")
SHIPPED = "/repo/ais_benchmarks/benchmark/"


def benchmark():
    import pandas  # noqa: F401 (imported by the benchmark)
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    return CBenchmark()


def write(name, content):
    import yaml
    path = os.path.join(os.environ["PBT_SCRATCH"], name)
    with open(path, "w") as f:
        yaml.safe_dump(content, f, sort_keys=False)
    return path


CLASS = {"normal": "CMultivariateNormal", "uniform": "CMultivariateUniform", "exponential": "CMultivariateExponential", "gmm": "CGaussianMixtureModel",
         "delta": "CMultivariateDelta", "banana": "Banana2D", "bd_uniform": "BenchDenUniform", "bd_exponential": "BenchDenExponential",
         "bd_maxwell": "BenchDenMaxwell", "bd_laplace": "BenchDenLaplace", "bd_pareto": "BenchDenSymmetricPareto"}


def parameters(spec):
    t = spec["t"]
    if t == "normal":
        p = {"mean": spec["mean"], "sigma": spec["cov"]}
        if "support" in spec:
            p["support"] = spec["support"]
        return p
    if t in ("uniform", "delta"):
        return {k: spec[k] for k in (("center", "radius") if t == "uniform" else ("center", "support"))}
    if t == "exponential":
        return {"mean": spec["mean"]}
    if t == "gmm":
        return {k: spec[v] for k, v in (("means", "means"), ("sigmas", "vars"), ("support", "support"), ("weights", "weights")) if v in spec}
    return {}


def targets_file(entries, name="targets.yaml"):
    return write(name, {"targets": [dict({"name": e["name"], "type": CLASS[e["dist"]["t"]], "params": parameters(e["dist"]), "batch_size": e["batch_size"],
                                          "nsamples": e["nsamples"], "nsamples_eval": e["nsamples_eval"]}, **({"tags": e["tags"]} if e["tags"] else {}))
                                    for e in entries]})


def check_targets(case, ctx):
    b = benchmark()
    if case["before"]:
        b.load_benchmark(targets_file(case["before"], "before.yaml"))
    b.load_benchmark(targets_file(case["entries"]))
    n = len(case["entries"])
    for what, v in (("targets", b.targets), ("dimensions", b.ndims), ("numbers of samples", b.nsamples), ("numbers of evaluation samples", b.eval_sampl),
                    ("batch sizes", b.batch_sizes)):
        require(len(v) == n, "%d %s from a file of %d targets", len(v), what, n)
    for i, e in enumerate(case["entries"]):
        t, ref = b.targets[i], D.Ref(e["dist"])
        require(type(t).__name__ == CLASS[e["dist"]["t"]], "target %d is a %s instead of a %s", i, type(t).__name__, CLASS[e["dist"]["t"]])
        require(t.name == e["name"], "target %d has the name %r instead of %r", i, t.name, e["name"])
        require(t.dims == ref.d and b.ndims[i] == ref.d, "target %d has %s and %s dimensions instead of %d", i, t.dims, b.ndims[i], ref.d)
        require(b.nsamples[i] == e["nsamples"] and b.eval_sampl[i] == e["nsamples_eval"] and b.batch_sizes[i] == e["batch_size"],
                "target %d has nsamples %s, nsamples_eval %s, batch_size %s instead of %s, %s, %s", i, b.nsamples[i], b.eval_sampl[i], b.batch_sizes[i],
                e["nsamples"], e["nsamples_eval"], e["batch_size"])
        own = D.build(e["dist"])
        require_close(t.support(), own.support(), "support of target %d" % i, 1e-12, 1e-12)
        x = ref.points(e["batch"])
        want = vec(own.log_prob(x), len(x), "log_prob")
        got = vec(t.log_prob(x), len(x), "log_prob")
        require(np.all((got == want) | (np.abs(got - want) <= 1e-9 * (1 + np.abs(want)))), "target %d is not the one of its entry: log density %s instead of %s",
                i, got[:3].tolist(), want[:3].tolist())
        ctx.label(e["dist"]["t"])
    if n < 2 or len({e["dist"]["t"] for e in case["entries"]}) < 2:
        ctx.trivial("one kind")


SAMPLER = {"dm": "CDeterministicMixtureAIS", "lais": "CLayeredAIS", "mpmc": "CMixturePMC", "hidaisee": "CHiDaiseeSampling", "tp": "CTreePyramidSampling",
           "mh": "CMetropolisHastings", "nested": "CNestedSampling", "multinested": "CMultiNestedSampling", "rejection": "CRejectionSampling"}


def methods_file(case, entries, name="methods.yaml"):
    out = []
    for e in entries:
        a = S.arguments(e["p"], case["sp"], case["t"])
        for k in ("space_min", "space_max", "dims"):
            del a[k]
        # Strings are evaluated, so that they take quotes of their own
        a = {k: (repr(v) if isinstance(v, str) else "None" if v is None and e["none"] else v) for k, v in a.items()}
        out.append({"name": e["name"], "type": SAMPLER[e["p"]["m"]], "debug": e["debug"], "params": a})
    return write(name, {"methods": out})


def run(s, target, n, seed):
    np.random.seed(seed % 2 ** 32)
    s.reset()
    x, w = s.importance_sample(target, n, 60.0)
    return np.array(x, float), np.array(w, float), dict(s.get_stats()) if len(x) else {}


def check_methods(case, ctx):
    from pbt import guard
    sp = case["sp"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    b = benchmark()
    if case["before"]:
        b.load_methods(methods_file(case, case["before"], "before.yaml"), lo, hi, sp["d"])
    b.load_methods(methods_file(case, case["entries"]), lo, hi, sp["d"])
    require(len(b.methods) == len(case["entries"]), "%d methods from a file of %d", len(b.methods), len(case["entries"]))
    for i, e in enumerate(case["entries"]):
        m = b.methods[i]
        require(type(m).__name__ == SAMPLER[e["p"]["m"]], "method %d is a %s instead of a %s", i, type(m).__name__, SAMPLER[e["p"]["m"]])
        require(m.name == e["name"], "method %d has the name %r instead of %r", i, m.name, e["name"])
        require(m.debug == e["debug"], "method %d has debug %r instead of %r", i, m.debug, e["debug"])
        require(m.ndims == sp["d"], "method %d has %s dimensions instead of %d", i, m.ndims, sp["d"])
        if not (np.array_equal(m.space_min, lo) and np.array_equal(m.space_max, hi)):
            require(np.allclose(m.space_min, lo, rtol=1e-8, atol=1.01e-8 * max(1, np.abs(lo).max())) and np.allclose(m.space_max, hi, rtol=1e-8, atol=1.01e-8 * max(1, np.abs(hi).max())),
                    "method %d has the space %s to %s instead of %s to %s", i, m.space_min, m.space_max, lo, hi)
            ctx.finding("space-digits")
            ctx.label("rounded space")
            continue
        # It does what one built with the parameters of the entry does
        runs = []
        for s in (m, S.build(e["p"], sp, case["t"])):
            clock = guard.Clock()
            with guard.virtual_time(clock):
                runs.append(run(s, S.Target(case["t"], sp, clock, 2.0 ** -6), case["n"], case["seed"]))
        (x, w, a), (y, v, c) = runs
        require(x.shape == y.shape and np.array_equal(x, y) and np.array_equal(w, v), "method %d gives other samples than one built with the parameters of its entry", i)
        require(a.keys() == c.keys() and all(np.array_equal(a[k], c[k], equal_nan=True) for k in a), "method %d gives other statistics than one built with the parameters of its entry", i)
        ctx.label(e["p"]["m"])
    if len({e["p"]["m"] for e in case["entries"]}) < 2:
        ctx.trivial("one kind")


def config_file(c, name):
    return write(name, {"metrics": c["metrics"], "nreps": c["nreps"], "rseed": c["rseed"],
                        "debug": {"text": c["text"], "plot": {"show": c["show"], "save": c["save"], "path": c["path"]}},
                        "output": {"file": "x.txt", "make_plots": c["plots"], "plots_path": c["plots_path"], "plots_dpi": c["dpi"]}})


def check_config(case, ctx):
    b = benchmark()
    for i, c in enumerate(case["configs"]):
        np.random.seed(12345)
        state = np.random.get_state()[1].copy()
        b.load_config(config_file(c, "config%d.yaml" % i))
        want = {"metrics": c["metrics"], "n_experiments": c["nreps"], "rseed": c["rseed"], "debug_text": c["text"], "debug_plot": c["show"], "debug_plot_save": c["save"],
                "debug_plot_save_path": c["path"], "generate_plots": c["plots"], "generate_plots_path": c["plots_path"], "plot_dpi": c["dpi"]}
        for k, v in want.items():
            require(getattr(b, k) == v, "%s is %r after loading a configuration with %r", k, getattr(b, k), v)
        got = np.random.get_state()[1]
        if c["rseed"] >= 0:
            require(np.array_equal(got, np.random.RandomState(c["rseed"]).get_state()[1]), "the random generator is not seeded with %d", c["rseed"])
        else:
            require(np.array_equal(got, state), "the random generator is seeded although the seed is %d", c["rseed"])
    if len(case["configs"]) < 2:
        ctx.trivial("single load")


def check_shipped(case, ctx):
    """The files that come with the package load: all targets, and all methods for each of them."""
    import yaml
    b = benchmark()
    if case["file"] == "benchden/def_benchmark_benchden.yaml":
        try:
            b.load_benchmark(SHIPPED + case["file"])
        except ValueError:
            ctx.finding("benchden-yaml")
            return
    else:
        b.load_benchmark(SHIPPED + case["file"])
    with open(SHIPPED + case["file"]) as f:
        entries = yaml.safe_load(f)["targets"]
    require([t.name for t in b.targets] == [e["name"] for e in entries], "targets %s from a file of %s", [t.name for t in b.targets], [e["name"] for e in entries])
    with open(SHIPPED + "def_methods.yaml") as f:
        methods = yaml.safe_load(f)["methods"]
    for t, d in zip(b.targets, b.ndims):
        b.load_methods(SHIPPED + "def_methods.yaml", t.support()[0], t.support()[1], d)
        require([(m.name, type(m).__name__) for m in b.methods] == [(e["name"], e["type"]) for e in methods], "methods %s", [m.name for m in b.methods])
    b.load_config(SHIPPED + "def_config.yaml")


names = st.sampled_from(["normal", "gmm_a", "target 2", "M", "x: y", "TP_AISr_ESS90", "7", "True", "#1", "é"])


@st.composite
def entry(draw):
    spec = dict(draw(D.leaf()), form="list")
    return {"dist": spec, "name": draw(names), "batch_size": draw(st.integers(1, 500)), "nsamples": draw(st.integers(1, 10 ** 5)),
            "nsamples_eval": draw(st.integers(1, 10 ** 5)), "tags": draw(st.lists(st.sampled_from(["a", "b"]), max_size=2)), "batch": draw(zbatch(spec["d"], 4, 7))}


targets = st.fixed_dictionaries({"entries": st.lists(entry(), min_size=1, max_size=4), "before": st.lists(entry(), max_size=2), "seed": seeds})


@st.composite
def methods(draw, fine=False):
    d = draw(st.integers(1, 2))
    lo = [round(v, 3) for v in draw(nums(d, -6, 4))]
    size = draw(nums(1, 0.5, 6)) * d if draw(st.booleans()) else draw(nums(d, 0.5, 6))
    hi = [a + round(v, 3) for a, v in zip(lo, size)]
    hi = [v if fine else round(v, 3) for v in hi]
    if fine:
        lo = [v + 1.23456789e-9 for v in lo]
    sp = {"d": d, "lo": lo, "hi": hi}
    t = draw(S.target(sp, shapes=("gauss", "gmm", "flat", "ramp")))

    def entries(a, b):
        kinds = draw(st.lists(st.sampled_from(S.KINDS), min_size=a, max_size=b))
        return [{"p": draw(S.params(k, sp, t)), "name": draw(names), "debug": draw(st.booleans()), "none": draw(st.booleans())} for k in kinds]
    return {"sp": sp, "t": t, "entries": entries(1, 4), "before": entries(0, 2), "n": draw(st.integers(1, 15)), "seed": draw(seeds)}


config = st.fixed_dictionaries({"metrics": st.lists(st.sampled_from(["KLD", "JSD", "NESS", "EVMSE", "T", "MEM"]), max_size=4), "nreps": st.integers(0, 50),
                                "rseed": st.integers(-2, 2 ** 31), "text": st.booleans(), "show": st.booleans(), "save": st.booleans(),
                                "path": st.sampled_from(["a/", "results/debug plots/"]), "plots": st.booleans(), "plots_path": st.sampled_from(["b/", "results/"]),
                                "dpi": st.integers(10, 2000)})
configs = st.fixed_dictionaries({"configs": st.lists(config, min_size=1, max_size=3), "seed": st.just(0)})
files = st.fixed_dictionaries({"file": st.sampled_from(["def_benchmark.yaml", "benchden/def_benchmark_benchden.yaml"]), "seed": st.just(0)})

PARTS = [Part("targets", targets, check_targets, 120), Part("methods", methods(), check_methods, 120), Part("digits", methods(True), check_methods, 8),
         Part("config", configs, check_config, 40),
         Part("shipped", files, check_shipped, 2, 2, examples=[{"file": f, "seed": 0} for f in ("def_benchmark.yaml", "benchden/def_benchmark_benchden.yaml")])]
