import os

import hypothesis.strategies as st
import numpy as np

from pbt import dists as D
from pbt.core import close, fail, require, require_close, split, vec
from pbt.gen import seeds, zbatch

ID = "C10"
RULE = ("A case is a distribution and its evaluation settings; the description is compared with the distribution, for Gaussian mixtures also "
        "after YAML and the benchmark loader. Non-trivial: more than one component or dimension, or settings other than the defaults.")

PLAIN = (str, int, float, bool, type(None))
FAMILY = {"normal": "exponential", "uniform": None, "exponential": "exponential", "gmm": "mixture", "mixture": "mixture", "kde": "mixture"}


def plain(v, where="the description"):
    if type(v) in PLAIN:
        return
    if type(v) is list:
        for x in v:
            plain(x, where)
    elif type(v) is dict:
        for k, x in v.items():
            require(type(k) is str, "%s has the key %r", where, k)
            plain(x, "%s[%s]" % (where, k))
    else:
        fail("%s has a value of type %s, not a plain YAML value", where, type(v).__name__)


def describe(o, case):
    kw = dict(case["settings"])
    return o.to_dict(**kw), kw


def common(case, d, o, ref, kw):
    import yaml
    plain(d)
    try:
        text = yaml.safe_dump(d)
    except yaml.YAMLError as e:
        fail("the description cannot be written as YAML: %s", e)
    require(yaml.safe_load(text) == d, "the description changes when it is written as YAML and read")
    want = {"batch_size": 32, "nsamples": 1000, "nsamples_eval": 2000}
    want.update({k: v for k, v in kw.items() if k != "name"})
    for k, v in want.items():
        require(d.get(k) == v, "%s is %r in the description instead of %r", k, d.get(k), v)
    name = kw.get("name")
    require(d.get("name") == (name if name is not None else o.type), "the name is %r in the description instead of %r", d.get("name"), name)
    require(d.get("type") == type(o).__name__, "the class is %r in the description instead of %s", d.get("type"), type(o).__name__)
    p = d.get("params")
    require(isinstance(p, dict), "the description has no parameters")
    require(p.get("dims") == ref.d, "dims is %r in the description instead of %d", p.get("dims"), ref.d)
    require(p.get("family") == o.family and isinstance(o.family, str), "the family is %r in the description instead of %r", p.get("family"), o.family)
    require("support" in p, "the description has no support")
    require_close(np.array(p["support"], float), ref.sup, "support in the description", 1e-9, 1e-12)
    require(np.array_equal(np.array(p["support"], float), np.asarray(o.support(), float)), "the support %s is described as %s", o.support(), p["support"])
    return text


def check(case, ctx):
    spec = case["dist"]
    o, ref = D.build(spec), D.Ref(spec)
    d, kw = describe(o, case)
    common(case, d, o, ref, kw)
    if not kw and spec["d"] == 1:
        ctx.trivial("defaults in one dimension")


def load(entries):
    import yaml
    import pandas  # noqa: F401 (imported by the benchmark)
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    path = os.path.join(os.environ["PBT_SCRATCH"], "c10.yaml")
    with open(path, "w") as f:
        yaml.safe_dump({"targets": entries}, f)
    b = CBenchmark()
    b.load_benchmark(path)
    return b


def check_gmm(case, ctx):
    spec = case["dist"]
    o, ref = D.build(spec), D.Ref(spec)
    other = D.build(case["other"])
    d, kw = describe(o, case)
    common(case, d, o, ref, kw)
    entries = [d, other.to_dict("other")]
    if case["swap"]:
        entries.reverse()
    b = load(entries)
    i = 1 if case["swap"] else 0
    require(len(b.targets) == 2, "%d targets from a file of 2", len(b.targets))
    t = b.targets[i]
    require(type(t) is type(o), "a %s is loaded as %s", type(o).__name__, type(t).__name__)
    require(t.dims == ref.d and b.ndims[i] == ref.d, "%d dimensions are loaded as %s, %s", ref.d, t.dims, b.ndims[i])
    require_close(t.support(), ref.sup, "support of the loaded distribution", 1e-12)
    for k, v in (("batch_size", b.batch_sizes), ("nsamples", b.nsamples), ("nsamples_eval", b.eval_sampl)):
        require(v[i] == d[k], "%s = %r is loaded as %r", k, d[k], v[i])
    require(t.name == d["name"], "the name %r is loaded as %r", d["name"], t.name)
    x = ref.points(case["batch"])
    for f in ("prob", "log_prob"):
        a, c = vec(getattr(o, f)(x), len(x), f), vec(getattr(t, f)(x), len(x), f)
        require_close(c, a, "%s of the loaded distribution" % f, 1e-9, 1e-300)
    want, tol = ref.logpdf(x)
    got = vec(t.log_prob(x), len(x), "log_prob")
    ok = np.abs(got - want) <= tol + 1e-9 * (1 + np.abs(want))
    require(ok.all(), "log density of the loaded distribution: %s instead of %s", got[~ok][:2].tolist(), want[~ok][:2].tolist())
    # The description of the loaded one is the same
    again = t.to_dict(**dict(kw, name=d["name"]))
    require(close_tree(again, d), "the description of the loaded distribution differs: %s, %s", again, d)
    if spec["d"] == 1 and len(spec["means"]) == 1:
        ctx.trivial("one normal")


def close_tree(a, b):
    if type(a) is dict and type(b) is dict:
        return a.keys() == b.keys() and all(close_tree(a[k], b[k]) for k in a)
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(close_tree(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return bool(close(a, b, 1e-12))
    return a == b


settings = st.fixed_dictionaries({}, optional={
    "name": st.sampled_from(["normal", "target one", "gmm_3d", "x: y", "7", "tab\tname", "É"]), "batch_size": st.integers(1, 5000),
    "nsamples": st.integers(1, 10 ** 6), "nsamples_eval": st.integers(1, 10 ** 6)})


def any_of(strategy):
    return st.fixed_dictionaries({"dist": strategy, "settings": settings, "seed": seeds})


@st.composite
def gmms(draw, dmin, dmax):
    spec = draw(D.leaf(kinds=("gmm",), dmin=dmin, dmax=dmax))
    return {"dist": spec, "other": draw(D.leaf(kinds=("gmm",), dmax=2)), "swap": draw(st.booleans()), "settings": draw(settings),
            "batch": draw(zbatch(spec["d"])), "seed": draw(seeds)}


PARTS = split("description", D.by_kind(any_of, 220), check) + \
    split("roundtrip", {"low": (gmms(1, 2), 70), "high": (gmms(3, 6), 60)}, check_gmm)
