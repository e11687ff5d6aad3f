import hypothesis.strategies as st
import numpy as np

from pbt import dists, stats
from pbt.core import Part, require, require_close, vec
from pbt.gen import num, nums, seeds, zbatch

ID = "C05"
RULE = ("A case is a list of components and a history of weight vectors, some with NaN, negative or zero entries; the density is "
        "compared after every update. Non-trivial: more than one component, and an update or a weight that has to be sanitized.")

weight = st.one_of(num(0.01, 5), num(0.01, 5), num(0.01, 5), st.sampled_from([0.0, 0, -1.0, -0.5, 1, 2, float("nan"), 1e-9, 1e-100, 1e80, -1e80, -0.0]))


def vectors(k):
    bad = st.sampled_from([0.0, -1.0, float("nan")])
    return st.one_of(st.lists(weight, min_size=k, max_size=k), st.lists(weight, min_size=k, max_size=k),
                     st.lists(bad, min_size=k, max_size=k))


def encode(w):
    return ["nan" if v != v else v for v in w]


def decode(w):
    return [float("nan") if v == "nan" else v for v in w]


def reference(w):
    w = np.array(w, float)
    w = np.where(np.isnan(w) | (w < 0), 0.0, w)
    return w / w.sum() if w.sum() > 0 else np.ones(len(w)) / len(w)


@st.composite
def cases(draw, apart):
    if apart:
        d = draw(st.integers(1, 3))
        k = draw(st.integers(1, 5))
        models = [{"t": "uniform", "d": d, "form": "array", "center": [3.0 * i] * d, "radius": [draw(num(0.2, 1))] * d} for i in range(k)]
        m = {"t": "mixture", "d": d, "models": models, "support": [[-2.0] * d, [20.0] * d], "form": "array"}
    else:
        m = draw(dists.mixture(kinds=("normal", "uniform", "exponential", "gmm", "normal"), kmax=5))
        k, d = len(m["models"]), m["d"]
    m["weights"] = []
    hist = draw(st.lists(vectors(k).map(encode), min_size=1, max_size=5))
    return {"mix": m, "weights": hist, "forms": draw(st.lists(st.sampled_from(["array", "list", "same"]), min_size=len(hist), max_size=len(hist))),
            "batch": draw(zbatch(d, nmax=5, extra=7)), "seed": draw(seeds)}


def check(case, ctx):
    import ais_benchmarks.distributions as D
    m = case["mix"]
    if "many" in case:
        m = dict(m, models=crowd(case["many"], m["d"]))
    parts = [dists.build(s) for s in m["models"]]
    refs = [dists.Ref(s) for s in m["models"]]
    whole = dists.Ref(dict(m, weights=[1.0] * len(parts)))
    x = np.vstack([whole.points(case["batch"])] + [r.points({"z": [[0.3] * m["d"], [-0.45] * m["d"]]}) for r in refs])
    x = whole.points({"z": ((x - whole.loc) / whole.scale).tolist()})
    parts_at = [r.logpdf(x) for r in refs]
    each = np.exp(np.array([v[0] for v in parts_at]))
    logtol = np.max([np.where(np.isfinite(v[0]), v[1], 0) for v in parts_at], axis=0)
    dist = None
    given = None
    odd = False
    for w, form in zip(case["weights"], case["forms"]):
        w = np.resize(np.array(decode(w), float), len(parts)).tolist()
        if form == "same" and dist is not None:                  # the object given before, with other values
            given[:] = w
        else:
            given = list(w) if form == "list" else np.array(w, float)
        keep = np.array(given, float)
        if dist is None:
            dist = D.CMixtureModel({"models": parts, "weights": given, "dims": m["d"], "support": m["support"]})
        else:
            dist.set_weights(given)
        require_close(np.array(given, float), keep, "the caller's weights after the update", 0, 0)
        if isinstance(given, np.ndarray):
            given *= 0.5
            given[0] += 7.0
        ref = reference(keep)
        odd = odd or bool(np.any(~(keep > 0)))
        ctx.label("all replaced" if not np.any(keep > 0) else "some replaced" if np.any(~(keep > 0)) else "valid")
        want = ref @ each
        got = vec(dist.prob(x.copy()), len(x), "prob")
        tol = 1e-7
        require(not np.isnan(got).any(), "the density is NaN with weights %s", w[:9])
        bad = np.abs(got - want) > tol * want + 1e-280
        require(not bad.any(), "density %s, expected %s with weights %s", got[bad][:3].tolist(), want[bad][:3].tolist(), w[:9])
        lgot = vec(dist.log_prob(x.copy()), len(x), "log_prob")
        with np.errstate(all="ignore"):
            lwant = np.log(want)
        ok = np.where(want > 1e-250, np.abs(lgot - lwant) <= 1e-9 * (1 + np.abs(lwant)) + logtol, True) & np.where(want == 0, (lgot < -500), True)
        require(ok.all(), "log density %s, expected %s with weights %s", lgot[~ok][:3].tolist(), lwant[~ok][:3].tolist(), w[:9])
    n = 300
    s = dist.sample(n)
    require(s.shape == (n, m["d"]), "sample has shape %s", s.shape)
    if "many" not in case and all(q["t"] == "uniform" and q["center"][0] == 3.0 * i and q["radius"][0] <= 1 for i, q in enumerate(m["models"])):
        k = np.floor((s[:, 0] + 1.5) / 3).astype(int)
        freq = np.bincount(k, minlength=len(parts)) / n
        for i in range(len(parts)):
            require(freq[i] == 0 if ref[i] == 0 else True, "samples of component %d, whose weight is 0", i)
            require(abs(freq[i] - ref[i]) <= stats.hoeffding(n), "%.3f of the samples from component %d of weight %.3f", freq[i], i, ref[i])
    if len(parts) < 2 or not (odd or len(case["weights"]) > 1):
        ctx.trivial("single component or single valid weights")


def crowd(many, d):
    """Many components, from a seed."""
    rng = np.random.RandomState(many["seed"] % 2 ** 32)
    out = []
    for _ in range(many["k"]):
        mean = rng.normal(0, 3, d)
        if rng.uniform() < 0.5:
            out.append({"t": "normal", "d": d, "form": "array", "mean": mean.tolist(), "cov": np.diag(rng.uniform(0.05, 2, d)).tolist()})
        else:
            out.append({"t": "uniform", "d": d, "form": "array", "center": mean.tolist(), "radius": rng.uniform(0.3, 3, d).tolist()})
    return out


@st.composite
def crowds(draw):
    d = draw(st.integers(1, 3))
    hist = draw(st.lists(st.integers(1, 30).flatmap(vectors).map(encode), min_size=1, max_size=3))
    return {"mix": {"t": "mixture", "d": d, "support": [[-8.0] * d, [9.0] * d], "form": "array"},
            "many": {"k": draw(st.integers(6, 300)), "seed": draw(seeds)}, "weights": hist,
            "forms": draw(st.lists(st.sampled_from(["array", "list", "same"]), min_size=len(hist), max_size=len(hist))),
            "batch": draw(zbatch(d, nmax=5, extra=7)), "seed": draw(seeds)}


PARTS = [Part("many", crowds(), check, 40), Part("apart", cases(True), check, 200), Part("any", cases(False), check, 300)]
