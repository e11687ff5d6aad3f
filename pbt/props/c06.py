import hypothesis.strategies as st
import numpy as np

from pbt import dists, stats
from pbt.core import Part, fail, require, vec
from pbt.gen import num, nums, seeds, zbatch

ID = "C06"
RULE = ("A case is a normal or exponential distribution and a history of updates (valid, and for the normal also invalid "
        "covariances) with evaluations after each. Non-trivial: at least two updates.")
ASSUMPTIONS = ["The support is that of the construction; updates do not move it."]


@st.composite
def normal(draw, d):
    s = draw(st.sampled_from([1, 1, 0.05, 20]))
    return {"t": "normal", "d": d, "form": "array", "mean": [v * s for v in draw(nums(d, -5, 5))],
            "cov": dists._cov(draw(nums(d, 0.3, 2)), draw(nums(d * (d - 1) // 2, -1, 1)), s)}


@st.composite
def exponential(draw, d):
    return {"t": "exponential", "d": d, "form": "array", "mean": draw(nums(d, 0.05, 8))}


@st.composite
def cases(draw, kind):
    d = draw(st.integers(1, 4))
    spec = normal(d) if kind == "normal" else exponential(d)
    ops = [st.tuples(st.just("set"), spec), st.tuples(st.just("same"), spec)]
    # A move that is small against the scale
    ops += [st.tuples(st.just("nudge"), st.tuples(nums(d, -1, 1), st.sampled_from([1e-5, 1e-6, 3e-7, 1e-8])))]
    if kind == "normal":
        ops += [st.tuples(st.just("same cov"), spec), st.tuples(st.just("set"), spec), st.tuples(st.just("bad"), st.tuples(spec, st.sampled_from(["negative", "singular", "shape", "row"])))]
    return {"first": draw(spec), "ops": [list(o) for o in draw(st.lists(st.one_of(ops), min_size=1, max_size=6))],
            "batch": draw(zbatch(d, nmax=4, extra=7)), "seed": draw(seeds)}


def same(dist, spec, batch, when):
    ref = dists.Ref(spec)
    x = ref.points(batch)
    fresh = dists.build(spec)
    want, tol = ref.logpdf(x)
    for q in ("log_prob", "prob"):
        a, b = vec(getattr(dist, q)(x.copy()), len(x), q), vec(getattr(fresh, q)(x.copy()), len(x), q)
        with np.errstate(all="ignore"):
            t = tol if q == "log_prob" else np.abs(b) * np.expm1(np.minimum(2 * tol, 1)) + 1e-290
            ok = (a == b) | (np.abs(a - b) <= 2 * t)
        require(ok.all(), "%s %s: %s, a new distribution gives %s", q, when, a[~ok][:3].tolist(), b[~ok][:3].tolist())
    with np.errstate(all="ignore"):
        lp = dist.log_prob(x.copy())
        ok = (lp == want) | (np.abs(lp - want) <= 2 * tol)
    require(ok.all(), "log_prob %s: %s, expected %s", when, lp[~ok][:3].tolist(), want[~ok][:3].tolist())


def tight(dist, spec, when):
    """Far points, where a small difference of the parameters shows."""
    ref = dists.Ref(spec)
    z = np.array([[(60.0 if (i >> j) & 1 else 35.0) * (1 if spec["t"] != "normal" or i < 4 else -1) for j in range(ref.d)] for i in range(8)])
    x = ref.points({"z": z.tolist()})
    got, want = dist.log_prob(x.copy()), dists.build(spec).log_prob(x.copy())
    tol = 1e-11 * (1 + np.abs(want)) * getattr(ref, "cond", 1.0)
    bad = np.isfinite(want) & ~(np.abs(got - want) <= tol)
    require(not bad.any(), "log_prob %s: %s, a new distribution gives %s", when, got[bad][:3].tolist(), want[bad][:3].tolist())


def update(dist, spec, cov=None, into=None):
    """into: the arrays given before, which are given again with other values. Returns the arrays."""
    mean = np.array(spec["mean"], float)
    cov = np.array(spec["cov"] if cov is None else cov, float) if spec["t"] == "normal" else None
    for i, v in enumerate((mean, cov)):
        if into and into[i] is not None:
            into[i][...] = v
            mean, cov = (into[0], cov) if i == 0 else (mean, into[1])
    dist.set_moments(*([mean] if cov is None else [mean, cov]))
    return mean, cov


def broken(spec, how):
    c = np.array(spec["cov"])
    d = len(c)
    if how == "negative":
        c[0] *= -1
    elif how == "singular":
        c[0, :] = 0
        c[:, 0] = 0
    elif how == "shape":
        c = np.eye(d + 1)
    elif how == "row":
        c = c[: d - 1] if d > 1 else np.ones((1, 2))
    return c


def check(case, ctx):
    spec = case["first"]
    dist = dists.build(spec)
    same(dist, spec, case["batch"], "after construction")
    given = None
    for i, (op, a) in enumerate(case["ops"]):
        if op == "set" or op.startswith("same"):
            spec = a
            given = update(dist, spec, into=(given if op == "same" else (None, given[1])) if given and op != "set" else None)
            ctx.label("update" if op == "set" else "update with the same arrays")
        elif op == "nudge":
            by = np.array(a[0]) * a[1]
            scale = np.sqrt(np.diag(spec["cov"])) if spec["t"] == "normal" else np.array(spec["mean"])
            spec = dict(spec, mean=(np.array(spec["mean"]) + by * scale).tolist())
            update(dist, spec)
            ctx.label("small update")
            tight(dist, spec, "after update %d (%s)" % (i + 1, op))
        else:
            try:
                update(dist, a[0], broken(a[0], a[1]))
            except Exception:
                ctx.label("rejected " + a[1])
            else:
                fail("a covariance with defect '%s' was accepted", a[1])
        same(dist, spec, case["batch"], "after update %d (%s)" % (i + 1, op))
    n = 600
    x = dist.sample(n)
    require(x.shape == (n, spec["d"]), "sample has shape %s", x.shape)
    u = dists.rosenblatt(dists.Ref(spec), x)
    for i in range(spec["d"]):
        stats.require_uniform(u[:, i], "dimension %d of the samples after the updates" % i)
    if len(case["ops"]) < 2:
        ctx.trivial("single update")


PARTS = [Part("normal", cases("normal"), check, 300), Part("exponential", cases("exponential"), check, 120)]
