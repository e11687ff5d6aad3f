import hypothesis.strategies as st
import numpy as np

from pbt import dists, tables
from pbt.core import Part, require, split
from pbt.gen import num, seeds, zbatch

ID = "C11"
RULE = ("A case is a pair of density tables (with zeros, extreme ratios, proportional, disjoint) or a pair of distributions of the "
        "library with a batch of points. Non-trivial: some point has both densities positive.")


def close(v, want, mag, what):
    v = float(v)
    if want == np.inf:
        require(v == np.inf, "%s is %r, expected inf", what, v)
    else:
        require(abs(v - want) <= 1e-10 * (1 + mag), "%s is %r, expected %r", what, v, want)


@st.composite
def cases(draw):
    c = draw(tables.pair())
    c.update(scale=[draw(num(-50, 50)), draw(num(-50, 50))], order=draw(seeds), cache=draw(st.booleans()), seed=0)
    return c


def check(case, ctx):
    from ais_benchmarks.metrics.divergences import CKLDivergence
    lp, lq = tables.decode(case["p"]), tables.decode(case["q"])
    n = len(lp)
    want, mag = tables.kl(lp, lq)
    x = tables.points(n)
    T = lambda l: tables.Table(l, case["cache"])
    m = CKLDivergence()
    close(m.compute_from_samples(T(lp), T(lq), x), want, mag, "KL")
    require(want >= -1e-10 * (1 + mag), "negative reference")
    perm = np.random.RandomState(case["order"] % 2 ** 32).permutation(n)
    close(m.compute_from_samples(T(lp), T(lq), x[perm]), want, mag, "KL of reordered points")
    a, b = case["scale"]
    close(m.compute_from_samples(T(lp + a), T(lq + b), x), want, mag + 100, "KL of scaled densities")
    close(m.compute_from_samples(T(lp), T(lp + a), x), 0.0 if (lp > -np.inf).any() else np.inf, mag + 100, "KL of proportional densities")
    close(np.sum(CKLDivergence.compute_from_log_probs(lp.copy(), lq.copy())), want, mag, "KL from log probabilities")
    close(np.sum(CKLDivergence.compute_from_probs(np.exp(lp), np.exp(lq))), want, mag, "KL from probabilities")
    both = (lp > -np.inf) & (lq > -np.inf)
    ctx.label("disjoint" if not both.any() else "some zero" if not both.all() else "all positive", "small" if want < 1e-3 else "large")
    if not both.any():
        ctx.trivial("disjoint")


@st.composite
def real_cases(draw):
    d = draw(st.integers(1, 3))
    s = st.one_of(dists.leaf(d=d), dists.leaf(d=d, kinds=("normal", "gmm")))
    return {"p": draw(s), "q": draw(s), "batch": draw(zbatch(d, nmax=10, extra=60)), "seed": 0}


def real_points(case):
    rp, rq = dists.Ref(case["p"]), dists.Ref(case["q"])
    x = np.vstack([rp.points(case["batch"]), rq.points(case["batch"])])
    for r in (rp, rq):
        x = r.points({"z": ((x - r.loc) / r.scale).tolist()})
    for r in (rp, rq):       # the edges of either
        for i, es in enumerate(r.edges()):
            for e in es:
                x = x[np.abs(x[:, i] - e) > 1e-8 * (r.scale[i] + abs(e))]
    x = x[(np.abs(x - rp.loc) <= 20 * rp.scale).all(axis=1) | (np.abs(x - rq.loc) <= 20 * rq.scale).all(axis=1)]
    return rp, rq, x


def check_real(case, ctx):
    from ais_benchmarks.metrics.divergences import CKLDivergence
    rp, rq, x = real_points(case)
    if not len(x):
        ctx.trivial("no points")
        return
    (lp, tp), (lq, tq) = rp.logpdf(x), rq.logpdf(x)
    want, mag = tables.kl(lp, lq)
    v = CKLDivergence().compute_from_samples(dists.build(case["p"]), dists.build(case["q"]), x.copy())
    close(v, want, mag + 1e4 * (np.max(tp[np.isfinite(lp)], initial=0) + np.max(tq[np.isfinite(lq)], initial=0)) * (1 + mag), "KL of two distributions")
    if want == np.inf:
        ctx.trivial("disjoint")


PARTS = [Part("tables", cases(), check, 700), Part("distributions", real_cases(), check_real, 200)]
