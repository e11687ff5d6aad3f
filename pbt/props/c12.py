import hypothesis.strategies as st
import numpy as np

from pbt import dists, tables
from pbt.core import Part, require
from pbt.gen import num, seeds
from pbt.props.c11 import real_cases, real_points

ID = "C12"
RULE = ("A case is a pair of density tables (with zeros, extreme ratios, proportional, disjoint) or a pair of distributions of the "
        "library with a batch of points. Non-trivial: some point has both densities positive.")


@st.composite
def cases(draw):
    c = draw(tables.pair())
    c.update(scale=[draw(num(-50, 50)), draw(num(-50, 50))], order=draw(seeds), cache=draw(st.booleans()), seed=0)
    return c


def check(case, ctx):
    from ais_benchmarks.metrics.divergences import CJSDivergence
    lp, lq = tables.decode(case["p"]), tables.decode(case["q"])
    n = len(lp)
    want = tables.jsd(lp, lq)
    x = tables.points(n)
    T = lambda l: tables.Table(l, case["cache"])
    m = CJSDivergence()

    def js(p, q, pts, target, what):
        v = float(m.compute_from_samples(T(p), T(q), pts))
        require(-1e-9 <= v <= 1 + 1e-9, "%s is %r, not between 0 and 1", what, v)
        require(abs(v - target) <= 1e-9, "%s is %r, expected %r", what, v, target)

    js(lp, lq, x, want, "JSD")
    js(lq, lp, x, want, "JSD of the densities exchanged")
    perm = np.random.RandomState(case["order"] % 2 ** 32).permutation(n)
    js(lp, lq, x[perm], want, "JSD of reordered points")
    a, b = case["scale"]
    js(lp + a, lq + b, x, want, "JSD of scaled densities")
    js(lp, lp + a, x, 0.0 if (lp > -np.inf).any() else 1.0, "JSD of proportional densities")
    both = (lp > -np.inf) & (lq > -np.inf)
    ctx.label("disjoint" if not both.any() else "some zero" if not both.all() else "all positive", "small" if want < 1e-3 else "large")
    if not both.any():
        ctx.trivial("disjoint")


def check_real(case, ctx):
    from ais_benchmarks.metrics.divergences import CJSDivergence
    rp, rq, x = real_points(case)
    if not len(x):
        ctx.trivial("no points")
        return
    (lp, tp), (lq, tq) = rp.logpdf(x), rq.logpdf(x)
    # Densities that cannot be represented count as zero
    lp, lq = [np.where(l < -740, -np.inf, l) for l in (lp, lq)]
    if np.any((lp > -np.inf) & (lp < -700)) or np.any((lq > -np.inf) & (lq < -700)):
        ctx.trivial("densities at the limit of the representation")
        return
    want = tables.jsd(lp, lq)
    v = float(CJSDivergence().compute_from_samples(dists.build(case["p"]), dists.build(case["q"]), x.copy()))
    tol = 1e-9 + 10 * (np.max(tp[np.isfinite(lp)], initial=0) + np.max(tq[np.isfinite(lq)], initial=0))
    require(abs(v - want) <= tol, "JSD of two distributions is %r, expected %r", v, want)
    if not ((lp > -np.inf) & (lq > -np.inf)).any():
        ctx.trivial("disjoint")


PARTS = [Part("tables", cases(), check, 700), Part("distributions", real_cases(), check_real, 200)]
