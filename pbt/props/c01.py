import hypothesis.strategies as st
import numpy as np

from pbt import dists
from pbt.core import Part, Skip, split, require, vec
from pbt.gen import zbatch

ID = "C01"
RULE = ("A case is a distribution with generated parameters and a batch of points in its units. Non-trivial: some point has "
        "a positive, representable density, or lies outside of the range of the distribution.")
ASSUMPTIONS = ["Points are at least 1e-7 (relative) away from the limits of a bounded range."]


def compare(dist, ref, x, ctx):
    want, tol = ref.logpdf(x)
    lp = vec(dist.log_prob(x.copy()), len(x), "log_prob")
    p = vec(dist.prob(x.copy()), len(x), "prob")
    out = ~ref.inside(x)
    if ref.t in ("delta",):
        out = want == -np.inf
    seen = False
    with np.errstate(all="ignore"):
        wp = np.exp(want)
    for i in range(len(x)):
        if out[i]:
            ctx.label("outside")
            seen = True
        if not np.isfinite(want[i]):
            require(lp[i] == want[i], "log_prob of %s is %r, expected %r", x[i].tolist(), lp[i], want[i])
            require(p[i] == wp[i], "prob of %s is %r, expected %r", x[i].tolist(), p[i], wp[i])
            continue
        require(abs(lp[i] - want[i]) <= tol[i], "log_prob of %s is %r, expected %r", x[i].tolist(), lp[i], want[i])
        if wp[i] > 1e-290:
            seen = True
            require(abs(p[i] - wp[i]) <= wp[i] * np.expm1(min(2 * tol[i], 1.0)), "prob of %s is %r, expected %r", x[i].tolist(), p[i], wp[i])
        else:
            require(0 <= p[i] <= 1e-280, "prob of %s is %r, expected %r", x[i].tolist(), p[i], wp[i])
    if not seen:
        ctx.trivial("no point with density")


FAR = {"normal": [1e3, 1e5, 1e7], "gmm": [1e3, 1e5, 1e7], "uniform": [1e3]}


def far(spec, k):
    """The same law, centered at k times its scale."""
    by = k * dists.Ref(spec).scale
    move = lambda v: (np.array(v, float) + by).tolist()
    return dict(spec, **{q: move(spec[q]) for q in ("mean", "center", "means", "support") if q in spec})


@st.composite
def cases(draw, specs):
    spec = draw(specs)
    if spec["t"] in FAR and draw(st.integers(0, 4)) == 0:
        spec = far(spec, draw(st.sampled_from(FAR[spec["t"]])) * draw(st.sampled_from([1, -1])))
    case = {"dist": spec, "batch": draw(zbatch(spec["d"])), "seed": 0}
    if draw(st.integers(0, 6)) == 0:
        case["whole"] = draw(st.sampled_from(["int64", "int64", "int32"]))
    return case


def check(case, ctx):
    ref = dists.Ref(case["dist"])
    ctx.label(ref.t, "d%d" % ref.d)
    x = ref.points(case["batch"])
    if "whole" in case:                                   # the same points, given as numbers of another type
        x = np.round(np.clip(x, -1e6, 1e6))
        clear = np.ones(len(x), bool)
        for i, edges in enumerate(ref.edges()):
            for e in edges:
                clear &= np.abs(x[:, i] - e) > 1e-6 * (1 + abs(e))
        x = x[clear]
        if not len(x):
            raise Skip("no whole point away from the limits")
        ctx.label(case["whole"])
        with np.errstate(all="ignore"):
            given = x.astype(case["whole"])
        dist = dists.build(case["dist"])
        return compare(Given(dist, given), ref, x, ctx)
    compare(dists.build(case["dist"]), ref, x, ctx)


class Given:
    """A distribution that is asked about points of another type."""

    def __init__(self, dist, x):
        self.dist, self.x = dist, x

    def log_prob(self, x):
        return self.dist.log_prob(self.x.copy())

    def prob(self, x):
        return self.dist.prob(self.x.copy())


@st.composite
def delta_cases(draw):
    spec = draw(dists.delta())
    d = spec["d"]
    moves = draw(st.lists(st.lists(st.sampled_from([0, 0, 0, 1, -1, 0.01, -0.01, 1000]), min_size=d, max_size=d), min_size=1, max_size=6))
    return {"dist": spec, "moves": moves, "seed": 0}


def check_delta(case, ctx):
    ref = dists.Ref(case["dist"])
    c = ref.loc
    x = np.array([[v + m * (1 + abs(v)) for v, m in zip(c, r)] for r in case["moves"]], float)
    compare(dists.build(case["dist"]), ref, x, ctx)
    ctx.label("at the center" if any(not any(r) for r in case["moves"]) else "off the center")


KINDS = [k for k in sorted(set(dists.LEAF))] + ["mixture"]
WIDE = ("normal", "normal", "uniform", "exponential", "gmm")
PARTS = split("density", dists.by_kind(cases, 1000, KINDS), check) + [Part("wide", cases(dists.leaf(kinds=WIDE, dmin=7, dmax=14)), check, 70)] + [Part("delta", delta_cases(), check_delta, 150)]
