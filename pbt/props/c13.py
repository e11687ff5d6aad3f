import math

import hypothesis.strategies as st
import numpy as np

from pbt import dists, tables
from pbt.core import Part, require
from pbt.gen import num, nums, rows, seeds
from pbt.props.c11 import real_cases, real_points

ID = "C13"
RULE = ("A case is a batch of points in 1 to 4 dimensions with two density tables of any scale, or two distributions of the "
        "library. Non-trivial: the two means differ by more than the tolerance.")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 20))
    d = draw(st.integers(1, 4))
    col = st.lists(st.one_of(num(-3, 3), num(-3, 3), num(-100, 100), st.just(tables.NEG)), min_size=n, max_size=n)
    p, q = draw(col), draw(col)
    p[0], q[-1] = 0.25, -0.5
    s = draw(st.sampled_from([1, 1, 1e-3, 1e3]))
    return {"x": [[v * s for v in r] for r in draw(rows(n, d, -5, 5))], "p": p, "q": q, "scale": [draw(num(-50, 50)), draw(num(-50, 50))],
            "shift": [v * s for v in draw(nums(d, -5, 5))], "order": draw(seeds), "seed": 0}


@st.composite
def many(draw):
    """Many points, from a seed."""
    n, d = draw(st.integers(200, 4000)), draw(st.integers(1, 4))
    cols = [{"n": n, "seed": draw(seeds), "spread": draw(st.sampled_from([0.5, 3.0, 10.0])), "zeros": draw(st.sampled_from([0.0, 0.0, 0.5]))} for _ in range(2)]
    return {"x": {"n": n, "d": d, "seed": draw(seeds), "at": draw(nums(d, -100, 100)), "scale": draw(st.sampled_from([1, 1, 1e-3, 1e3]))}, "p": cols[0], "q": cols[1],
            "scale": [draw(num(-50, 50)), draw(num(-50, 50))], "shift": draw(nums(d, -5, 5)), "order": draw(seeds), "seed": 0}


class At:
    """Densities attached to the rows of a batch, recognised by their position."""

    def __init__(self, x, log):
        self.log = {r.tobytes(): l for r, l in zip(np.ascontiguousarray(x), log)}
        self.dims = x.shape[1]

    def log_prob(self, x):
        return np.array([self.log[r.tobytes()] for r in np.ascontiguousarray(x)])

    def prob(self, x):
        return np.exp(self.log_prob(x))


def evmse(x, lp, lq):
    a, b = np.exp(tables.normalized(lp)), np.exp(tables.normalized(lq))
    d = [math.fsum(a * x[:, i]) - math.fsum(b * x[:, i]) for i in range(x.shape[1])]
    return math.fsum(v * v for v in d), max(abs(v) for v in d)


def near(v, want, diff, scale, what, n):
    v = np.asarray(v, float)
    require(v.size == 1, "%s has %d values", what, v.size)
    err = 1e-12 * scale * (1 + n)
    require(abs(float(v.reshape(-1)[0]) - want) <= 8 * (diff * err + err * err) + 1e-9 * want, "%s is %r, expected %r", what, v, want)


def check(case, ctx):
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    x = case["x"]
    if isinstance(x, dict):
        x = x["scale"] * (np.array(x["at"]) + np.random.RandomState(x["seed"] % 2 ** 32).normal(size=(x["n"], x["d"])))
    x = np.array(x, float)
    # Equal points have equal densities
    first = {}
    idx = [first.setdefault(r.tobytes(), i) for i, r in enumerate(x)]
    lp, lq = tables.decode(case["p"])[idx], tables.decode(case["q"])[idx]
    if not ((lp > -np.inf).any() and (lq > -np.inf).any()):
        ctx.trivial("no mass")
        return
    n = len(x)
    want, diff = evmse(x, lp, lq)
    m = CExpectedValueMSE()
    scale = np.max(np.abs(x)) + np.max(np.abs(case["shift"]))
    f = lambda y, a, b: m.compute_from_samples(At(y, a), At(y, b), y)
    near(f(x, lp, lq), want, diff, scale, "EVMSE", n)
    near(f(x, lq, lp), want, diff, scale, "EVMSE of the densities exchanged", n)
    perm = np.random.RandomState(case["order"] % 2 ** 32).permutation(n)
    near(f(x[perm], lp[perm], lq[perm]), want, diff, scale, "EVMSE of reordered points", n)
    a, b = case["scale"]
    near(f(x, lp + a, lq + b), want, diff, scale, "EVMSE of scaled densities", n)
    near(f(x, lp, lp + a), 0.0, 0.0, scale, "EVMSE of proportional densities", n)
    y = x + np.array(case["shift"])
    if len({r.tobytes() for r in y}) == len(first):
        near(f(y, lp, lq), want, diff, scale, "EVMSE of translated points", n)
    if want <= 1e-9 * scale * scale:
        ctx.trivial("equal means")


def check_real(case, ctx):
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    rp, rq, x = real_points(case)
    if not len(x):
        ctx.trivial("no points")
        return
    (lp, tp), (lq, tq) = rp.logpdf(x), rq.logpdf(x)
    if not ((lp > -600).any() and (lq > -600).any()):
        ctx.trivial("no mass")
        return
    want, diff = evmse(x, lp, lq)
    v = CExpectedValueMSE().compute_from_samples(dists.build(case["p"]), dists.build(case["q"]), x.copy())
    tol = 1e2 * (np.max(tp[np.isfinite(lp)], initial=0) + np.max(tq[np.isfinite(lq)], initial=0)) + 1e-11
    scale = np.max(np.abs(x))
    v = float(np.asarray(v).reshape(-1)[0])
    require(abs(v - want) <= tol * scale * (diff + tol * scale) + 1e-9 * want, "EVMSE of two distributions is %r, expected %r", v, want)


PARTS = [Part("many", many(), check, 25), Part("tables", cases(), check, 500), Part("distributions", real_cases(), check_real, 150)]
