import hypothesis.strategies as st
import numpy as np

from pbt import stats, tables
from pbt.core import Part, require
from pbt.gen import num, nums, seeds

ID = "C14"
RULE = ("A case is a history of computations with the three divergence metrics on shared density tables, in any order and on shared "
        "instances, or a history of computations from two distributions with a number of points. Non-trivial: more than one computation.")
METRICS = ["KL", "JSD", "EVMSE"]


def make(name):
    from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    return {"KL": CKLDivergence, "JSD": CJSDivergence, "EVMSE": CExpectedValueMSE}[name]()


@st.composite
def cases(draw):
    n = draw(st.integers(2, 15))
    cols = draw(st.lists(tables.column(n, 100), min_size=2, max_size=3))
    op = st.tuples(st.sampled_from(METRICS), st.integers(0, len(cols) - 1), st.integers(0, len(cols) - 1),
                   st.sampled_from(["compute", "compute", "compute", "reset", "pre", "post"]))
    return {"cols": cols, "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))], "seed": 0}


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def check(case, ctx):
    from ais_benchmarks.metrics.divergences import CKLDivergence
    logs = [tables.decode(c) for c in case["cols"]]
    n = len(logs[0])
    shared = [tables.Table(l, cache=True) for l in logs]
    x = tables.points(n)
    ms = {k: make(k) for k in METRICS}
    count = 0
    for name, i, j, what in case["ops"]:
        if name == "EVMSE" and not ((logs[i] > -np.inf).any() and (logs[j] > -np.inf).any()):
            continue
        if what != "compute":
            getattr(ms[name], what)()
            continue
        count += 1
        got = ms[name].compute_from_samples(shared[i], shared[j], x)
        fresh = make(name).compute_from_samples(tables.Table(logs[i]), tables.Table(logs[j]), tables.points(n))
        require(same(got, fresh), "%s is %r after %d computations and %r on its own", name, got, count, fresh)
        require(same(ms[name].value, got), "the value of %s is %r after a computation that gave %r", name, ms[name].value, got)
        require(np.array_equal(x, tables.points(n)), "%s changed the points", name)
        for k, (t, l) in enumerate(zip(shared, logs)):
            require(np.array_equal(t.log, l) and np.array_equal(t.p, np.exp(l)), "%s changed the densities of distribution %d", name, k)
        for other in METRICS:
            if other != name and hasattr(ms[other], "seen"):
                require(same(ms[other].value, ms[other].seen), "%s changed the value of %s", name, other)
        ms[name].seen = np.array(got, float)
    a, b = logs[0].copy(), logs[1].copy()
    CKLDivergence.compute_from_log_probs(a, b)
    require(np.array_equal(a, logs[0]) and np.array_equal(b, logs[1]), "compute_from_log_probs changed its arguments")
    a, b = np.exp(logs[0]), np.exp(logs[1])
    CKLDivergence.compute_from_probs(a, b)
    require(np.array_equal(a, np.exp(logs[0])) and np.array_equal(b, np.exp(logs[1])), "compute_from_probs changed its arguments")
    if count < 2:
        ctx.trivial("single computation")


@st.composite
def point_cases(draw):
    d = draw(st.integers(1, 3))
    lo = draw(nums(d, -20, 20))
    return {"d": d, "lo": lo, "hi": [a + draw(num(0.1, 30)) for a in lo],
            "ops": [list(o) for o in draw(st.lists(st.tuples(st.sampled_from(METRICS), st.one_of(st.sampled_from([1, 2, 50, 400, 400]), st.integers(50, 900), st.integers(1, 30000)), st.sampled_from([0, 0, 3, -50]), st.sampled_from([1, 1, 0.2, 5])),
                                                   min_size=1, max_size=4))],
            "seed": draw(seeds)}


class Law:
    def __init__(self, d, lo, hi, c, log):
        self.dims, self.lo, self.hi, self.c, self.log = d, np.array(lo), np.array(hi), c, log

    def support(self):
        return np.array([self.lo, self.hi])

    def log_prob(self, x):
        self.log.append(np.array(x))
        return -0.5 * np.sum(((x - self.lo) / (self.hi - self.lo) - self.c) ** 2, axis=1)

    def prob(self, x):
        return np.exp(self.log_prob(x))


def check_points(case, ctx):
    d = case["d"]
    used = 0
    ms = {k: make(k) for k in METRICS}
    for name, n, shift, wide in case["ops"]:
        seen_p, seen_q = [], []
        lo, hi = [v + shift for v in case["lo"]], [v + shift + (wide - 1) * (v - u) for v, u in zip(case["hi"], case["lo"])]
        p = Law(d, lo, hi, 0.3, seen_p)
        q = Law(d, [v - 7 for v in lo], [v + 5 for v in hi], 0.8, seen_q)
        m = ms[name]
        v = m.compute(p=p, q=q, nsamples=n)
        require(seen_p and seen_q, "%s did not evaluate the distributions", name)
        # The points may be evaluated in pieces, several times each
        blocks = []
        for who, seen in (("p", seen_p), ("q", seen_q)):
            y = np.vstack(seen)
            require(y.ndim == 2 and y.shape[1] == d and len(y) and len(y) % n == 0, "%s used %d points of shape %s for nsamples=%d in %d dimensions", name, len(y), y.shape[1:], n, d)
            blocks += list(y.reshape(-1, n, d))
        x = blocks[0]
        for y in blocks:
            require(np.array_equal(x, y), "%s evaluated the distributions at different points", name)
        require(np.all(x >= p.lo) and np.all(x <= p.hi), "%s used points outside of the support", name)
        u = (x - p.lo) / (p.hi - p.lo)
        for i in range(d):
            if n >= 50:
                stats.require_uniform(u[:, i], "points of %s in dimension %d" % (name, i))
            for j in range(i):
                if n >= 400:
                    stats.require_uniform((u[:, i] - u[:, j]) % 1, "points of %s in dimensions %d and %d" % (name, i, j))
        require(same(m.value, v), "the value of %s is %r after a computation that gave %r", name, m.value, v)
        require(same(v, make(name).compute_from_samples(Law(d, lo, hi, 0.3, []), q, x.copy())), "%s from distributions is not that of its points", name)
        used += n > 1
    if not used:
        ctx.trivial("single point")


PARTS = [Part("histories", cases(), check, 300), Part("points", point_cases(), check_points, 200)]
