"""Distributions given by a table of log densities, for the metrics."""
import hypothesis.strategies as st
import numpy as np

from pbt.gen import num, seeds

NEG = "-inf"


def column(n, r=300):
    """Log densities, some of them of zero density."""
    kinds = [num(-3, 3), num(-3, 3), num(-3, 3), num(-r, r)]
    return st.one_of(
        st.lists(st.one_of(kinds), min_size=n, max_size=n),
        st.lists(num(-2, 2), min_size=n, max_size=n),
        st.lists(st.one_of(kinds + [st.just(NEG)]), min_size=n, max_size=n),
        st.lists(st.one_of(num(-2, 2), st.just(NEG), st.just(NEG)), min_size=n, max_size=n))


@st.composite
def pair(draw, nmax=25):
    n = draw(st.integers(1, nmax))
    p = draw(column(n))
    kind = draw(st.sampled_from(["free", "free", "free", "disjoint", "scaled", "near", "few", "many"]))
    if kind == "disjoint":
        q = [0.5 if v == NEG else NEG for v in p]
    elif kind == "scaled":
        c = draw(num(-100, 100))
        q = [v if v == NEG else v + c for v in p]
    elif kind == "near":
        q = [v if v == NEG else v + draw(num(-0.01, 0.01)) for v in p]
    elif kind == "few":
        # Many points, hardly any of them with density
        n = draw(st.integers(11, 40))
        at = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
        p, q = [NEG] * n, [NEG] * n
        for i in at:
            p[i], q[i] = draw(num(-3, 3)), draw(num(-3, 3))
        for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            q[i] = draw(num(-3, 3))
    elif kind == "many":
        n = draw(st.integers(300, 3000))
        p, q = [{"n": n, "seed": draw(seeds), "spread": draw(st.sampled_from([0.5, 3.0, 3.0, 30.0])), "zeros": draw(st.sampled_from([0.0, 0.0, 0.3, 0.9]))} for _ in range(2)]
    else:
        q = draw(column(n))
    return {"p": p, "q": q}


def decode(col):
    if isinstance(col, dict):                             # many points, from a seed
        rng = np.random.RandomState(col["seed"] % 2 ** 32)
        out = col["spread"] * rng.normal(size=col["n"])
        return np.where(rng.uniform(size=col["n"]) < col["zeros"], -np.inf, out)
    return np.array([-np.inf if v == NEG else float(v) for v in col])


class Table:
    """A distribution over the points 0 .. n-1, times a step. Hands out its own arrays, as a cached density would."""

    def __init__(self, log, cache=False):
        self.log = np.array(log, float)
        with np.errstate(all="ignore"):
            self.p = np.exp(self.log)
        self.cache = cache
        self.dims = 1
        self.calls = 0

    def _at(self, arr, x):
        self.calls += 1
        i = np.round(np.asarray(x)[:, 0]).astype(int)
        if self.cache and np.array_equal(i, np.arange(len(arr))):
            return arr
        return arr[i].copy()

    def log_prob(self, x):
        return self._at(self.log, x)

    def prob(self, x):
        return self._at(self.p, x)

    def support(self):
        return np.array([[0.0], [float(len(self.log) - 1)]])


def points(n):
    return np.arange(n, dtype=float).reshape(n, 1)


def normalized(log):
    m = np.max(log)
    w = np.exp(log - m)
    return log - m - np.log(w.sum())


def kl(lp, lq):
    """Reference divergence (nats) over the points where both are positive, and the magnitude of its terms."""
    both = (lp > -np.inf) & (lq > -np.inf)
    if not both.any():
        return np.inf, 0.0
    a, b = normalized(lp[both]), normalized(lq[both])
    terms = np.exp(a) * (a - b)
    import math
    return math.fsum(terms), math.fsum(np.exp(a) * (np.abs(a) + np.abs(b) + np.max(np.abs(lp[both])) + np.max(np.abs(lq[both]))))


def jsd(lp, lq):
    import math
    if not ((lp > -np.inf) & (lq > -np.inf)).any():
        return 1.0
    a, b = np.exp(normalized(lp)), np.exp(normalized(lq))
    out = []
    for x, y in zip(a, b):
        m = (x + y) / 2
        out += [v * math.log2(v / m) / 2 for v in (x, y) if v > 0 and m > 0]
    return math.fsum(out)
