"""Distributions: JSON descriptions, the objects of the repository built from them, and independent reference laws."""
import math

import hypothesis.strategies as st
import numpy as np

from pbt.gen import num, nums, rows, seeds

ONE_D = ["bd_uniform", "bd_exponential", "bd_maxwell", "bd_laplace", "bd_pareto"]
LEAF = ["normal"] * 4 + ["uniform"] * 2 + ["exponential"] * 2 + ["gmm"] * 3 + ["banana"] + ONE_D
FIXED_D = {"banana": 2, **{k: 1 for k in ONE_D}}


# --- strategies --------------------------------------------------------------------------------------------------

@st.composite
def leaf(draw, kinds=tuple(LEAF), dmin=1, dmax=4, d=None):
    ok = [k for k in kinds if (FIXED_D.get(k, d) == d if d is not None else dmin <= FIXED_D.get(k, dmin) <= dmax)]
    kind = draw(st.sampled_from(ok))
    if kind in FIXED_D:
        return {"t": kind, "d": FIXED_D[kind]}
    if d is None:
        d = draw(st.integers(dmin, dmax))
    s = draw(st.sampled_from([1, 1, 1, 1, 1, 0.01, 100, 1e-4, 1e4]))
    spec = {"t": kind, "d": d, "form": draw(st.sampled_from(["array", "array", "list"]))}
    if kind == "normal":
        spec["mean"] = [v * s for v in draw(nums(d, -5, 5))]
        diag = draw(nums(d, 0.2, 2))
        low = draw(nums(d * (d - 1) // 2, -1.2, 1.2))
        spec["cov"] = _cov(diag, low, s)
        u = [1] * d
        if d > 1 and s == 1 and draw(st.integers(0, 4)) == 0:           # dimensions in different units
            u = draw(st.lists(st.sampled_from([1e-2, 0.1, 1, 10, 100]), min_size=d, max_size=d))
            spec["mean"] = [a * b for a, b in zip(spec["mean"], u)]
            spec["cov"] = (np.array(spec["cov"]) * np.outer(u, u)).tolist()
        if draw(st.booleans()) and draw(st.booleans()):
            spec["support"] = _box(spec["mean"], [5 * s * abs(v) * w for v, w in zip(diag, u)])
    elif kind == "uniform":
        spec["center"] = [v * s for v in draw(nums(d, -5, 5))]
        k = draw(st.sampled_from([d, d, 1]))
        spec["radius"] = [v * s for v in draw(nums(k, 0.05, 4))]
    elif kind == "exponential":
        spec["mean"] = [v * s for v in draw(nums(d, 0.05, 4))]
    elif kind == "gmm":
        k = draw(st.integers(1, 4))
        spec["means"] = [[v * s for v in r] for r in draw(rows(k, d, -3, 3))]
        spec["vars"] = [[v * s * s for v in r] for r in draw(rows(k, d, 0.05, 3))]
        if draw(st.booleans()):
            spec["weights"] = draw(nums(k, 0.05, 1))
        spec["support"] = [[-10 * s - v for v in [0] * d], [12 * s] * d]
    if s == 1 and (kind != "normal" or u == [1] * d) and draw(st.integers(0, 5)) == 0:
        whole(spec)
    return spec


def whole(spec):
    """Integers for parameters, which become arrays of integers."""
    up = lambda v: max(1, int(math.ceil(abs(v))))
    for k in ("mean", "center", "means"):
        if k in spec:
            spec[k] = [[int(v) for v in r] if isinstance(r, list) else int(r) for r in spec[k]]
    if spec["t"] == "exponential":
        spec["mean"] = [max(1, v) for v in spec["mean"]]
    if "radius" in spec:
        spec["radius"] = [up(v) for v in spec["radius"]]
    if "vars" in spec:
        spec["vars"] = [[up(v) for v in r] for r in spec["vars"]]
    if "cov" in spec:
        L = np.linalg.cholesky(np.array(spec["cov"]))
        L = np.tril(np.round(L), -1) + np.diag(np.ceil(np.diag(L)))
        spec["cov"] = (L @ L.T).astype(int).tolist()
    if "weights" in spec:
        spec["weights"] = [up(4 * v) for v in spec["weights"]]
    spec.pop("support", None) if spec["t"] == "normal" else None
    if "support" in spec:
        spec["support"] = [[int(math.floor(v)) for v in spec["support"][0]], [int(math.ceil(v)) for v in spec["support"][1]]]


def _cov(diag, low, s):
    d = len(diag)
    L = np.zeros((d, d))
    it = iter(low)
    for i in range(d):
        L[i, i] = diag[i]
        for j in range(i):
            L[i, j] = next(it)
    c = (L @ L.T) * s * s
    return ((c + c.T) / 2).tolist()


def _box(mid, half):
    return [[m - h for m, h in zip(mid, half)], [m + h for m, h in zip(mid, half)]]


WEIGHT = {"normal": 6, "uniform": 3, "exponential": 3, "gmm": 4, "mixture": 5, "kde": 3, "delta": 2}


def by_kind(make, total, kinds=None):
    """Label -> (strategy, cases) for core.split: make(strategy of descriptions) for every kind of distribution."""
    kinds = kinds or sorted(set(LEAF)) + ["mixture", "kde", "delta"]
    t = sum(WEIGHT.get(k, 1) for k in kinds)
    special = {"mixture": mixture, "kde": kde, "delta": delta}
    return {k: (make(special[k]() if k in special else leaf(kinds=(k,), dmax=6)), max(3, round(total * WEIGHT.get(k, 1) / t)))
            for k in kinds}


@st.composite
def mixture(draw, kinds=("normal", "uniform", "exponential"), dmax=3, kmax=4, weights=None):
    d = draw(st.integers(1, dmax))
    k = draw(st.integers(1, kmax))
    kinds = [q for q in kinds if FIXED_D.get(q, d) == d]
    models = [draw(leaf(kinds=tuple(kinds), d=d)) for _ in range(k)]
    w = draw(nums(k, 0.05, 5)) if weights is None else draw(weights(k))
    return {"t": "mixture", "d": d, "models": models, "weights": w, "support": [[-8.0] * d, [9.0] * d],
            "form": draw(st.sampled_from(["array", "list"]))}


KERNELS = ["normal", "uniform", "triangular", "epanechnikov"]


@st.composite
def kde(draw, dmax=3):
    d = draw(st.integers(1, dmax))
    n = draw(st.integers(1, 6))
    bw = draw(nums(draw(st.sampled_from([1, d])), 0.1, 8))
    return {"t": "kde", "d": d, "samples": draw(rows(n, d, -3, 3)), "weights": draw(nums(n, 0.05, 3)),
            "kernel": draw(st.sampled_from(KERNELS)), "bw": bw, "support": [[-5.0] * d, [5.0] * d]}


@st.composite
def delta(draw, dmax=4):
    d = draw(st.integers(1, dmax))
    c = draw(nums(d, -5, 5))
    return {"t": "delta", "d": d, "center": c, "support": _box(c, [1.0] * d), "form": draw(st.sampled_from(["array", "list"]))}


# --- objects of the repository -----------------------------------------------------------------------------------

def build(spec):
    import ais_benchmarks.distributions as D
    t = spec["t"]
    arr = (lambda v: np.array(v)) if spec.get("form", "array") == "array" else (lambda v: _copy(v))
    simple = {"banana": D.Banana2D, "bd_uniform": D.BenchDenUniform, "bd_exponential": D.BenchDenExponential,
              "bd_maxwell": D.BenchDenMaxwell, "bd_laplace": D.BenchDenLaplace, "bd_pareto": D.BenchDenSymmetricPareto}
    if t in simple:
        return simple[t](dict())
    if t == "normal":
        p = {"mean": arr(spec["mean"]), "sigma": arr(spec["cov"])}
        if "support" in spec:
            p["support"] = arr(spec["support"])
        return D.CMultivariateNormal(p)
    if t == "uniform":
        return D.CMultivariateUniform({"center": arr(spec["center"]), "radius": arr(spec["radius"])})
    if t == "exponential":
        return D.CMultivariateExponential({"mean": arr(spec["mean"])})
    if t == "gmm":
        p = {"means": arr(spec["means"]), "sigmas": arr(spec["vars"]), "support": arr(spec["support"])}
        if "weights" in spec:
            p["weights"] = arr(spec["weights"])
        return D.CGaussianMixtureModel(p)
    if t == "mixture":
        return D.CMixtureModel({"models": [build(m) for m in spec["models"]], "weights": arr(spec["weights"]),
                                "dims": spec["d"], "support": arr(spec["support"])})
    if t == "delta":
        return D.CMultivariateDelta({"center": arr(spec["center"]), "support": arr(spec["support"])})
    if t == "kde":
        return D.CKernelDensity({"samples": np.array(spec["samples"], float), "weights": np.array(spec["weights"], float),
                                 "kernel_f": getattr(D.CKernel, "kernel_" + spec["kernel"]),
                                 "kernel_bw": np.array(spec["bw"], float), "support": arr(spec["support"])})
    raise ValueError(t)


def _copy(v):
    return [_copy(x) for x in v] if isinstance(v, list) else v


# --- reference laws ----------------------------------------------------------------------------------------------

def lse(a, axis=0):
    m = np.max(a, axis=axis)
    safe = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(all="ignore"):
        return safe + np.log(np.sum(np.exp(a - np.expand_dims(safe, axis)), axis=axis))


def kernel_ref(name, u):
    u = np.asarray(u, float)
    if name == "normal":
        return np.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    inside = np.abs(u) <= 1
    return np.where(inside, {"uniform": 0.5 + 0 * u, "triangular": 1 - np.abs(u), "epanechnikov": 0.75 * (1 - u * u)}[name], 0.0)


class Ref:
    """The law a description stands for, from the documented formulas only."""

    def __init__(self, spec):
        self.spec, self.t, self.d = spec, spec["t"], spec["d"]
        d = self.d
        g = lambda k: np.array(spec[k], float)
        self.lo, self.hi = np.full(d, -np.inf), np.full(d, np.inf)      # range of the values
        self.tol = 1e-9
        if self.t == "normal":
            self.loc, self.cov = g("mean"), g("cov")
            self.scale = np.sqrt(np.diag(self.cov))
            self.chol = np.linalg.cholesky(self.cov)
            self.cond = 10 * np.linalg.cond(self.cov / np.outer(self.scale, self.scale))       # whatever the units
            self.sup = g("support") if "support" in spec else np.array([self.loc - 6 * self.scale, self.loc + 6 * self.scale])
        elif self.t == "uniform":
            self.loc = g("center")
            self.scale = np.broadcast_to(g("radius"), (d,)).copy()
            self.lo, self.hi = self.loc - self.scale, self.loc + self.scale
            self.sup = np.array([self.lo, self.hi])
        elif self.t in ("exponential", "bd_exponential"):
            m = g("mean") if self.t == "exponential" else np.array([1.0])
            self.mean, self.loc, self.scale = m, m * 1.0, m * 1.0
            self.lo = np.zeros(d)
            self.sup = np.array([0 * m, 4 * m])
        elif self.t == "gmm":
            self.means, self.vars = g("means"), g("vars")
            w = g("weights") if "weights" in spec else np.ones(len(self.means))
            self.w = w / math.fsum(w)
            self.loc = np.sum(self.w[:, None] * self.means, axis=0)
            self.scale = np.sqrt(np.sum(self.w[:, None] * (self.vars + (self.means - self.loc) ** 2), axis=0))
            self.sup = g("support")
        elif self.t == "mixture":
            self.parts = [Ref(m) for m in spec["models"]]
            w = g("weights")
            w = np.where(np.isnan(w) | (w <= 0), 0, w)
            self.w = w / w.sum() if w.sum() > 0 else np.ones(len(w)) / len(w)
            self.loc = np.sum([a * p.loc for a, p in zip(self.w, self.parts)], axis=0)
            self.scale = np.max([p.scale + np.abs(p.loc - self.loc) for p in self.parts], axis=0)
            self.sup = g("support")
            self.tol = max(p.tol for p in self.parts)
        elif self.t == "delta":
            self.loc, self.scale = g("center"), np.ones(d)
            self.sup = g("support")
        elif self.t == "kde":
            self.x, self.w, self.bw = g("samples"), g("weights") / math.fsum(spec["weights"]), g("bw")
            self.loc = self.x.mean(axis=0)
            self.scale = self.x.std(axis=0) + 1 / self.bw
            self.sup = g("support")
            self.tol = 3e-9 * d
        elif self.t == "banana":
            self.loc, self.scale = np.array([0.0, 0.0]), np.array([5.0, 3.0])
            self.sup = np.array([[-10.0, -10.0], [10.0, 10.0]])
        elif self.t == "bd_uniform":
            self.loc, self.scale = np.array([0.5]), np.array([0.5])
            self.lo, self.hi = np.zeros(1), np.ones(1)
            self.sup = np.array([[0.0], [1.0]])
        elif self.t == "bd_maxwell":
            self.loc, self.scale, self.lo = np.array([1.0]), np.array([1.0]), np.zeros(1)
            self.sup = np.array([[0.0], [4.0]])
        elif self.t == "bd_laplace":
            self.loc, self.scale = np.zeros(1), np.ones(1)
            self.sup = np.array([[-6.0], [6.0]])
        elif self.t == "bd_pareto":
            self.loc, self.scale = np.zeros(1), np.ones(1)
            self.sup = np.array([[-20.0], [20.0]])
        else:
            raise ValueError(self.t)

    def inside(self, x):
        return np.all((x > self.lo) & (x < self.hi), axis=1)

    def logpdf(self, x):
        """Log density and a bound of the rounding error a sound implementation may have."""
        x = np.asarray(x, float)
        n, d = x.shape
        t = self.t
        tol = np.full(n, self.tol)
        with np.errstate(all="ignore"):
            if t == "normal":
                y = np.linalg.solve(self.chol, (x - self.loc).T)
                m = np.sum(y * y, axis=0)
                out = -0.5 * m - np.sum(np.log(np.diag(self.chol))) - 0.5 * d * math.log(2 * math.pi)
                tol = tol + 1e-13 * self.cond * (1 + m)
            elif t in ("uniform", "bd_uniform"):
                out = np.where(self.inside(x), -np.sum(np.log(2 * self.scale)), -np.inf)
            elif t in ("exponential", "bd_exponential"):
                out = np.where(self.inside(x), np.sum(-np.log(self.mean) - x / self.mean, axis=1), -np.inf)
                tol = tol + 1e-12 * np.abs(np.where(np.isfinite(out), out, 0))
            elif t == "gmm":
                c = [np.log(w) - 0.5 * np.sum((x - m) ** 2 / v, axis=1) - 0.5 * np.sum(np.log(2 * math.pi * v))
                     for w, m, v in zip(self.w, self.means, self.vars)]
                out = lse(np.array(c))
                tol = tol + 1e-12 * np.abs(out)
            elif t in ("mixture",):
                c = []
                for w, p in zip(self.w, self.parts):
                    l, e = p.logpdf(x)
                    c.append(np.log(w) + l if w > 0 else np.full(n, -np.inf))
                    tol = np.maximum(tol, e if w > 0 else 0)
                out = lse(np.array(c))
                tol = tol + 1e-12 * np.abs(np.where(np.isfinite(out), out, 0))
            elif t == "kde":
                k = np.array([np.prod(kernel_ref(self.spec["kernel"], (x - s) * self.bw) * self.bw, axis=1) for s in self.x])
                out = np.log(self.w @ k)
            elif t == "banana":
                out = -0.5 * (0.03 * x[:, 0] ** 2 + (x[:, 1] + 0.03 * (x[:, 0] ** 2 - 100)) ** 2)
                tol = tol + 1e-12 * np.abs(out)
            elif t == "bd_maxwell":
                v = x[:, 0]
                out = np.where(v > 0, np.log(np.where(v > 0, v, 1)) - v * v / 2, -np.inf)
                tol = tol + 1e-12 * np.abs(np.where(np.isfinite(out), out, 0))
            elif t == "bd_laplace":
                out = math.log(0.5) - np.abs(x[:, 0])
                tol = tol + 1e-12 * np.abs(out)
            elif t == "bd_pareto":
                out = -math.log(4) - 1.5 * np.log1p(np.abs(x[:, 0]))
            elif t == "delta":
                out = np.where(np.all(x == self.loc, axis=1), np.inf, -np.inf)
        return out, tol

    def edges(self):
        """Per dimension, the values at which the density is not continuous."""
        out = [[] for _ in range(self.d)]
        if self.t == "mixture":
            for p in self.parts:
                for i, e in enumerate(p.edges()):
                    out[i] += e
        elif self.t == "kde":
            if self.spec["kernel"] == "uniform":
                r = 1 / np.broadcast_to(self.bw, (self.d,))
                for i in range(self.d):
                    out[i] += [v for s in self.x for v in (s[i] - r[i], s[i] + r[i])]
        else:
            for i in range(self.d):
                out[i] = [v for v in (self.lo[i], self.hi[i]) if np.isfinite(v)]
        return out

    def points(self, b):
        """The batch of points of a zbatch, kept off the edges."""
        z = np.array(b["z"], float).reshape(-1, self.d)
        if b.get("m"):
            z = np.vstack([z, np.random.RandomState(b["zseed"] % 2 ** 32).normal(0, 1.5, (b["m"], self.d))])
        x = self.loc + z * self.scale
        for i, es in enumerate(self.edges()):
            for e in es:
                near = np.abs(x[:, i] - e) <= 1e-6 * (self.scale[i] + abs(e))
                x[near, i] = e + 3e-4 * (self.scale[i] + abs(e))
        # A shifted point may fall on another edge: nudge until it does not
        for k in range(20):
            moved = False
            for i, es in enumerate(self.edges()):
                for e in es:
                    near = np.abs(x[:, i] - e) <= 1e-7 * (self.scale[i] + abs(e))
                    if near.any():
                        x[near, i] += 1.7e-4 * (k + 1) * self.scale[i]
                        moved = True
            if not moved:
                break
        return x


# --- quadrature --------------------------------------------------------------------------------------------------

_GL = {}


def nodes(a, b, cuts=(), pieces=8, order=12):
    """Gauss-Legendre nodes and weights on [a, b], split at the cuts."""
    if order not in _GL:
        _GL[order] = np.polynomial.legendre.leggauss(order)
    t, w = _GL[order]
    pts = sorted({a, b} | {c for c in cuts if a < c < b})
    xs, ws = [], []
    for u, v in zip(pts, pts[1:]):
        e = np.linspace(u, v, pieces + 1)
        h = (e[1:] - e[:-1]) / 2
        xs.append(((e[1:] + e[:-1]) / 2)[:, None] + h[:, None] * t)
        ws.append(h[:, None] * w)
    return np.concatenate([x.ravel() for x in xs]), np.concatenate([x.ravel() for x in ws])


def grid(axes):
    """Tensor product of one dimensional rules."""
    x = np.stack([g.ravel() for g in np.meshgrid(*[a[0] for a in axes], indexing="ij")], axis=1)
    w = np.ones(1)
    for a in axes:
        w = np.outer(w, a[1]).ravel()
    return x, w


def box_rule(ref, lo, hi, pieces=None):
    """A quadrature rule on a box for the density of ref (one or two dimensions)."""
    axes = []
    if pieces is None and ref.d == 2:
        pieces = math.ceil(min(thinness(ref), 12) / 2)
    for i in range(ref.d):
        cuts = list(ref.edges()[i])
        for c, s in centers(ref, i):
            cuts += [c + k * s for k in (-9, -4, -2, -1, 0, 1, 2, 4, 9)]
            if c < lo[i]:                                           # in the tail: fine where the density is largest
                cuts += [lo[i] + k * s for k in (0.5, 2, 8, 32)]
            elif c > hi[i]:
                cuts += [hi[i] - k * s for k in (0.5, 2, 8, 32)]
        axes.append(nodes(float(lo[i]), float(hi[i]), cuts, pieces=pieces or (3 if ref.d == 1 else 1), order=10 if ref.d == 1 else 8))
    return grid(axes)


def thinness(ref):
    """How much narrower than along the axes a correlated law is across."""
    if ref.t == "mixture":
        return max(thinness(p) for p in ref.parts)
    return math.sqrt(max(np.diag(ref.cov) * np.diag(np.linalg.inv(ref.cov)))) if ref.t == "normal" else 1


def centers(ref, i):
    """Location and scale of every component in dimension i: where the quadrature has to be fine."""
    if ref.t == "mixture":
        return [c for p in ref.parts for c in centers(p, i)]
    if ref.t == "gmm":
        return [(m[i], math.sqrt(v[i])) for m, v in zip(ref.means, ref.vars)]
    if ref.t == "kde":
        return [(s[i], 1 / np.broadcast_to(ref.bw, (ref.d,))[i]) for s in ref.x]
    return [(ref.loc[i], ref.scale[i])]


# --- Rosenblatt transform: independent uniforms from samples of a law ---------------------------------------------

def _chain(ref, x):
    """Per dimension, the distribution function and log density given the previous dimensions."""
    from scipy.special import ndtr
    n, d = x.shape
    t = ref.t
    with np.errstate(all="ignore"):
        if t == "normal":
            y = np.linalg.solve(ref.chol, (x - ref.loc).T).T
            return ndtr(y), -0.5 * y * y - 0.5 * math.log(2 * math.pi) - np.log(np.diag(ref.chol))
        if t in ("uniform", "bd_uniform"):
            u = (x - ref.lo) / (2 * ref.scale)
            return np.clip(u, 0, 1), np.where((u >= 0) & (u <= 1), -np.log(2 * ref.scale), -np.inf)
        if t in ("exponential", "bd_exponential"):
            return np.where(x > 0, -np.expm1(-x / ref.mean), 0), np.where(x > 0, -np.log(ref.mean) - x / ref.mean, -np.inf)
        if t == "gmm":
            parts = []
            for m, v in zip(ref.means, ref.vars):
                y = (x - m) / np.sqrt(v)
                parts.append((ndtr(y), -0.5 * y * y - 0.5 * np.log(2 * math.pi * v)))
        elif t == "mixture":
            parts = [_chain(p, x) for p in ref.parts]
        else:
            raise ValueError(t)
        cdf, log = np.zeros((n, d)), np.zeros((n, d))
        lw = np.log(ref.w)[:, None] + np.zeros((1, n))
        for i in range(d):
            lw = lw - lse(lw)
            cdf[:, i] = np.sum(np.exp(lw) * np.array([p[0][:, i] for p in parts]), axis=0)
            lp = lw + np.array([p[1][:, i] for p in parts])
            log[:, i] = lse(lp)
            lw = lp
        return cdf, log


def rosenblatt(ref, x):
    return _chain(ref, np.asarray(x, float))[0]
