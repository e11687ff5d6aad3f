import copy
import math

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, split, vec
from pbt.gen import num, nums, seeds

ID = "C23"
RULE = ("A case is a configured sampler after a sequence of requests; the integrals of its density over boxes are compared with 1 and with the "
        "share of its draws in them. Non-trivial: at least two components or leaves of different weight or place.")

GL = np.polynomial.legendre.leggauss(4)


def pieces(y, lo, hi, k):
    """Breakpoints that follow the draws y, from lo to hi: no piece is much longer than its neighbours."""
    q = np.unique(np.quantile(y, np.linspace(0, 1, k)))
    s = max(q[-1] - q[0], 1e-9)
    q = list(q[np.insert(np.diff(q) > s * 1e-7, 0, True)])
    b = [q[0] - 4 * s] + q + [q[-1] + 4 * s]
    while True:
        b = np.array(b)
        g = np.diff(b)
        near = np.minimum(np.append(g[1:], np.inf), np.insert(g[:-1], 0, np.inf))
        long = g > 2.5 * near
        if not long.any() or len(b) > 4000:
            break
        # Cuts as long as the shorter neighbour, from its side
        left = np.insert(g[:-1], 0, np.inf) <= np.append(g[1:], np.inf)
        cut = np.where(left, b[:-1] + 2 * near, b[1:] - 2 * near)[long]
        b = np.sort(np.concatenate((b, cut)))
    return np.unique(np.clip(np.concatenate((b, [lo, hi])), lo, hi))


def rule(b):
    mid, half = (b[1:] + b[:-1]) / 2, (b[1:] - b[:-1]) / 2
    return (mid[:, None] + half[:, None] * GL[0]).ravel(), (half[:, None] * GL[1]).ravel()


def integral(q, y, lo, hi, k):
    xs, ws = zip(*[rule(pieces(y[:, i], lo[i], hi[i], k)) for i in range(len(lo))])
    x = np.stack(np.meshgrid(*xs, indexing="ij"), -1).reshape(-1, len(lo))
    w = ws[0]
    for v in ws[1:]:
        w = np.multiply.outer(w, v).ravel()
    return float(w @ np.array(q(x), float))


def near(q, y, lo, hi, k, want, tol):
    """The mass in a box, with a finer rule where a coarse one is not near to what is expected."""
    for k in (k, 2 * k, 4 * k):
        out = integral(q, y, lo, hi, k)
        if abs(out - want) < tol:
            break
    return out


def cells(lo, hi, m):
    """Midpoints of the dyadic cells of a box."""
    ax = [a + (b - a) * (np.arange(2 ** m) + 0.5) / 2 ** m for a, b in zip(lo, hi)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, len(lo))


def in_box(x, lo, hi):
    return np.all((x > lo) & (x < hi), axis=1)


def consistent(s, x):
    p, l = vec(s.prob(x), len(x), "prob"), vec(s.log_prob(x), len(x), "log_prob")
    require(np.all(p >= 0) and not np.isnan(p).any(), "the density is negative or NaN: %s", p[~(p >= 0)][:3].tolist())
    require(not np.isnan(l).any(), "the log density is NaN")
    with np.errstate(all="ignore"):
        ok = np.where(p > 1e-290, np.abs(np.log(p) - l) <= 1e-6 * (1 + np.abs(l)), l < -600)
    require(ok.all(), "prob %s and log_prob %s disagree", p[~ok][:3].tolist(), l[~ok][:3].tolist())
    one = s.prob(x[0])
    require(np.size(one) == 1 and abs(float(np.ravel(one)[0]) - p[0]) <= 1e-9 * p[0] + 1e-300, "the density of a single point is %s instead of %s", one, p[0])


def on_faces(s, lo, hi, m, seed):
    """A point on the faces between cells has the density of one of them."""
    rng = np.random.RandomState(seed % 2 ** 32)
    d, n = len(lo), 24
    j = rng.randint(1, 4, size=(n, 1))
    x = lo + (hi - lo) * rng.randint(1, 2 ** j, size=(n, d)) / 2.0 ** j
    v = vec(s.prob(x), n, "prob")
    sides = np.stack(np.meshgrid(*([[-0.5, 0.5]] * d), indexing="ij"), -1).reshape(-1, d) * (hi - lo) / 2 ** m
    near = np.array([s.prob(x + o) for o in sides])
    ok = (v >= near.min(axis=0) * (1 - 1e-9)) & (v <= near.max(axis=0) * (1 + 1e-9))
    require(ok.all(), "the density at %s, on the face between cells of density %s, is %s", x[~ok][:1].tolist(), near[:, ~ok][:, :1].ravel().tolist(), v[~ok][:1].tolist())


def check(case, ctx):
    kind, sp = case["p"]["m"], case["sp"]
    d = sp["d"]
    with S.session(case, evals=600 if kind == "tp" else None) as (s, target, clock):
        if kind in S.MIXTURE_IS and case["fresh"]:
            pass
        else:
            for n in case["reqs"]:
                x, w = S.request(s, target, n)
            if len(x) == 0 or (kind == "tp" and not w.sum() > 0):
                raise Skip("no samples")
        N = 2500
        y = np.array(s.sample(N), float)
        require(y.shape == (N, d), "sample(%d) has shape %s", N, y.shape)
        require(np.all(np.isfinite(y)), "sample is not finite")
        consistent(s, y[:40])
        lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
        away = (lo + hi) / 2 + (hi - lo) * np.array([[0.9] * d, [-3.0] * d, [0.05] * d])
        consistent(s, away)
        boxes = [((lo + hi) / 2 + (hi - lo) / 2 * np.minimum(a, b), (lo + hi) / 2 + (hi - lo) / 2 * np.maximum(a, b))
                 for a, b in ((np.array(u), np.array(v)) for u, v in case["boxes"])]
        eps = stats.hoeffding(N)
        if kind in ("hidaisee", "tp") and case["p"].get("kernel") != "normal":
            leaves = [s.T.nodes[i] for i in s.T.leaves] if kind == "hidaisee" else list(s.T.leaves)
            if kind == "tp":
                lo, hi = (lo + hi) / 2 - np.max(hi - lo) / 2, (lo + hi) / 2 + np.max(hi - lo) / 2
            m = {1: 12, 2: 7, 3: 4}[d]
            if any(np.min(2 * np.ravel(l.radius) / ((hi - lo) if np.size(l.radius) > 1 else (hi - lo)[0])) < 2.0 ** -m * 0.99 for l in leaves):
                raise Skip("leaves too small for the grid")
            g = cells(lo, hi, m)
            v = np.array(s.prob(g), float)
            vol = float(np.prod((hi - lo) / 2 ** m))
            require(abs(v.sum() * vol - 1) < 1e-6, "the density has mass %.6f in the space", v.sum() * vol)
            require(np.all(in_box(y, lo - 1e-9 * np.abs(lo), hi + 1e-9 * np.abs(hi))), "a draw lies outside of all leaves")
            if kind == "tp":                     # HiDaisee's uniforms are open or closed at their limits, as C01 leaves them
                on_faces(s, lo, hi, m, case["seed"])
            for a, b in boxes:
                # Boxes of whole cells
                a = lo + np.round((a - lo) / (hi - lo) * 2 ** m) / 2 ** m * (hi - lo)
                b = lo + np.round((b - lo) / (hi - lo) * 2 ** m) / 2 ** m * (hi - lo)
                compare(v[in_box(g, a, b)].sum() * vol, in_box(y, a, b).mean(), eps, a, b)
            if len(leaves) < 2:
                ctx.trivial("one leaf")
            ctx.label("leaves %d" % min(len(leaves), 10))
        else:
            if kind == "mh":                     # its draws continue the chain and do not come from the density
                y = x[np.arange(N) % len(x)] + np.random.normal(size=(N, d)) * math.sqrt(case["p"]["kde_bw"])
            span = y.max(axis=0) - y.min(axis=0)
            big = (y.min(axis=0) - span, y.max(axis=0) + span)
            k, tol = (300, 2e-3) if d == 1 else (10 if kind == "tp" else 24, 0.03)
            total = near(s.prob, y, *big, k, 1, tol)
            require(abs(total - 1) < tol, "the density has mass %.4f", total)
            if kind == "mh":
                return
            for a, b in boxes:
                if np.all(b - a > 0):
                    share = in_box(y, a, b).mean()
                    compare(near(s.prob, y, a, b, k, share, eps + tol), share, eps + tol, a, b)


def compare(mass, share, eps, a, b):
    require(abs(mass - share) <= eps, "%.3f of the draws lie in the box from %s to %s, where the density has mass %.3f (bound %.3f)",
            share, np.round(a, 4).tolist(), np.round(b, 4).tolist(), mass, eps)


def proposed(case, ctx):
    """The points of an iteration come from the density of before the iteration."""
    sp = case["sp"]
    with S.session(case) as (s, target, clock):
        n = 0
        for i in range(case["its"]):
            q = copy.deepcopy(s)
            x, w = S.request(s, target, n + 1)
            new = x[n:]
            n = len(x)
        lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
        y = np.array(q.sample(1500), float)
        eps = stats.hoeffding(len(new)) + (2e-3 if sp["d"] == 1 else 0.03)
        for u, v in case["boxes"]:
            a = (lo + hi) / 2 + (hi - lo) / 2 * np.minimum(u, v)
            b = (lo + hi) / 2 + (hi - lo) / 2 * np.maximum(u, v)
            if np.all(b - a > 0):
                share = in_box(new, a, b).mean()
                mass = near(q.prob, y, a, b, 200 if sp["d"] == 1 else 28, share, eps)
                require(abs(mass - share) <= eps, "%.3f of the samples of an iteration lie in the box from %s to %s, where the proposal has mass %.3f (bound %.3f)",
                        share, np.round(a, 4).tolist(), np.round(b, 4).tolist(), mass, eps)
    if case["p"]["N"] < 2:
        ctx.trivial("one proposal")


def box(d):
    return st.lists(st.tuples(nums(d, -1.3, 1.3), nums(d, -1.3, 1.3)).map(list), min_size=2, max_size=3)


@st.composite
def make(draw, kind):
    d = draw(st.integers(1, 2))
    base = kind.split(".")[0]
    fixed = {}
    if kind == "tp.normal":
        fixed = {"kernel": "normal"}
    elif kind == "tp.haar":
        fixed = {"kernel": "haar"}
    elif base in ("mh", "nested", "multinested", "rejection"):
        fixed = {"n_samples_kde": draw(st.integers(2, 12))}
        if base == "mh":                                  # the burn-in does not end outside of the support
            fixed["shapes"] = ("gauss", "gmm", "flat", "ramp")
    elif base == "mpmc":
        fixed = {"K": draw(st.integers(12, 24))}          # no thin proposals: the quadrature follows the axes
    c = draw(S.cases(base, d=d, **fixed))
    c["reqs"] = draw(S._requests(3))
    c["fresh"] = draw(st.sampled_from([False, False, False, True]))
    c["boxes"] = draw(box(d))
    return c


@st.composite
def make_proposed(draw, kind):
    d = draw(st.integers(1, 2))
    N = draw(st.integers(1, 4))
    c = draw(S.cases(kind, d=d, N=N, K=240 if kind == "mpmc" else 240 // N, **({"L": 1} if kind == "lais" else {})))
    c["its"] = draw(st.integers(1, 2))
    c["boxes"] = draw(box(d))
    return c


COUNT = {"dm": 18, "lais": 18, "mpmc": 18, "hidaisee": 30, "tp.haar": 24, "tp.normal": 14, "mh": 6, "nested": 8, "multinested": 6, "rejection": 16}
PARTS = split("density", {k: (make(k), n) for k, n in COUNT.items()}, check) + \
    split("proposed", {k: (make_proposed(k), n) for k, n in (("dm", 16), ("lais", 16), ("mpmc", 16))}, proposed)
