import math

import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C28"
RULE = ("A case is a run of rejection sampling by requests, of which every candidate and its fate are known. Non-trivial: at least 50 candidates with an "
        "acceptance probability between 0.02 and 0.98 (decisions), or at least 300 samples (law).")


def setup(case):
    """sampler, target, log of the scaled proposal, scale of the candidates -> uniforms"""
    import ais_benchmarks.sampling_methods as M
    sp, p = case["sp"], case["p"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    a = S.arguments(p, sp, case["t"])
    if p["proposal"] == "normal":
        # sd of the proposal in units of the space; the target has a smaller one
        h, S_, t = (hi - lo) / 2, np.array(case["wide"]), case["t"]
        m, s_ = np.array(t["m"]), np.array(t["s"])
        big = np.sqrt(S_ ** 2 + s_ ** 2 + 0.01)
        top = t["c"] * float(np.prod(math.sqrt(2 * math.pi) * big * h * np.exp(m ** 2 / (2 * (big ** 2 - s_ ** 2)))))
        mean, cov = ((lo + hi) / 2).tolist(), ((big * h) ** 2).tolist()
        a["proposal"] = "CMultivariateNormal({'mean': np.array(%r), 'sigma': np.diag(%r)})" % (mean, cov)
        a["scaling"] = top * p["slack"]
        logq = lambda x: np.sum(-0.5 * ((x - np.array(mean)) / (big * h)) ** 2 - np.log(math.sqrt(2 * math.pi) * big * h), axis=1) + math.log(a["scaling"])
        unit = lambda x: stats.norm_cdf((x - np.array(mean)) / (big * h))
    else:
        f = 1.5 if p["proposal"] == "wide" else 1.0
        c, r = (lo + hi) / 2, (hi - lo) / 2 * f
        logq = lambda x: np.full(len(x), math.log(a["scaling"]) - float(np.sum(np.log(2 * r))))
        unit = lambda x: (x - (c - r)) / (2 * r)
    return M.CRejectionSampling(a), logq, unit


def decisions(case, ctx):
    f = S.log_target(case["t"], case["sp"])
    d = case["sp"]["d"]
    clock = guard.Clock()
    with guard.virtual_time(clock):
        s, logq, unit = setup(case)
        target = S.Target(case["t"], case["sp"], clock, 2.0 ** -8, 10 ** 6)
        old = np.zeros((0, d))
        cands, fate = [], []
        for n in case["reqs"]:
            calls = len(target.calls)
            x, w = S.request(s, target, n, timeout=case["n_evals"] * 2.0 ** -8)
            c = target.points(calls)
            require(len(x) >= len(old) and np.array_equal(x[:len(old)], old), "a request changes the samples of before")
            new = x[len(old):]
            # The samples are the accepted candidates, in their order, each candidate decided once
            i, taken = 0, np.zeros(len(c), bool)
            for y in new:
                while i < len(c) and not np.array_equal(c[i], y):
                    i += 1
                require(i < len(c), "the sample %s is not a candidate, or out of order", y)
                taken[i] = True
                i += 1
            cands.append(c)
            fate.append(taken)
            old = x
    c, taken = np.vstack(cands), np.concatenate(fate)
    if len(c) == 0:
        raise Skip("no candidates")
    require(len({tuple(v) for v in c}) == len(c), "a candidate is evaluated twice")
    with np.errstate(all="ignore"):
        la = f(c) - logq(c)
    require(np.all(la < 1e-9), "the harness bounds the target wrongly")
    a = np.exp(np.minimum(la, 0))
    require(not np.any(taken & (la < -60)), "a candidate of acceptance probability %.3g is a sample", a[taken].min() if taken.any() else 0)
    require(not np.any(~taken & (a >= 1 - 1e-12)), "a candidate of acceptance probability 1 is no sample")
    L = math.log(2 / 1e-10)
    where = unit(c)
    # Nearness to the last sample that was taken, in units of the space
    last, near = None, np.full(len(c), np.inf)
    for i in range(len(c)):
        if last is not None:
            near[i] = np.max(np.abs(where[i] - where[last]))
        last = i if taken[i] else last
    for name, k in {"near the last sample": near < 0.02, "nearest to the last sample": near < 1e-3, "all": a >= 0, "low": a < 0.3, "middle": (a >= 0.3) & (a < 0.7), "high": a >= 0.7, "left": where[:, 0] < 0.5, "right": where[:, -1] >= 0.5}.items():
        if k.any():
            dev, var = float(np.sum(taken[k] - a[k])), float(np.sum(a[k] * (1 - a[k])))
            bound = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)
            require(abs(dev) <= bound, "%d of %d candidates become samples, expected %.1f +- %.1f (%s)", taken[k].sum(), k.sum(), a[k].sum(), bound, name)
    # Decisions are independent: products of what candidates at any distance have more than expected
    e, v = taken - a, a * (1 - a)
    for k in range(1, min(2500, 3 * len(c) // 5)):
        dev, var, B = float(np.sum(e[k:] * e[:-k])), float(np.sum(v[k:] * v[:-k])), math.log(2 * 2500 / 1e-10)
        bound = B / 3 + math.sqrt(B * B / 9 + 2 * var * B)
        require(abs(dev) <= bound, "decisions on candidates at a distance of %d agree: %.1f of %d, bound %.1f", k, dev, len(c) - k, bound)
    if len(c) >= 100:
        for i in range(d):
            stats.require_uniform(where[:, i], "candidates along dimension %d" % i)
    if np.sum((a > 0.02) & (a < 0.98)) < 50:
        ctx.trivial("sure decisions")


def law(case, ctx):
    """The samples against the quadrature of the target."""
    f = S.log_target(case["t"], case["sp"])
    sp = case["sp"]
    d = sp["d"]
    clock = guard.Clock()
    with guard.virtual_time(clock):
        s, logq, unit = setup(case)
        target = S.Target(case["t"], sp, clock, 2.0 ** -8, 10 ** 6)
        n = case["n"]
        for k in (n // 3, n // 2, n):                     # in several requests
            x, w = S.request(s, target, k, timeout=30000 * 2.0 ** -8)
    if len(x) < 300:
        raise Skip("few samples")
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    r = 1.5 if case["p"]["proposal"] == "wide" else 1.0
    if case["p"]["proposal"] == "normal":
        r = 12.0
    c, h = (lo + hi) / 2, (hi - lo) / 2 * r
    m = 40000 if d == 1 else 700
    ax = [np.linspace(c[i] - h[i], c[i] + h[i], m + 1) for i in range(d)]
    mid = [(v[1:] + v[:-1]) / 2 for v in ax]
    g = np.stack(np.meshgrid(*mid, indexing="ij"), -1).reshape(-1, d)
    p = np.exp(f(g)).reshape((m,) * d)
    for i in range(d):
        q = p.sum(axis=tuple(j for j in range(d) if j != i))
        cdf = np.append(0, np.cumsum(q)) / q.sum()
        u = np.interp(x[:, i], ax[i], cdf)
        D, bound = stats.ks(u), stats.dkw(len(u)) + (1e-3 if d == 1 else 0.02)
        require(D <= bound, "samples along dimension %d: distance of %.3f to the target (n=%d, bound %.3f)", i, D, len(u), bound)


@st.composite
def runs(draw, kind, many=False):
    sp = draw(S.space(d=draw(st.integers(1, 2)) if many else None))
    shapes = ("gauss",) if kind == "normal" else ("gauss", "gmm", "box", "cut", "flat", "ramp", "checker")
    t = draw(S.target(sp, shapes=shapes))
    if kind == "normal":
        t["rho"] = 0.0
    if many and t["t"] in ("gauss", "cut"):
        t["s"] = [max(v, 0.15) for v in t["s"]]
    p = draw(S.params("rejection", sp, t, proposal=kind))
    c = {"sp": sp, "t": t, "p": p, "seed": draw(seeds)}
    if kind == "normal":
        c["wide"] = draw(nums(sp["d"], 0.2, 1))
    if many:
        c["n"] = 1200
    else:
        c["n_evals"] = draw(st.sampled_from([20, 600, 600, 2500]))
        c["reqs"] = draw(S.requests)
        c["reqs"] = [v * draw(st.sampled_from([1, 1, 20])) for v in c["reqs"]]
        if draw(st.integers(0, 3)) == 0:
            c["reqs"], c["n_evals"] = [draw(st.integers(200, 1500))] + c["reqs"][:1], 4000
    return c


@st.composite
def singles(draw):
    """One more sample by every request, with hardly a rejection."""
    sp = draw(S.space(d=1))
    t = draw(S.target(sp, shapes=("flat",)))
    p = dict(draw(S.params("rejection", sp, t, proposal="uniform")), slack=draw(st.sampled_from([1, 1.02])))
    return {"sp": sp, "t": t, "p": p, "seed": draw(seeds), "n_evals": 400, "reqs": list(range(1, draw(st.integers(300, 1000))))}


@st.composite
def large(draw):
    """One large request."""
    sp = draw(S.space(d=draw(st.integers(1, 2))))
    t = draw(S.target(sp, shapes=("ramp", "checker", "flat")))
    if t["t"] == "checker":
        t["low"] = max(t["low"], 0.01)
    p = dict(draw(S.params("rejection", sp, t, proposal="uniform")), slack=draw(st.sampled_from([1.02, 1.5])))
    return {"sp": sp, "t": t, "p": p, "seed": draw(seeds), "n_evals": 8000, "reqs": [draw(st.integers(2000, 5000))]}


PARTS = [Part("large", large(), decisions, 8), Part("singles", singles(), decisions, 12)] + split("decisions", {k: (runs(k), n) for k, n in (("uniform", 120), ("wide", 60), ("normal", 80))}, decisions) + \
    split("law", {k: (runs(k, True), n) for k, n in (("uniform", 25), ("wide", 10), ("normal", 12))}, law)
