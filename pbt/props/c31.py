import copy
import math

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C31"
RULE = ("A case is a run of iterations of an adaptive sampler; the proposals after each are compared with those the scheme derives from the proposals, "
        "samples and evaluations of the iteration. Non-trivial: at least two proposals, and an iteration that moves one of them.")


def gauss_log(x, mean, cov):
    d = x - mean
    s, l = np.linalg.slogdet(cov)
    return -0.5 * (np.sum(d @ np.linalg.inv(cov) * d, axis=1) + l + len(mean) * math.log(2 * math.pi))


def is_normal(q, mean, cov, tol=1e-6):
    """Is q the normal of this mean and covariance? Compared at the points of a cross around the mean."""
    d = len(mean)
    L = np.linalg.cholesky(cov)
    z = np.vstack([np.zeros(d), np.eye(d), -2 * np.eye(d), np.ones(d), -1.5 * np.ones(d)])
    x = mean + z @ L.T
    got = np.array(q.log_prob(x), float)
    want = gauss_log(x, mean, cov)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * (1 + np.abs(want))))


def around(q, points, cov):
    """Indices of the points at which q is centred, if it is a normal of this covariance."""
    l = np.array(q.log_prob(points), float)
    top = gauss_log(points[:1], points[0], cov)[0]
    near = np.flatnonzero(l >= top - 1e-9 * (1 + abs(top)))
    return [i for i in near if is_normal(q, points[i], cov)]


def freedman(dev, var, what):
    L = math.log(2 / 1e-10)
    bound = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)
    require(abs(dev) <= bound, "%s: %.1f off (bound %.1f)", what, dev, bound)


def start(s, sp, cov, N):
    """The proposals of a new sampler lie in the space. Returns their means."""
    require(len(s.proposals) == N, "%d proposals for N = %d", len(s.proposals), N)


def dm(case, ctx):
    sp, p = case["sp"], case["p"]
    d = sp["d"]
    cov = np.eye(d) * p["sigma"]
    moved = 0
    dev, var = np.zeros(6), np.zeros(6)
    with S.session(case, evals=10 ** 5) as (s, target, clock):
        start(s, sp, cov, p["N"])
        n = 0
        for it in range(case["its"]):
            target, f = now(case, it, target, ctx)
            before = copy.deepcopy(s)
            x, w = S.request(s, target, n + 1)
            new = x[n:]
            n = len(x)
            require(len(s.proposals) == p["N"], "%d proposals after an iteration", len(s.proposals))
            with np.errstate(all="ignore"):
                r = np.exp(f(new) - np.log(np.array(before.prob(new), float)))
            if not r.sum() > 0:
                for a, b in zip(before.proposals, s.proposals):
                    require(np.allclose(a.log_prob(new), b.log_prob(new), rtol=1e-9, atol=1e-9), "a proposal moves when all the weights are 0")
                continue
            r = r / r.sum()
            at = []
            for q in s.proposals:
                i = around(q, new, cov)
                require(len(i) > 0, "a proposal after the iteration is no normal of variance sigma around one of its samples")
                require(r[i].max() > 0, "a proposal moves to a sample of weight 0")
                at.append(i[0])
            moved += 1
            # Which samples: three sides known before the choice, against their weight
            for j, side in enumerate((new[:, 0] > new[:, 0].mean(), r > 1 / len(r), np.arange(len(r)) % 2 == 0)):
                q = float(r[side].sum())
                dev[j] += sum(bool(side[i]) for i in at) - q * len(at)
                var[j] += q * (1 - q) * len(at)
                # One by one: pairs of proposals are on the same side as often as two draws are
                same = q * q + (1 - q) * (1 - q)
                for a, b in zip(at[::2], at[1::2]):
                    dev[j + 3] += float(side[a] == side[b]) - same
                    var[j + 3] += same * (1 - same)
            # The mixture of the next iteration is the even one
            m = np.array([q.prob(new) for q in s.proposals], float).mean(axis=0)
            require_close(s.prob(new), m, "density of the sampler after the iteration", 1e-7, 1e-290)
    for j, name in enumerate(("side of the mean", "weight above the average", "position")):
        freedman(dev[j], var[j], "proposals moved to samples by " + name)
        freedman(dev[j + 3], var[j + 3], "pairs of proposals that agree in the " + name)
    if var.max() > 20:
        ctx.label("choice compared")
    if p["N"] < 2 or not moved:
        ctx.trivial("one proposal or no move")


def lais(case, ctx):
    sp, p = case["sp"], case["p"]
    d = sp["d"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    cov = np.eye(d) * p["sigma"]
    N, L = p["N"], p["L"]
    sd = math.sqrt(p["mh_sigma"])
    tol = 1e-12 * np.max(np.abs(hi - lo)) + 1e-12 * np.max(np.abs(hi) + np.abs(lo))
    dev = var = 0.0
    moves, moved = [], 0
    with S.session(case, evals=10 ** 5) as (s, target, clock):
        start(s, sp, cov, N)
        locs = where(s, cov)
        n = 0
        for it in range(case["its"]):
            target, f = now(case, it, target, ctx)
            calls = len(target.calls)
            x, w = S.request(s, target, n + 1)
            new = x[n:]
            n = len(x)
            e = target.points(calls)
            k = next((i for i in range(len(e) - len(new) + 1) if np.array_equal(e[i:i + len(new)], new)), None)
            require(k is not None, "the samples of the iteration are not evaluated together")
            e = e[k + len(new):] if k == 0 else e[:k]
            # Each step evaluates the state and the candidate; a state may be evaluated less often, a candidate not
            paired = len(e) == 2 * N * L
            require(paired or len(e) in (N * L, N * (L + 1)), "%d evaluations to move %d proposals by %d steps", len(e), N, L)
            e = e.reshape(N, -1, d)
            last = where(s, cov)
            for i in range(N):
                same = lambda u, v: np.allclose(u, v, rtol=1e-9, atol=tol)
                # Which of the two evaluations of a step comes first is no matter
                pairs = e[i].reshape(L, 2, d) if paired else [(None, c) for c in e[i, -L:]]
                cands = e[i] if paired else e[i, -L:]
                cur = locs[i]
                first = pairs[0] if paired else e[i, :-L]
                require(not len(first) or any(same(v, cur) for v in first), "proposal %d moves from %s, it was at %s", i, first[:1], cur)
                require(np.all(cands >= lo) and np.all(cands <= hi), "a move to %s, outside of the space", cands)
                # All the chains these candidates allow: state -> (the moves and their probabilities)
                paths = [(cur, [])]
                for u, v in pairs:
                    longer = []
                    for at, steps in paths:
                        if paired and not (same(u, at) or same(v, at)):
                            continue
                        c = u if paired and not same(u, at) else v
                        a, b = f(c[None])[0], f(at[None])[0]
                        pr = math.exp(min(a - b, 0)) if b > -np.inf else float(a > -np.inf)
                        if b < -690 and a < -690:
                            pr = None                      # no densities to speak of: either is fine
                        if pr is None or pr > 0:
                            longer.append((c, steps + [(at, c, pr, True)]))
                        if pr is None or pr < 1 - 1e-9:
                            longer.append((at, steps + [(at, c, pr, False)]))
                    paths = longer
                ends = [q for q in paths if np.allclose(q[0], last[i], rtol=1e-9, atol=tol)]
                require(ends, "proposal %d ends at %s, the chain from %s through the candidates %s cannot (a better one is always taken, one of density 0 never)",
                        i, last[i], cur, cands.tolist())
                moved += not np.array_equal(last[i], cur)
                if len(ends) == 1:
                    for at, c, pr, took in ends[0][1]:
                        if np.array_equal(c, at) or pr is None:
                            continue
                        require(not took or pr > 1e-26, "a move of density ratio %.3g is accepted", pr)
                        if pr < 1:
                            dev += took - pr
                            var += pr * (1 - pr)
                        # Moves that are not cut off at the limits
                        if paired and np.all(at > lo + 8 * sd) and np.all(at < hi - 8 * sd):
                            moves.append((c - at) / sd)
            locs = last
            m = np.array([q.prob(new) for q in s.proposals], float).mean(axis=0)
            require_close(s.prob(new), m, "density of the sampler after the iteration", 1e-7, 1e-290)
    freedman(dev, var, "number of accepted moves")
    if len(moves) >= 100:
        m = np.array(moves)
        for i in range(d):
            stats.require_uniform(stats.norm_cdf(m[:, i]), "moves along dimension %d in units of mh_sigma" % i)
        ctx.label("moves compared")
    if var > 10:
        ctx.label("rate compared")
    if N < 2 and "second target" not in ctx.labels or not moved:
        ctx.trivial("one proposal or no move")


def where(s, cov):
    """The locations of the proposals."""
    out = []
    for q in s.proposals:
        m = np.ravel(np.array(q.loc, float))
        require(is_normal(q, m, cov), "a proposal of LAIS is no normal of variance sigma around its location")
        out.append(m)
    return out


def now(case, it, target, ctx):
    """The target of an iteration: requests can be for different ones."""
    if case.get("t2") and it == case["switch"]:
        ctx.label("second target")
        target = S.Target(case["t2"], case["sp"], target.clock, target.dt, target.budget)
    return target, target.f


def mpmc(case, ctx):
    sp, p = case["sp"], case["p"]
    d = sp["d"]
    N = p["N"]
    moved = 0
    with S.session(case, evals=10 ** 5) as (s, target, clock):
        start(s, sp, None, N)
        require_close(np.ravel(s.wproposals), np.full(N, 1 / N), "weights of the first proposals", 1e-12)
        n = 0
        for it in range(case["its"]):
            target, f = now(case, it, target, ctx)
            before = copy.deepcopy(s)
            x, w = S.request(s, target, n + 1)
            new = x[n:]
            n = len(x)
            require(len(s.proposals) == N, "%d proposals after an iteration", len(s.proposals))
            alpha = np.array(before.wproposals, float)
            with np.errstate(all="ignore"):
                lq = np.array([np.array(q.log_prob(new), float) for q in before.proposals])
                la = np.log(alpha)[:, None] + lq
                mix = np.logaddexp.reduce(la, axis=0)
                r = np.exp(f(new) - mix)
            if not r.sum() > 0:
                require_close(s.wproposals, alpha, "weights of the proposals when all the weights of the samples are 0", 1e-12)
                continue
            r = r / r.sum()
            post = np.exp(la - mix)
            a = post @ r
            require_close(np.ravel(s.wproposals), a / a.sum(), "weights of the proposals after the iteration", 1e-6, 1e-200)
            moved += 1
            for i in range(N):
                if not a[i] > 1e-100:
                    continue
                v = r * post[i] / a[i]
                mu = v @ new
                right = ((new - mu) * v[:, None]).T @ (new - mu)
                known = (new - mu).T @ (new - mu)
                at = lambda c: np.eye(d) * 10 if np.any(np.isnan(c)) or np.any(c > 10) else c
                edge = np.any(np.abs(known - 10) < 1e-6)
                q = s.proposals[i]
                if fits(q, mu, right) or fits(q, mu, at(right)):
                    ctx.label("covariance")
                elif edge or fits(q, mu, at(known)):
                    ctx.finding("mpmc-covariance")
                else:
                    require(False, "proposal %d after the iteration is not the normal of the weighted mean %s and covariance %s (nor that of the known finding)",
                            i, mu.tolist(), right.tolist())
            m = np.sum([w_ * np.array(q.prob(new), float) for w_, q in zip(np.ravel(s.wproposals), s.proposals)], axis=0)
            require_close(s.prob(new), m, "density of the sampler after the iteration", 1e-6, 1e-250)
    if N < 2 or not moved:
        ctx.trivial("one proposal or no move")


def fits(q, mu, cov):
    try:
        return is_normal(q, mu, cov, 1e-5)
    except np.linalg.LinAlgError:
        return False


@st.composite
def runs(draw, kind, long=False):
    fixed = {}
    if long:
        fixed = {"N": draw(st.integers(2, 4)), "K": draw(st.integers(2, 4))}
        if kind == "dm" and draw(st.booleans()):
            fixed = {"N": draw(st.integers(16, 40)), "K": 1}
        if kind == "lais":
            fixed["L"] = draw(st.integers(1, 3))
    c = draw(S.cases(kind, shapes=("gauss", "gmm", "ramp") if long else ("gauss", "gmm", "gmm", "ramp", "box", "cut", "flat", "checker"), **fixed))
    if kind == "lais" and draw(st.booleans()):
        c["p"]["mh_sigma"] = (draw(num(0.01, 0.04)) * 2 * min(S.halves(c["sp"]))) ** 2
    c["its"] = 60 if long else draw(st.integers(1, 6))
    if c["its"] > 1 and draw(st.booleans()):
        c["switch"] = draw(st.integers(1, c["its"] - 1))
        c["t2"] = draw(S.target(c["sp"], shapes=("gauss", "gmm", "ramp")))
    return c


@st.composite
def batches(draw):
    """M-PMC with many samples for an iteration."""
    c = draw(S.cases("mpmc", shapes=("gauss", "gmm", "ramp"), K=draw(st.integers(40, 200)), N=draw(st.integers(1, 6))))
    c["its"] = draw(st.integers(1, 3))
    return c


PARTS = [Part("mpmc.batches", batches(), mpmc, 15), Part("dm", runs("dm"), dm, 120), Part("dm.choice", runs("dm", True), dm, 16),
         Part("lais", runs("lais"), lais, 120), Part("lais.rate", runs("lais", True), lais, 20),
         Part("mpmc", runs("mpmc"), mpmc, 120)]
