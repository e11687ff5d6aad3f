import math

import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C27"
RULE = ("A case is a chain driven by moves the harness proposes and records, on a target whose ratios it knows. Non-trivial: at least one move is "
        "rejected and one accepted (exact replay), or at least 20 moves with an acceptance probability between 0.02 and 0.98 (rates).")


class Moves:
    """The proposal distribution: moves given by the harness, the first of them none at all, so that the start is known."""

    def __init__(self, d, seed, spread, shift=0.0, skew=False):
        self.rng = np.random.RandomState(seed % 2 ** 32)
        self.d, self.spread, self.skew = d, np.array(spread, float), skew
        self.shift = shift * self.spread
        self.moves = []
        self.dims = d

    def sample(self, n=1, *args, **kw):
        out = []
        for _ in range(n):
            m = np.zeros(self.d) if not self.moves else self.shift + self.spread * self.rng.normal(size=self.d)
            self.moves.append(m)
            out.append(m)
        return np.array(out)

    def log_q(self, x):
        x = np.asarray(x, float).reshape(-1, self.d)
        return -0.5 * np.sum(((x - self.shift) / self.spread) ** 2, axis=1)

    def log_prob(self, x):
        return self.log_q(x)

    def prob(self, x):
        return np.exp(self.log_q(x))


def build(case, **kw):
    import ais_benchmarks.sampling_methods as M
    a = S.arguments(case["p"], case["sp"])
    a.update(kw)
    return M.CMetropolisHastings(a)


def chain(case):
    sp = case["sp"]
    clock = guard.Clock()
    t = S.Target(case["t"], sp, clock, 2.0 ** -12, max(8000, 3 * case.get("n", 0)))
    spread = np.array(S.halves(sp)) * case["spread"]
    q = Moves(sp["d"], case["seed"], spread, case.get("shift", 0.0))
    return clock, t, q


def second(case, clock):
    return S.Target(case["t2"], case["sp"], clock, 2.0 ** -12, 8000) if case.get("t2") else None


def replay(case, ctx):
    """Targets of one level: every move is accepted or not, without chance."""
    sp, p = case["sp"], case["p"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    f = S.log_target(case["t"], sp)
    clock, target, q = chain(case)
    later = second(case, clock)
    rejected = accepted = 0
    with guard.virtual_time(clock):
        s = build(case, proposal_d=q)
        n = 0
        change = math.inf
        got, states = np.zeros((0, sp["d"])), []
        for k, ask in enumerate(case["reqs"]):
            if later and k == 1:
                change = p["n_burnin"] + n * p["n_steps"]
            try:
                x, w = S.request(s, later if k and later else target, ask, timeout=1e6)
            except guard.StepLimit:
                if f(target.calls[0][0])[0] > -np.inf and not later:
                    raise
                raise Skip("the support is not found from the start")
            require(len(x) == max(n, ask), "%d samples after a request of %d", len(x), ask)
            n = len(x)
            got = x
        # Replay: the first move is none, so the first point evaluated is the start
        x0 = target.calls[0][0][0]
        require(np.all(x0 >= lo) and np.all(x0 <= hi), "the chain starts at %s, outside of the space", x0)
        cur, i = x0, 0
        total = p["n_burnin"] + n * p["n_steps"]
        while len(states) < total:
            if len(states) == change:
                f = S.log_target(case["t2"], sp)
                ctx.label("second target")
            while True:
                require(i < len(q.moves), "%d moves are proposed for %d steps of the chain", len(q.moves), total)
                new = np.clip(cur + q.moves[i], lo, hi)
                i += 1
                a, b = f(new[None])[0], f(cur[None])[0]
                if a > -np.inf:                            # level or entering the support
                    accepted += int(not np.array_equal(new, cur))
                    cur = new
                    break
                rejected += 1
                if b > -np.inf:
                    break                                  # stays
            states.append(cur)
        require(i == len(q.moves), "%d moves are proposed, %d make the steps of the chain", len(q.moves), i)
        want = np.array([states[p["n_burnin"] + (j + 1) * p["n_steps"] - 1] for j in range(n)])
        require_close(got, want, "samples of the chain (burn-in %d, thinning %d)" % (p["n_burnin"], p["n_steps"]), 1e-9, 1e-9 * float(np.max(np.abs(hi) + np.abs(lo))))
    ctx.label("outside" if f(x0[None])[0] == -np.inf else "inside", "rejections" if rejected else "no rejection")
    if not (accepted and (rejected or case["t"]["t"] == "flat")):
        ctx.trivial("one outcome")


def rates(case, ctx):
    """Every state of the chain is returned: each decision is compared with its probability."""
    sp = case["sp"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    f = S.log_target(case["t"], sp)
    clock, target, q = chain(case)
    later = second(case, clock)
    with guard.virtual_time(clock):
        s = build(case, proposal_d=q, n_burnin=0, n_steps=1)
        try:
            k = case["n"]
            if later:                                        # the rest of the chain is on another target
                k = case["n"] // 10
                S.request(s, target, k, timeout=1e6)
            x, w = S.request(s, later or target, case["n"], timeout=1e6)
        except guard.StepLimit:
            if f(target.calls[0][0])[0] > -np.inf:
                raise
        # The first move is none: the first point evaluated is the start
        if f(target.calls[0][0])[0] == -np.inf:
            raise Skip("the chain starts outside of the support")
        require(len(x) == case["n"], "%d samples after a request of %d", len(x), case["n"])
        require(len(q.moves) == case["n"], "%d moves are proposed for %d steps", len(q.moves), case["n"])
    scale = 1e-9 * float(np.max(np.abs(hi) + np.abs(lo)))
    old = x[:-1]
    new = np.clip(old + np.array(q.moves[1:]), lo, hi)
    moved = np.max(np.abs(x[1:] - old), axis=1) > 0
    taken = np.max(np.abs(x[1:] - new), axis=1) <= scale
    require(np.all(taken | ~moved), "the chain goes from %s to %s where %s was proposed", *[v[np.argmax(~(taken | ~moved))] for v in (old, x[1:], new)])
    if later:
        ctx.label("second target")
        one, two = f, S.log_target(case["t2"], sp)
        f = lambda v: np.where(np.arange(len(v)) < k - 1, one(v), two(v))          # noqa: E731
    with np.errstate(all="ignore"):
        la = f(new) - f(old) + q.log_q(old - new) - q.log_q(new - old)
        a = np.exp(np.minimum(la, 0))
    far = np.max(np.abs(new - old), axis=1) > scale           # a move of no length tells nothing
    bad = far & (la > 1e-9) & ~moved
    require(not bad.any(), "a move with ratio %.6g is rejected", np.exp(la[np.argmax(bad)]))
    bad = far & (la < -60) & moved
    require(not bad.any(), "a move with log ratio %.6g is accepted", la[np.argmax(bad)])
    m = far & (la <= 1e-9)
    # Sums of the differences: martingales, at any selection known before the decision
    sel = {"all": m, "near 1": m & (a > 0.95), "low": m & (a < 0.3), "middle": m & (a >= 0.3) & (a < 0.7), "high": m & (a >= 0.7), "after a rejection": m & np.insert(~moved[:-1], 0, False)}
    for name, k in sel.items():
        if k.sum() == 0:
            continue
        dev, var = float(np.sum(moved[k] - a[k])), float(np.sum(a[k] * (1 - a[k])))
        L = math.log(2 / 1e-10)
        bound = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)    # Freedman, each step at most 1
        require(abs(dev) <= bound, "%d of %d moves are accepted, expected %.1f +- %.1f (%s)", moved[k].sum(), k.sum(), a[k].sum(), bound, name)
    if np.sum((a > 0.02) & (a < 0.98) & far) < 20:
        ctx.trivial("sure decisions")
    ctx.label("asymmetric" if case["shift"] else "symmetric")


def default(case, ctx):
    """The proposal of the parameter proposal_sigma: normal moves of that variance, read off a chain that takes them all."""
    sp = case["sp"]
    with S.session({**case, "t": {"t": "flat", "c": 1.0}}, evals=10 ** 5, budget=10 ** 6) as (s, target, clock):
        n = 1500
        x, w = S.request(s, target, n)
        require(len(x) == n, "%d samples after a request of %d", len(x), n)
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    sd = math.sqrt(case["p"]["proposal_sigma"])
    step = np.diff(x, axis=0)
    free = np.all((x > lo) & (x < hi), axis=1)
    for i in range(sp["d"]):
        # Moves from points far from the limits, relative to them: none is clipped
        mid = (x[:-1, i] > lo[i] + 7 * sd) & (x[:-1, i] < hi[i] - 7 * sd)
        if mid.sum() >= 100:
            stats.require_uniform(stats.norm_cdf(step[mid, i] / sd), "moves along dimension %d in units of their standard deviation" % i, 1e-10)
            ctx.label("moves compared")
            if i:
                c = float(np.mean(np.sign(step[mid, i]) * np.sign(step[mid, 0])))
                require(abs(c) <= 2 * stats.hoeffding(int(mid.sum())), "moves along different dimensions agree in sign: %.3f", c)
    if "moves compared" not in ctx.labels:
        ctx.trivial("clipped")


@st.composite
def chains(draw, shapes, statistical=False, sp=None):
    sp = draw(S.space()) if sp is None else sp
    t = draw(S.target(sp, shapes=shapes))
    if t["t"] == "checker":
        t["low"] = max(t["low"], 0.01) if statistical else 0.0
    lc = st.sampled_from([0.0, 0.0, -2000.0, 1500.0])                  # densities beyond the range of the floats: the logarithms are not
    t["lc"] = draw(lc)
    p = {"m": "mh", "n_burnin": draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(10, 400))),
         "n_steps": draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 60))), "proposal_sigma": 1.0,
         "kde_bw": 0.1, "n_samples_kde": draw(st.integers(1, 12))}
    c = {"sp": sp, "t": t, "p": p, "seed": draw(seeds), "spread": draw(num(0.1, 1.2))}
    if statistical:
        c["n"] = 700
        c["shift"] = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0]))
    else:
        c["reqs"] = draw(S.requests)
    if draw(st.integers(0, 2)) == 0 and (not statistical or t["t"] in ("gauss", "gmm", "ramp")):
        # Later requests are for another target, which may be far higher or lower where the chain is
        c["t2"] = draw(S.target(sp, shapes=shapes))
        if c["t2"]["t"] == "checker":
            c["t2"]["low"] = 0.0
        c["t2"]["lc"] = draw(lc)
    return c


@st.composite
def wide(draw):
    """Many dimensions."""
    d = draw(st.integers(6, 14))
    sp = draw(S.space(d=d, long=False))
    c = draw(chains(("ramp", "checker"), True, sp=sp))
    c["spread"] = draw(num(0.1, 0.4))
    c["n"] = 1200
    return c


@st.composite
def slight(draw):
    """Long chains of which nearly all moves are accepted: what is left out counts."""
    c = draw(chains(("flat",), True))
    c["n"], c["shift"] = 12000, draw(num(0.015, 0.03)) * draw(st.sampled_from([1, -1]))
    return c


@st.composite
def defaults(draw):
    sp = draw(S.space(d=draw(st.integers(1, 2))))
    w = 2 * min(S.halves(sp))
    p = {"m": "mh", "n_burnin": draw(st.integers(0, 2)), "n_steps": 1, "proposal_sigma": (draw(num(0.005, 0.03)) * w) ** 2, "kde_bw": 0.1, "n_samples_kde": 3}
    return {"sp": sp, "t": {}, "p": p, "seed": draw(seeds)}


PARTS = [Part("replay.%s" % k, chains((k,)), replay, n) for k, n in (("flat", 60), ("box", 120), ("checker", 120))] + \
    split("rates", {k: (chains((k,), True), n) for k, n in (("gauss", 20), ("gmm", 15), ("ramp", 25), ("checker", 15), ("cut", 10))}, rates) + \
    [Part("wide", wide(), rates, 12), Part("slight", slight(), rates, 5), Part("default", defaults(), default, 25)]
