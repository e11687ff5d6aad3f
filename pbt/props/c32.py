import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt import samplers as S
from pbt.core import Part, require, split
from pbt.gen import num, seeds

ID = "C32"
RULE = ("A case is a sequence of requests with timeouts, under a clock that only the evaluations of the target move. Non-trivial: a request runs "
        "out of time after its first iteration, and a later one goes on.")


def iteration(kind, p, d, asked, had, got, leaves):
    """The most evaluations of the target that one iteration takes."""
    if kind == "dm":
        return p["N"] * p["K"]
    if kind == "lais":
        return p["N"] * (p["K"] + 2 * p["L"])
    if kind == "mpmc":
        return p["K"]
    if kind == "hidaisee":
        return 1 + got
    if kind == "tp":
        # The cells that are refined, up to parallel_samples and those of the last expansion; the leaves that are not refined yet
        # (with a target ESS), and every leaf when they are sampled again
        return 1 + p["parallel_samples"] + 2 ** d + (leaves if p["ess_target"] is not None else 0) + (leaves if p["resampling"] == "leaf" else 0)
    if kind == "mh":
        return 2 * (p["n_steps"] + (p["n_burnin"] if not had else 0))
    if kind in ("nested", "multinested"):
        return p["N"] + 2
    return max(asked - had, 1)


def check(case, ctx):
    kind, sp, p = case["p"]["m"], case["sp"], case["p"]
    d = sp["d"]
    late = later = False
    clock = guard.Clock()
    dt = 2.0 ** -6
    with guard.virtual_time(clock):
        target = S.Target(case["t"], sp, clock, dt, 60000)
        s = S.build(p, sp, case["t"])
        had = 0
        for add, ticks in case["reqs"]:
            asked = max(1, had + add)
            tau = dt * ticks
            t0, e0 = clock.now, target.n
            x, w = S.request(s, target, asked, timeout=tau)
            took = clock.now - t0
            leaves = len(s.T.leaves) if kind == "tp" else 0
            if len(x) < asked:
                require(took >= tau - dt / 2, "%d of %d samples after %.4f s of the %.4f s given", len(x), asked, took, tau)
            most = iteration(kind, p, d, asked, had, len(x), leaves) * dt
            require(took <= tau + most + dt / 2, "a request with a timeout of %.4f s takes %.4f s, an iteration %.4f s at most", tau, took, most)
            require(len(x) >= had or (kind == "tp" and p["ess_target"]), "%d samples after there were %d", len(x), had)
            if had and took > tau:
                late = True
            if late and len(x) > had:
                later = True
            if 0 < len(x) < asked:
                ctx.label("partial")
            if len(x) == 0:
                ctx.label("nothing in time")
            had = len(x)
    if not (late and later):
        ctx.trivial("in time")


def check_generous(case, ctx):
    """Requests with all the time in the world, of a target that takes none: all are served."""
    kind, sp = case["p"]["m"], case["sp"]
    clock = guard.Clock()
    with guard.virtual_time(clock):
        target = S.Target(case["t"], sp, clock, 0.0, 60000)
        s = S.build(case["p"], sp, case["t"])
        n = 0
        for add, ticks in case["reqs"]:
            n += max(add, 1)
            x, w = S.request(s, target, n, timeout=0.25 * ticks)
            require(len(x) >= n, "%d samples of %d, in no time", len(x), n)
    if n < 5:
        ctx.trivial("few samples")


def ready(case, ctx):
    """wait_for_ready: True as soon as the distribution is ready, TimeoutError when it is not in time."""
    from ais_benchmarks.distributions import CMultivariateNormal
    clock = guard.Clock(per_read=case["step"])
    polls = []

    class Slow(CMultivariateNormal):
        def is_ready(self):
            polls.append(clock.now)
            return clock.now >= case["at"]

    q = Slow({"mean": np.zeros(1), "sigma": np.eye(1)})
    with guard.virtual_time(clock):
        t0 = clock.now
        try:
            r = q.wait_for_ready(case["timeout"])
        except TimeoutError:
            r = None
        end = clock.now
    if r is None:
        require(end - t0 >= case["timeout"], "wait_for_ready gives up after %.4f s of %.4f s", end - t0, case["timeout"])
        require(end - t0 <= case["timeout"] + 10 * case["step"] + 1e-3, "wait_for_ready takes %.4f s for a timeout of %.4f s", end - t0, case["timeout"])
        require(not any(v >= case["at"] for v in polls), "wait_for_ready times out, the distribution was ready when it asked")
        require(case["at"] > t0 + case["timeout"] - 10 * case["step"] - 1e-3, "wait_for_ready times out after %.4f s, the distribution was ready at %.4f s",
                case["timeout"], case["at"])
        ctx.label("timeout")
    else:
        require(r is True or r == True, "wait_for_ready returns %r", r)
        require(polls and polls[-1] >= case["at"], "wait_for_ready returns before the distribution is ready")
        require(end <= max(case["at"], t0) + 10 * case["step"] + 1e-3, "wait_for_ready returns %.4f s after the distribution is ready", end - case["at"])
        ctx.label("ready")
    p = CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1)})
    with guard.virtual_time(guard.Clock(per_read=case["step"])):
        require(bool(p.wait_for_ready(1.0)), "a distribution that is ready at once is not")


POSITIVE = ("gauss", "gmm", "flat", "ramp")


@st.composite
def make(draw, kind, generous=False):
    shapes = POSITIVE if kind in ("mh", "tp") else POSITIVE + ("box", "cut", "checker")
    if kind == "rejection" and not generous:
        shapes = shapes + ("zero",)
    c = draw(S.cases(kind, shapes=shapes))
    if generous and kind in ("mh", "rejection", "nested", "multinested"):
        c["t"] = {"t": "flat" if kind == "multinested" else draw(st.sampled_from(["flat", "ramp"])), "c": 1.0, "k": [0.5] * c["sp"]["d"]}
        if kind == "rejection":
            c["p"]["slack"] = 1.0
    ticks = st.sampled_from([1, 2, 3, 5, 9, 20, 60, 150, 400])
    c["reqs"] = draw(st.lists(st.tuples(st.sampled_from([1, 3, 10, 30, 100, 0]), ticks).map(list), min_size=1, max_size=3 if generous else 5))
    return c


@st.composite
def waits(draw):
    s = draw(st.sampled_from([1e-3, 1e-2, 0.3]))
    return {"step": s, "timeout": s * draw(num(2, 60)), "at": s * draw(num(0, 120)), "seed": draw(seeds)}


PARTS = split("requests", S.by_sampler(make, 500), check) + \
    split("in time", S.by_sampler(lambda k: make(k, True), 200), check_generous) + [Part("ready", waits(), ready, 100)]
