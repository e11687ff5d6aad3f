import math

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C29"
RULE = ("A case is a run of requests to nested or multi-nested sampling whose every evaluation is known; the live points and the samples are replayed "
        "from them. Non-trivial: at least 5 samples of different likelihood and at least one candidate rejected, or more than 20 samples per live point.")


def weights(f, x, N):
    L = np.exp(f(x))
    i = np.arange(len(x))
    W = L * (np.exp(-i / N) - np.exp(-(i + 1) / N))
    return W / W.sum() if W.sum() > 0 else np.zeros(len(x))


def candidates(c, live):
    """The evaluations after those of the live points, which come first: together or one by one, in whatever order."""
    N = len(live)
    known = len(c) >= N and sorted(map(tuple, c[:N].tolist())) == sorted(map(tuple, live.tolist()))
    return c[N:] if known else c


def replay(case, ctx):
    kind, sp = case["p"]["m"], case["sp"]
    d = sp["d"]
    N = case["p"]["N"]
    f = S.log_target(case["t"], sp)
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    rejected = 0
    several = 0
    with S.session(case, evals=5000) as (s, target, clock):
        old = np.zeros((0, d))
        for n in case["reqs"]:
            live = np.array(s.live_points, float)
            require(live.shape == (N, d), "live points of shape %s for N = %d", live.shape, N)
            require(np.all(live >= lo - 1e-12 * np.abs(lo)) and np.all(live <= hi + 1e-12 * np.abs(hi)), "a live point outside of the space")
            calls, start = len(target.calls), clock.now
            x, w = S.request(s, target, n)
            late = clock.now - start >= 60
            require(np.array_equal(x[:len(old)], old), "a request changes the samples of before")
            # All evaluations of the request: the live points, then the candidates
            c = target.points(calls)
            c = candidates(c, live)
            lv, i = np.exp(f(live)), 0
            cv = np.exp(f(c)) if len(c) else np.zeros(0)
            new = x[len(old):]
            groups = [np.arange(N)]
            if kind == "multinested":
                groups = [np.flatnonzero(e.indices) for e in s.ellipsoids]
                require(sorted(np.concatenate(groups).tolist()) == list(range(N)), "the clusters do not divide the live points: %s", [g.tolist() for g in groups])
                require(len(groups) == 1 or min(map(len, groups)) > d, "a cluster of %d points in %d dimensions", min(map(len, groups)), d)
                several += len(groups) > 1
            g = 0
            share = -(-(n - len(old)) // len(groups))
            for k, y in enumerate(new):
                g = min(k // max(share, 1), len(groups) - 1)
                idx = groups[g]
                low = lv[idx].min()
                at = [j for j in idx if np.array_equal(live[j], y)]
                require(len(at) > 0, "the sample %s is no live point%s", y, "" if len(groups) == 1 else " of its cluster")
                require(lv[at[0]] <= low, "the sample has likelihood %r, the lowest of the live points is %r", lv[at[0]], low)
                while i < len(c) and cv[i] < low:
                    i += 1
                    rejected += 1
                if i == len(c):
                    require(late, "no candidate of likelihood at least %r was evaluated", low)
                    raise Skip("out of time")
                live[at[0]], lv[at[0]] = c[i], cv[i]
                i += 1
            require(i == len(c), "%d candidates are evaluated, %d make the samples", len(c), i)
            got = np.array(s.live_points, float)
            require(sorted(map(tuple, got.tolist())) == sorted(map(tuple, live.tolist())), "the live points after the request are not those of the replay")
            if len(groups) == 1 and len(new):
                v = np.exp(f(new))
                require(np.all(np.diff(v) >= 0), "samples in an order of likelihood that is not increasing: %s", v)
            require_close(w, weights(f, x, N), "weights of %d samples of %d live points" % (len(x), N), 1e-9, 1e-280)
            old = x
    if len(old) > 20 * N:
        ctx.label("more than 20 times N")
    elif len(set(np.exp(f(old)).tolist())) < 5 or not rejected:
        ctx.trivial("short")
    if several:
        ctx.label("several clusters")


def start(case, ctx):
    """The first live points are uniform in the space, also after a reset."""
    sp = case["sp"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    with S.session(case) as (s, target, clock):
        for again in range(2):
            u = (np.array(s.live_points, float) - lo) / (hi - lo)
            require(u.shape == (case["p"]["N"], sp["d"]), "live points of shape %s", u.shape)
            for i in range(sp["d"]):
                stats.require_uniform(u[:, i], "live points along dimension %d" % i)
                if i:
                    stats.require_uniform((u[:, i] + u[:, 0]) % 1, "sums of coordinates of the live points")
            if again == 0:
                S.request(s, target, 2)
                s.reset()


def origin(case, ctx):
    """Candidates of nested sampling: a move of the proposal from a live point chosen at random, and back into the space."""
    sp, p = case["sp"], case["p"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    sd = math.sqrt(p["prop_var"])
    f = S.log_target(case["t"], sp)
    N = p["N"]
    dev = var = 0.0
    moves = []
    with S.session(case, evals=40000) as (s, target, clock):
        have = 0
        for _ in range(case["n"]):
            live = np.array(s.live_points, float)
            calls = len(target.calls)
            x, w = S.request(s, target, have + 1)                # one sample: the live points do not change before its last candidate
            have = len(x)
            c = target.points(calls)
            c = candidates(c, live)
            # Two sides, far from each other
            o = np.sort(live[:, 0])
            k = int(np.argmax(np.diff(o))) if N > 1 else 0
            cut, gap = ((o[k] + o[k + 1]) / 2, o[k + 1] - o[k]) if N > 1 else (0.0, 0.0)
            for y in c:
                near = np.min(np.max(np.abs(live - y) / sd, axis=1))
                require(near < 8, "the candidate %s is %.1f standard deviations of the proposal away from all live points", y, near)
                if gap > 17 * sd:
                    q = (k + 1) / N
                    dev += float(y[0] < cut) - q
                    var += q * (1 - q)
                if N == 1 and np.all((live[0] > lo + 9 * sd) & (live[0] < hi - 9 * sd)):
                    moves.append((y - live[0]) / sd)
    L = math.log(2 / 1e-10)
    bound = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)
    require(abs(dev) <= bound, "the number of candidates from one side of the live points is %.1f off (bound %.1f)", dev, bound)
    if len(moves) >= 80:
        moves = np.array(moves)
        for i in range(sp["d"]):
            stats.require_uniform(stats.norm_cdf(moves[:, i]), "moves of the candidates along dimension %d" % i)
        ctx.label("moves compared")
    if var > 10:
        ctx.label("choice compared")
    if var < 10 and len(moves) < 80:
        ctx.trivial("nothing to compare")


@st.composite
def runs(draw, kind):
    c = draw(S.cases(kind, reqs=S.requests, **({"converged_radius": 1e-30} if kind == "multinested" else {}),
                     shapes=("gauss", "gmm", "gmm", "gauss", "gmm", "ramp", "box", "cut", "flat", "checker")))
    c["reqs"] = [v + draw(st.sampled_from([0, 12])) for v in c["reqs"]]
    if c["t"]["t"] == "gmm" and draw(st.booleans()):
        d = c["sp"]["d"]
        c["t"]["m"] = [[-0.7] * d, [0.7] * d] + c["t"]["m"][2:]
    return c


@st.composite
def starts(draw, kind):
    return draw(S.cases(kind, N=300, shapes=("flat",)))


@st.composite
def origins(draw):
    N = draw(st.sampled_from([1, 1, 2, 3, 6, 12]))
    c = draw(S.cases("nested", N=N, shapes=("flat",) if N > 1 else ("flat", "ramp")))
    w = 2 * min(S.halves(c["sp"]))
    c["p"]["prop_var"] = (draw(num(0.0005, 0.003 if N > 1 else 0.02, 10000)) * w) ** 2
    c["n"] = 250
    return c


@st.composite
def longs(draw):
    """Many samples for the live points there are."""
    c = draw(S.cases("nested", shapes=("flat", "box", "checker"), N=draw(st.integers(1, 3)), d=draw(st.integers(1, 2))))
    c["reqs"] = [draw(st.integers(30, 90)), 120]
    c["p"]["prop_var"] = (draw(num(0.05, 0.2)) * 2 * min(S.halves(c["sp"]))) ** 2
    return c


@st.composite
def crowds(draw):
    """Many live points."""
    c = draw(S.cases("nested", shapes=("gauss", "gmm", "ramp", "box"), N=draw(st.integers(13, 120)), d=draw(st.integers(1, 3)), reqs=S.requests))
    c["reqs"] = [v + draw(st.sampled_from([0, 30])) for v in c["reqs"]]
    return c


PARTS = [Part("replay.crowd", crowds(), replay, 25), Part("replay.long", longs(), replay, 30),
         Part("replay.nested", runs("nested"), replay, 220), Part("replay.multinested", runs("multinested"), replay, 80),
         Part("start.nested", starts("nested"), start, 12), Part("start.multinested", starts("multinested"), start, 8),
         Part("origin", origins(), origin, 20)]
