import copy

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Part, require, require_close, split
from pbt.gen import seeds

ID = "C18"
RULE = ("A case is a configured importance sampler, a target and a number of iterations; the weights after every iteration are compared with "
        "the ratio of the target to the proposal density taken before it. Non-trivial: at least two iterations (or leaves) with weights "
        "that differ by more than 1%.")


def varied(w):
    w = w[w > 0]
    return len(w) > 1 and w.max() > 1.01 * w.min()


def batches(case, ctx):
    """DM-AIS, LAIS, M-PMC: iteration by iteration."""
    kind, n_it = case["p"]["m"], case["its"]
    f = S.log_target(case["t"], case["sp"])
    xs, ratios, sizes = np.zeros((0, case["sp"]["d"])), np.zeros(0), []
    with S.session(case) as (s, target, clock):
        np.random.seed(case["seed"])
        s.reset()
        for i in range(n_it):
            q = copy.deepcopy(s)
            x, w = S.request(s, target, len(xs) + 1)
            new = x[len(xs):]
            require(len(new) > 0, "no new samples")
            with np.errstate(all="ignore"):
                lf = f(new)
                r = np.exp(lf - np.log(np.array(q.prob(new), float)))
            if np.any((lf > -750) & (lf < -680)):
                ctx.trivial("underflow of the target")
                return
            # Far outliers of the mixture underflow: their weight cannot be told
            require(np.all(np.isfinite(r)), "the proposal density is 0 at its own samples")
            xs, ratios = x, np.concatenate((ratios, r))
            sizes.append(len(new))
            if kind == "mpmc":
                a = len(x) - len(new)
                want = r / r.sum() if r.sum() > 0 else r
                require_close(w[a:], want, "weights of the batch", 1e-7, 1e-250)
            else:
                want = ratios / ratios.sum() if ratios.sum() > 0 else ratios
                require_close(w, want, "weights after %d iterations" % (i + 1), 1e-7, 1e-250)
        step_x, step_w = x, w
    # In one request: the same weights if they are the same samples
    with S.session(case) as (s, target, clock):
        np.random.seed(case["seed"])
        s.reset()
        x, w = S.request(s, target, len(step_x))
        if x.shape == step_x.shape and np.array_equal(x, step_x):
            require_close(w, step_w, "weights of %d iterations in one request" % n_it, 1e-9, 1e-300)
            ctx.label("one request compared")
    if n_it < 2 or not varied(ratios):
        ctx.trivial("one iteration or constant weights")


def leaf_of(x, lo, hi):
    inside = np.all((x[:, None, :] >= lo[None] - 1e-12 * np.abs(lo[None])) & (x[:, None, :] <= hi[None] + 1e-12 * np.abs(hi[None])), axis=2)
    require(np.all(inside.any(axis=1)), "a sample lies in no leaf")
    return np.argmax(inside, axis=1), inside.sum(axis=1)


def hidaisee(case, ctx):
    f = S.log_target(case["t"], case["sp"])
    with S.session(case) as (s, target, clock):
        for n in case["reqs"]:
            x, w = S.request(s, target, n)
            leaves = [s.T.nodes[i] for i in s.T.leaves]
            lo = np.array([l.center - l.radius for l in leaves])
            hi = np.array([l.center + l.radius for l in leaves])
            i, many = leaf_of(x, lo, hi)
            require(np.all(many == 1), "a sample lies in two leaves")
            count = np.bincount(i, minlength=len(leaves))
            want = np.exp(f(x)) * np.prod(hi - lo, axis=1)[i] / count[i]
            require_close(w, want, "weights after a request of %d, %d leaves" % (n, len(leaves)), 1e-7, 1e-250)
    ctx.label("leaves %d" % min(len(leaves), 10))
    if len(leaves) < 2 or not varied(w):
        ctx.trivial("a single leaf or constant weights")


def tp(case, ctx):
    f = S.log_target(case["t"], case["sp"])
    p = case["p"]
    with S.session(case) as (s, target, clock):
        for n in case["reqs"]:
            x, w = S.request(s, target, n)
            leaves = [n for n in s.T.nodes if n.is_leaf()]
            c, r = np.array([l.center for l in leaves]), np.array([np.ravel(l.radius)[0] for l in leaves])
            if p["kernel"] == "haar":
                i, many = leaf_of(x, c - r[:, None], c + r[:, None])
                require(np.all(many == 1), "a sample lies in two leaves")
                count = np.bincount(i, minlength=len(leaves))
                require(np.all(count > 0), "a leaf has no sample")
                logq = -np.log((2 * r[i]) ** case["sp"]["d"] * 1.0) + np.log(count[i])
                if p["ess_target"] is None or p["ess_target"] > 1:
                    require(np.all(count == 1), "several samples of a leaf")
            else:
                require(len(x) == len(leaves), "%d samples of %d leaves", len(x), len(leaves))
                if p["resampling"] == "leaf" and len(leaves) > 1:
                    logq = np.array([np.log(s.T.sampler.prob(((x[k] - c[k]) / (2 * r[k])).reshape(1, -1))[0]) for k in range(len(x))]) \
                        - case["sp"]["d"] * np.log(2 * r)
                else:
                    logq = np.array([np.log(leaves[k].sampler.prob(x[k].reshape(1, -1))[0]) for k in range(len(x))])
            with np.errstate(all="ignore"):
                lf = f(x)
                want = np.exp(lf - logq)
            if np.any((lf > -750) & (lf < -680)):
                ctx.trivial("underflow of the target")
                return
            ok = np.isfinite(logq)
            if not ok.all():
                ctx.trivial("underflow of the proposal")
                return
            want = want / want.sum() if want.sum() > 0 else want
            require_close(w, want, "weights after a request of %d, %d leaves" % (n, len(leaves)), 1e-6, 1e-200)
    ctx.label("leaves %d" % min(len(leaves), 10), "samples per leaf %d" % min(5, len(x) // len(leaves)))
    if len(leaves) < 2 or not varied(w):
        ctx.trivial("a single leaf or constant weights")


def equal(case, ctx):
    with S.session(case) as (s, target, clock):
        for n in case["reqs"]:
            start = clock.now
            x, w = S.request(s, target, n)
            if len(x):
                require_close(w, np.full(len(x), 1 / len(x)), "weights of the %d samples" % len(x), 1e-12)
    if len(x) < 2:
        ctx.trivial("no samples")


@st.composite
def its(draw, kind):
    c = draw(S.cases(kind))
    c["its"] = draw(st.integers(1, 5))
    return c


positive = ("gauss", "gmm", "flat", "ramp")


@st.composite
def tree(draw, kernel, ess):
    fixed = {"kernel": kernel}
    if not ess:
        fixed["ess_target"] = draw(st.sampled_from([None, None, 1.5]))
    else:
        fixed["ess_target"] = draw(st.sampled_from([0.3, 0.6, 0.8, 0.95]))
    sp = draw(S.space(long=False))
    t = draw(S.target(sp, shapes=positive if ess else positive + ("box", "cut", "checker")))
    if t["t"] in ("gauss", "gmm"):
        # Zeros in the tails drop samples from those of their leaf
        t["s"] = [[max(v, 0.3) for v in r] for r in t["s"]] if t["t"] == "gmm" else [max(v, 0.3) for v in t["s"]]
    return {"sp": sp, "t": t, "p": draw(S.params("tp", sp, t, **fixed)), "seed": draw(seeds), "reqs": draw(S.requests)}


@st.composite
def far(draw, cases):
    """Sometimes the normalization constant of the target is far from 1."""
    c = draw(cases)
    if draw(st.integers(0, 7)) == 0 and c["p"]["m"] != "rejection":
        c["t"] = dict(c["t"], c=draw(st.sampled_from([1e-120, 1e-90, 1e100])))
    return c


PARTS = split("mixture", {k: (far(its(k)), n) for k, n in (("dm", 120), ("lais", 100), ("mpmc", 70))}, batches) + [
    Part("hidaisee", far(S.cases("hidaisee", reqs=S.requests)), hidaisee, 120),
    Part("tp.haar", far(tree("haar", False)), tp, 60),
    Part("tp.haar ess", far(tree("haar", True)), tp, 90),
    Part("tp.normal", far(tree("normal", False)), tp, 60),
    Part("equal.mh", far(S.cases("mh", reqs=S.requests)), equal, 25),
    Part("equal.rejection", S.cases("rejection", reqs=S.requests), equal, 25)]
