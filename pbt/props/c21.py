import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Part, require, split
from pbt.gen import num, nums, rows, seeds

ID = "C21"
RULE = ("A case is a configured sampler, a target, a history of requests (also of another target, and short of time) before the reset, and "
        "requests after it, which are compared with those of a fresh instance. Non-trivial: the history and the requests both left samples.")


def same(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %s after the reset, %s of a fresh instance", what, a.shape, b.shape)
    require(np.array_equal(a, b, equal_nan=True), "%s differ between a reset and a fresh instance", what)


def early(f, *args):
    """The answer before any request; some samplers have none then."""
    try:
        return np.array(f(*args), float)
    except Exception:
        return []


def observe(s, target, case, clock):
    out = []
    np.random.seed(case["seed"])
    s.reset()
    require(len(s.samples) == 0 and len(s.weights) == 0, "%d samples and %d weights after the reset", len(s.samples), len(s.weights))
    require(s.num_target_evals == s.num_proposal_samples == s.num_proposal_evals == 0, "counters %d, %d, %d after the reset",
            s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals)
    out.append(("density after the reset", early(s.prob, points(case))))
    out.append(("log density after the reset", early(s.log_prob, points(case))))
    if case["p"]["m"] not in ("mh", "nested", "multinested", "rejection"):       # these draw from the target of before
        out.append(("draws after the reset", early(s.sample, 2)))
    for n in case["reqs"]:
        x, w = S.request(s, target, n)
        out += [("samples of a request of %d" % n, x), ("weights of a request of %d" % n, w)]
        if len(x) > 1:
            st = s.get_stats()
            out += [("statistics", [st[k] for k in ("proposal_samples", "proposal_evals", "target_evals", "n_samples")]),
                    ("NESS", s.get_NESS()), ("acceptance rate", s.get_acceptance_rate())]
    if len(x):
        out += [("density", s.prob(points(case))), ("log density", s.log_prob(points(case)))]
        out += [("draws", s.sample(4))]
        out += [("density after draws", s.prob(points(case)))]
    out.append(("random numbers afterwards", np.random.rand()))
    return out, len(x)


def points(case):
    lo, hi = np.array(case["sp"]["lo"]), np.array(case["sp"]["hi"])
    return (lo + hi) / 2 + (hi - lo) / 2 * np.array(case["at"])


def check(case, ctx):
    with S.session(case) as (s, target, clock):
        other = S.Target(case["t2"], case["sp"], clock, target.dt)
        had = 0
        for n, timeout, which in case["history"]:
            x, w = S.request(s, target if which == 0 else other, n, timeout)
            had = len(x)
        if had and case["draws"]:
            s.sample(case["draws"])
            s.prob(points(case))
        got, n_got = observe(s, target, case, clock)
        for i in range(case["again"]):                                      # and again
            got, n_got = observe(s, target, case, clock)
    with S.session(case) as (s, target, clock):
        want, n_want = observe(s, target, case, clock)
    require(len(got) == len(want), "%d results after the reset, %d of a fresh instance", len(got), len(want))
    for (what, a), (_, b) in zip(got, want):
        same(a, b, what)
    if not had or not n_got:
        ctx.trivial("no samples before or after the reset")


@st.composite
def make(draw, kind):
    c = draw(S.cases(kind))
    c["t2"] = draw(S.target(c["sp"]))
    c["t2"]["c"] = min(c["t2"]["c"], c["t"]["c"])
    if kind == "rejection":
        c["t2"] = dict(c["t"], c=c["t"]["c"] / 2)
    c["history"] = draw(st.lists(st.tuples(st.integers(1, 30), st.sampled_from([60.0, 60.0, 1.0]), st.integers(0, 1)), min_size=1, max_size=3).map(
        lambda h: [[sum(x[0] for x in h[:i + 1]), x[1], x[2]] for i, x in enumerate(h)]))
    c["reqs"] = draw(S._requests(3))
    c["draws"] = draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.sampled_from([40, 300, 1500] if kind != "mh" else [40])))
    c["again"] = draw(st.sampled_from([0, 0, 1]))
    c["at"] = draw(rows(4, c["sp"]["d"], -1, 1))
    return c


PARTS = split("reset", S.by_sampler(make, 300, weights={"mpmc": 0.6, "multinested": 0.5, "tp": 1.3}), check)
