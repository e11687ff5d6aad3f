import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Part, fail, require, require_close, split
from pbt.gen import seeds

ID = "C17"
RULE = ("A case is a configured sampler, a target and a sequence of requests, some of them repeated or smaller than what is there. "
        "Non-trivial: at least two requests, one of which adds samples to those of an earlier one, all served in time.")


def rows(a):
    return sorted(map(tuple, a.tolist()))


def check(case, ctx):
    kind = case["p"]["m"]
    with S.session(case) as (s, target, clock):
        require(len(s.samples) == 0 and len(s.weights) == 0, "a new sampler has %d samples", len(s.samples))
        before = None
        grown = late = False
        for n in case["reqs"]:
            start, evals = clock.now, target.n
            x, w = S.request(s, target, n)
            in_time = clock.now - start < 59.99
            late = late or not in_time
            if in_time:
                require(len(x) >= n, "%d samples for a request of %d", len(x), n)
                want = max(n, 0 if before is None else len(before[0]))
                if kind in ("mh", "rejection", "nested"):
                    require(len(x) == want, "%d samples after a request of %d", len(x), n)
                batch = {"dm": case["p"].get("N", 1) * case["p"].get("K", 1), "lais": case["p"].get("N", 1) * case["p"].get("K", 1),
                         "mpmc": case["p"].get("K", 1), "hidaisee": 1}.get(kind)
                if batch is not None:
                    had = 0 if before is None else len(before[0])
                    require(len(x) == had + max(0, -(-(n - had) // batch)) * batch,
                            "%d samples after a request of %d with %d at hand, in batches of %d", len(x), n, had, batch)
            if before is not None:
                y, v = before
                if kind in S.BATCH:
                    require(len(x) >= len(y) and np.array_equal(x[:len(y)], y), "an earlier sample changed or disappeared")
                elif kind == "hidaisee":
                    old, new = rows(y), rows(x)
                    require(all(r in new for r in set(old)), "an earlier sample disappeared")
                if kind in ("dm", "lais") and v.sum() > 0 and w[:len(v)].sum() > 0:
                    require_close(w[:len(v)] / w[:len(v)].sum(), v, "proportions of the earlier weights", 1e-9, 1e-300)
                elif kind == "mpmc":
                    require(np.array_equal(w[:len(v)], v), "the weight of an earlier sample changed")
                if n <= len(y) and kind != "multinested":
                    grown_now = len(x) != len(y)
                    if kind != "tp" or case["p"]["ess_target"] is None:
                        require(not grown_now, "%d samples turned %d by a request of %d", len(y), len(x), n)
                    if kind != "nested":
                        require(target.n == evals, "%d evaluations of the target for a request of %d with %d at hand", target.n - evals, n, len(y))
                    require(rows(x) == rows(y), "a request of %d with %d at hand changed the samples", n, len(y))
                grown = grown or (len(y) > 0 and len(x) > len(y))
            # What is handed out is not touched by later requests
            before = (x, w)
            if len(x) and kind not in ("tp",):
                require(np.array_equal(np.array(s.samples, float), x), "the samples attribute differs from the samples returned")
        ctx.label("late" if late else "in time")
        if not grown or late:
            ctx.trivial("no request that goes on from earlier ones" if not late else "out of time")


def check_tp(case, ctx):
    try:
        check(case, ctx)
    except AttributeError as e:
        if "numpy" in str(e) and "'int'" in str(e):
            ctx.finding("tp-np-int")
            ctx.trivial("known finding")
            return
        raise


def make(kind):
    return S.cases(kind, reqs=S.requests)


MANY = {"dm": 6, "lais": 6, "mpmc": 4, "hidaisee": 8, "tp": 6, "mh": 4, "nested": 3, "rejection": 6}
mixed = st.sampled_from(["dm", "mixture"]).flatmap(lambda m: S.cases("tp", reqs=S.requests, method=m))
zero = st.sampled_from([k for k in S.KINDS]).flatmap(lambda k: S.cases(k, shapes=("zero",), reqs=st.lists(st.integers(1, 8), min_size=1, max_size=2)))
rounds = st.tuples(st.sampled_from(["dm", "lais"]), st.integers(1, 2), st.integers(1, 2)).flatmap(
    lambda v: S.cases(v[0], N=v[1], K=v[2], reqs=st.lists(st.integers(250, 600), min_size=1, max_size=2)))
PARTS = [Part("rounds", rounds, check, 9)] + split("requests", S.by_sampler(make, 540, weights={"mpmc": 0.5, "multinested": 0.4, "tp": 1.5}), check) + \
    split("many", {k: (S.cases(k, reqs=st.lists(st.integers(80, 250), min_size=1, max_size=2)), n) for k, n in MANY.items()}, check) + \
    [Part("tp other methods", mixed, check_tp, 12), Part("zero target", zero, check, 18)]
