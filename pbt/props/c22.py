import copy

import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt import samplers as S
from pbt.core import Part, require, split
from pbt.gen import nums, rows, seeds

ID = "C22"
RULE = ("A case is two or three configured samplers with their own targets and random states and a schedule that interleaves their requests, "
        "draws, density queries and resets; each must give what it gives when it runs alone. Non-trivial: the instances have samples and the "
        "schedule switches between them at least twice.")


def step(s, target, op, case, params):
    """The observable outcome of one operation, as a list of arrays."""
    if op[0] == "req":
        x, w = S.request(s, target, op[1])
        return [x, w, [s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals]]
    if op[0] == "draw":
        return [s.sample(op[1])] if len(s.samples) else []
    if op[0] == "prob":
        lo, hi = np.array(case["sp"]["lo"]), np.array(case["sp"]["hi"])
        at = (lo + hi) / 2 + (hi - lo) / 2 * np.array(case["at"])
        return [s.prob(at), s.log_prob(at)] if len(s.samples) else []
    s.reset()
    return []


class Actor:
    def __init__(self, case, clock, space=None):
        self.case = case
        self.target = S.Target(case["t"], case["sp"], clock, 2.0 ** -5)
        self.args = S.arguments(case["p"], case["sp"], case["t"])
        if space is not None:                       # the very same arrays as another instance
            self.args["space_min"], self.args["space_max"] = space
        self.keep = {k: copy.deepcopy(v) for k, v in self.args.items()}
        np.random.seed(case["seed"])
        self.s = build(case["p"], self.args)
        self.state = np.random.get_state()
        self.log = []
        self.handed = []

    def run(self, op):
        np.random.set_state(self.state)
        out = step(self.s, self.target, op, self.case, self.args)
        self.state = np.random.get_state()
        self.log.append([np.array(o, float) for o in out])
        if op[0] == "req":
            x, w = self.s.importance_sample(self.target, 0, 60.0) if self.case["p"]["m"] not in ("nested", "multinested") else (None, None)
            if x is not None and len(x):
                self.handed.append((x, w, np.array(x), np.array(w)))

    def finish(self, who):
        for k in ("space_min", "space_max"):
            require(np.array_equal(self.args[k], self.keep[k]), "%s: the %s given to the sampler was changed", who, k)
        for k, v in self.keep.items():
            if k in ("space_min", "space_max", "name", "n_samples_kde"):
                continue
            require(self.args.get(k) == v, "%s: the parameter %s given to the sampler was changed from %s to %s", who, k, v, self.args.get(k))
        for x, w, cx, cw in self.handed:
            require(np.array_equal(x, cx) and np.array_equal(w, cw), "%s: samples or weights handed out earlier were changed afterwards", who)


def build(p, args):
    import ais_benchmarks.sampling_methods as M
    cls = {"dm": M.CDeterministicMixtureAIS, "lais": M.CLayeredAIS, "mpmc": M.CMixturePMC, "hidaisee": M.CHiDaiseeSampling,
           "tp": M.CTreePyramidSampling, "mh": M.CMetropolisHastings, "nested": M.CNestedSampling,
           "multinested": M.CMultiNestedSampling, "rejection": M.CRejectionSampling}[p["m"]]
    return cls(args)


def check(case, ctx):
    clock = guard.Clock()
    with guard.virtual_time(clock):
        actors = []
        for i, c in enumerate(case["actors"]):
            share = actors[0].args if i and case["share"] and c["sp"] == case["actors"][0]["sp"] else None
            actors.append(Actor(c, clock, None if share is None else (share["space_min"], share["space_max"])))
        for who, op in case["schedule"]:
            actors[who].run(op)
        for i, a in enumerate(actors):
            a.finish("instance %d (%s)" % (i, a.case["p"]["m"]))
        alone = []
        for i, c in enumerate(case["actors"]):
            b = Actor(c, guard.Clock())
            b.target.clock = clock
            for who, op in case["schedule"]:
                if who == i:
                    b.run(op)
            alone.append(b)
    for i, (a, b) in enumerate(zip(actors, alone)):
        for k, (u, v) in enumerate(zip(a.log, b.log)):
            require(len(u) == len(v) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(u, v)),
                    "operation %d of instance %d (%s) differs from a run on its own with the same seed", k, i, a.case["p"]["m"])
    turns = [w for w, _ in case["schedule"]]
    if sum(a != b for a, b in zip(turns, turns[1:])) < 2 or not all(len(a.log) > 1 for a in actors):
        ctx.trivial("not interleaved")


@st.composite
def make(draw, kind):
    first = draw(S.cases(kind))
    if kind == "multinested" and draw(st.booleans()):
        first["p"]["N"] = draw(st.integers(40, 120))
    first["at"] = draw(rows(3, first["sp"]["d"], -1, 1))
    actors = [first]
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        twin = draw(st.integers(0, 2))
        if twin == 0:                                        # same configuration, other seed
            c = dict(first, seed=draw(seeds))
        elif twin == 1:                                      # same class
            c = draw(S.cases(kind))
            c["at"] = draw(rows(3, c["sp"]["d"], -1, 1))
        else:
            c = draw(S.cases(draw(st.sampled_from(S.KINDS))))
            c["at"] = draw(rows(3, c["sp"]["d"], -1, 1))
        actors.append(c)
    n = [0] * len(actors)
    schedule = []
    for _ in range(draw(st.integers(5, 10))):
        who = draw(st.integers(0, len(actors) - 1)) if not schedule or draw(st.booleans()) else (schedule[-1][0] + 1) % len(actors)
        op = draw(st.sampled_from(["req", "req", "req", "draw", "prob", "reset"]))
        if op == "reset" and n[who]:
            n[who] = 0
            schedule.append([who, ["reset"]])
            continue
        if op in ("draw", "prob") and n[who]:
            schedule.append([who, [op, 3]])
            continue
        n[who] = n[who] + draw(st.integers(1, 14))
        schedule.append([who, ["req", n[who]]])
    return {"actors": actors, "schedule": schedule, "share": draw(st.booleans()), "seed": draw(seeds)}


PARTS = split("interleaved", S.by_sampler(make, 230, weights={"mpmc": 0.8, "multinested": 0.6, "tp": 1.3}), check)
