import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Part, require, split
from pbt.gen import seeds

ID = "C20"
RULE = ("A case is a configured sampler, a target and a sequence of requests, draws and resets; the counters are compared after every step. "
        "Non-trivial: at least two steps that change the counters.")


@st.composite
def ops(draw, kind):
    out = [["req", draw(st.integers(1, 25))]]
    n = out[0][1]
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["req", "req", "req", "draw", "reset", "stats"]))
        if op == "req":
            n = max(1, n + draw(st.sampled_from([1, 3, 8, 17, 30, 0, -2])))
            out.append([op if draw(st.integers(0, 3)) else "other", n])
        elif op == "draw":
            out.append([op, draw(st.integers(1, 9))])
            if kind != "mh" and draw(st.integers(0, 5)) == 0:
                out[-1][1] = draw(st.sampled_from([100, 255, 300, 1000, 2500]))
        elif op == "reset":
            n = draw(st.integers(1, 20))
            out += [[op], ["req", n]]
        else:
            out.append([op])
    return out


def check(case, ctx):
    p = case["p"]
    kind = p["m"]
    steps = 0
    with S.session(case) as (s, target, clock):
        base, drawn, requests, n_out = 0, 0, 0, 0
        other = S.Target(case["t2"], case["sp"], clock, target.dt)
        compare(s, kind, p, 0, 0, 0, 0, case)
        kept = []
        for op in case["ops"]:
            before = s.num_proposal_samples
            if op[0] in ("req", "other"):
                x, w = S.request(s, target if op[0] == "req" else other, op[1])
                n_out = len(x)
                requests += 1
                steps += s.num_proposal_samples != before
            elif op[0] == "draw":
                if n_out == 0:
                    continue
                have = target.n + other.n
                y = s.sample(op[1])
                if kind == "mh":
                    require(s.num_proposal_samples - before >= op[1] * p["n_steps"], "%d proposals for %d draws of %d steps each",
                            s.num_proposal_samples - before, op[1], p["n_steps"])
                else:
                    require(len(y) == op[1], "%d samples drawn by sample(%d)", len(y), op[1])
                    require(s.num_proposal_samples == before + op[1], "sample(%d) added %d to the samples drawn", op[1], s.num_proposal_samples - before)
                    require(target.n + other.n == have, "sample evaluates the target")
                    drawn += op[1]
                steps += 1
            elif op[0] == "reset":
                s.reset()
                base, drawn, requests, n_out = target.n + other.n, 0, 0, 0
            elif op[0] == "stats":
                before = (s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals)
                if n_out:
                    s.get_stats(), s.get_NESS(), s.get_acceptance_rate()
                    s.prob(np.array(s.samples[:2], float) if len(s.samples) else np.zeros((1, case["sp"]["d"])))
                require(before == (s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals), "reading the statistics or the density changes the counters")
            compare(s, kind, p, target.n + other.n - base, drawn, requests, n_out, case)
            if n_out:
                now = s.get_stats()
                kept.append((now, dict(now)))
        for now, then in kept:
            require(now.keys() == then.keys() and all(np.array_equal(now[k], then[k], equal_nan=True) for k in then),
                    "statistics read before have changed: %s instead of %s", now, then)
    if steps < 2:
        ctx.trivial("fewer than two steps")


def compare(s, kind, p, evals, drawn, requests, n, case):
    pi, qs, qe = s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals
    require(pi == evals, "%d target evaluations reported, %d made", pi, evals)

    def want(name, got, exp):
        require(got == exp, "%d %s reported, expected %d (%d samples, %d target evaluations, %d draws)", got, name, exp, n, pi, drawn)
    if kind == "dm":
        want("proposal samples", qs, n + drawn)
        want("proposal evaluations", qe, n)
        want("target evaluations", pi, n)
    elif kind == "lais":
        moves = n // (p["N"] * p["K"]) * p["N"] * p["L"]
        want("proposal samples", qs, n + moves + drawn)
        want("proposal evaluations", qe, n)
        want("target evaluations", pi, n + 2 * moves)
    elif kind == "mpmc":
        want("proposal samples", qs, n + drawn)
        want("proposal evaluations", qe, n * (1 + p["N"]))
        want("target evaluations", pi, n)
    elif kind == "hidaisee":
        want("proposal samples", qs, n + drawn)
        want("proposal evaluations", qe, pi)
    elif kind == "tp":
        want("proposal samples", qs, pi + drawn)
        want("proposal evaluations", qe, pi)
    elif kind == "mh":
        want("target evaluations", pi, 2 * qs)
        want("proposal evaluations", qe, 2 * qs)
    elif kind == "rejection":
        want("proposal samples", qs, pi + drawn)
        want("proposal evaluations", qe, pi)
    else:
        want("proposal samples", qs, pi - requests * p["N"] + drawn)
        want("proposal evaluations", qe, 0)
    if n == 0 and kind == "tp":
        return
    stats = s.get_stats()
    for key, val in (("target_evals", pi), ("proposal_samples", qs), ("proposal_evals", qe), ("n_samples", n)):
        require(stats[key] == val, "the statistics report %s = %s instead of %s", key, stats[key], val)


@st.composite
def make(draw, kind):
    c = draw(S.cases(kind))
    c["ops"] = draw(ops(kind))
    c["t2"] = draw(S.target(c["sp"]))
    return c


PARTS = split("counters", S.by_sampler(make, 460, weights={"mpmc": 0.6, "multinested": 0.5, "tp": 1.3}), check)
