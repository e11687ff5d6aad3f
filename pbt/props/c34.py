import math
import os

import hypothesis.strategies as st
import numpy as np

from pbt import guard, tables
from pbt import samplers as S
from pbt.core import Part, fail, require, split
from pbt.gen import num, nums, seeds

ID = "C34"
RULE = ("A case is a sampler and a target with metrics, a schedule and a number of repetitions, or a set of files; every call of the benchmark to the sampler "
        "and every evaluation of both densities is recorded and the rows of the results are computed again. Non-trivial: at least two rows, with a metric.")
METRICS = ["KLD", "JSD", "EVMSE", "T", "NESS"]


class Log(list):
    """The calls of the benchmark to a sampler; the evaluations of the densities in between belong to the call before them."""

    def __init__(self):
        super().__init__()
        self.state = {"busy": False}

    def target(self, x, lp):
        if not self.state["busy"] and self and "p" in self[-1]:
            self[-1]["p"].append((np.array(x, float, copy=True), np.array(lp, float, copy=True)))


class Recorder(S.Target):
    """The target of a benchmark: with a support and a name, and a record of its evaluations as a density."""

    def __init__(self, case, clock, dt, log):
        super().__init__(case["t"], case["sp"], clock, dt)
        self.name = case.get("target", "target")
        self.log = log

    def support(self):
        return np.array([self.lo, self.hi])

    def log_prob(self, x):
        v = super().log_prob(x)
        self.log.target(x, v)
        return v

    def prob(self, x):
        v = super().prob(x)
        with np.errstate(all="ignore"):
            self.log.target(x, np.log(v))
        return v


def instrument(s, target, log):
    """Records what a sampler is asked and what it answers, and what it says of itself right after."""
    request, reset, prob, log_prob = s.importance_sample, s.reset, s.prob, s.log_prob
    state = log.state
    def importance_sample(*a, **k):
        names = ("target_d", "n_samples", "timeout")
        args = dict(zip(names, a), **k)
        t0 = target.clock.now
        state["busy"] = True
        out = request(*a, **k)
        state["busy"] = False
        log.append({"op": "request", "n": args["n_samples"], "timeout": args.get("timeout", 60), "same": args["target_d"] is target, "len": len(out[0]),
                    "took": target.clock.now - t0, "ness": float(s.get_NESS()), "rate": float(s.get_acceptance_rate()),
                    "counts": (s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals), "q": [], "p": []})
        return out

    def new_reset(*a, **k):
        log.append({"op": "reset"})
        return reset(*a, **k)

    def new_prob(x):
        v = prob(x)
        if not state["busy"] and log and "q" in log[-1]:
            with np.errstate(all="ignore"):
                log[-1]["q"].append((np.array(x, float, copy=True), np.log(np.array(v, float, copy=True)).ravel()))
        return v

    def new_log_prob(x):
        v = log_prob(x)
        if not state["busy"] and log and "q" in log[-1]:
            log[-1]["q"].append((np.array(x, float, copy=True), np.array(v, float, copy=True).ravel()))
        return v
    s.importance_sample, s.reset, s.prob, s.log_prob = importance_sample, new_reset, new_prob, new_log_prob
    return s


def run(case, path):
    """(rows of the file, record of the calls)"""
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    clock = guard.Clock()
    log = Log()
    np.random.seed(case["seed"] % 2 ** 32)
    with guard.virtual_time(clock):
        target = Recorder(case, clock, 2.0 ** -6, log)
        target.lo, target.hi = np.array(case["sp"]["lo"], float), np.array(case["sp"]["hi"], float)
        s = S.build(case["p"], case["sp"], case["t"])
        s.name = case.get("method", "method")
        instrument(s, target, log)
        open(path, "w").close()
        CBenchmark.evaluate_method(ndims=case["sp"]["d"], target_dist=target, sampling_method=s, max_samples=case["max"],
                                   sampling_eval_samples=case["eval"], metrics=list(case["metrics"]), rseed=case["rseed"], n_reps=case["reps"],
                                   batch_size=case["batch"], debug=False, filename=path, max_sampling_time=600.0, debug_plot_path=None)
    with open(path) as f:
        return f.read(), log, target


def value(text, want, digits, what):
    try:
        got = float(text)
    except ValueError:
        fail("%s is %r", what, text)
    if math.isnan(want) or math.isnan(got):
        require(math.isnan(want) and math.isnan(got), "%s is %r instead of %r", what, text, want)
        return
    if math.isinf(want) or math.isinf(got):
        require(got == want, "%s is %r instead of %r", what, text, want)
        return
    require(abs(got - want) <= 0.51 * 10.0 ** -digits + 1e-6 * abs(want), "%s is %s instead of %.9g", what, text, want)


def merged(r):
    return any(len(v) > 12 and v.count(".") > 1 for v in r)


def check_row(case, ctx):
    """A single row, of a sampler with any effective sample size."""
    import types
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    num = [float(v) for v in case["values"]]
    m = types.SimpleNamespace(get_NESS=lambda: float(case["ness"]), name="m", get_acceptance_rate=lambda: case["rate"], num_proposal_samples=case["counts"][0],
                              num_proposal_evals=case["counts"][1], num_target_evals=case["counts"][2])
    path = os.path.join(os.environ["PBT_SCRATCH"], "c34r.txt")
    with open(path, "w") as f:
        f.write("before\n")
    CBenchmark.write_results(dict(zip(["KLD", "JSD", "T"], num)), m, types.SimpleNamespace(dims=case["d"], name="t"), case["n"], path)
    with open(path) as f:
        text = f.read()
    require(text.startswith("before\n"), "earlier rows are lost: %r", text[:20])
    text = text[7:]
    r = text.split()
    wide = len("%.3f" % case["ness"]) >= 9
    ctx.label("wide" if wide else "narrow")
    want = 9 + len(num)
    if len(r) != want and wide and num:
        require(len(r) == want - 1, "a row has %d values instead of %d: %s", len(r), want, text)
        ctx.finding("wide-ness")
        return
    require(text.endswith("\n") and len(r) == want, "a row has %d values instead of %d: %s", len(r), want, text)
    got = [float(v) for v in r[:len(num) + 3] + r[len(num) + 5:]]
    expected = [case["d"], case["n"]] + num + [float(case["ness"]), case["rate"]] + case["counts"]
    for a, b, q in zip(got, expected, [0, 0] + [5] * len(num) + [3, 3, 0, 0, 0]):
        require(abs(a - b) <= 0.51 * 10.0 ** -q + 1e-9 * abs(b), "%r is written as %r in: %s", b, a, text)
    require(r[len(num) + 3:len(num) + 5] == ["m", "t"], "the names are %s", r[len(num) + 3:len(num) + 5])
    if not num:
        ctx.trivial("no metrics")


def check(case, ctx):
    import pandas  # noqa: F401 (imported by the benchmark)
    path = os.path.join(os.environ["PBT_SCRATCH"], "c34.txt")
    text, log, target = run(case, path)
    sp, batch = case["sp"], case["batch"]
    rows = text.split("\n")
    require(rows[-1] == "", "the last row does not end")
    rows = [r.split() for r in rows[:-1]]
    # The schedule: every repetition starts from scratch and asks for a batch more than there are, until there are enough
    requests = [e for e in log if e["op"] == "request"]
    reps, n = 0, None
    for e in log:
        if e["op"] == "reset":
            require(n is None or n >= case["max"] or n == "fresh", "a repetition ends with %s of %d samples", n, case["max"])
            reps += n != "fresh"
            n = "fresh"
        else:
            require(n is not None, "a request before the sampler is reset")
            require(n == "fresh" or n < case["max"], "a request with %s samples of %d", n, case["max"])
            want = batch if n == "fresh" else n + batch
            require(e["n"] == want, "%s samples are requested after %s with a batch of %d", e["n"], n, batch)
            e["first"] = n == "fresh"
            require(e["same"], "samples of another target are requested")
            n = e["len"]
    require(n is not None and (n == "fresh" or n >= case["max"]), "the benchmark ends with %s of %d samples", n, case["max"])
    require(reps == case["reps"], "%d repetitions instead of %d", reps, case["reps"])
    require(len(rows) == len(requests), "%d rows for %d requests", len(rows), len(requests))
    named = [m for m in case["metrics"] if m != "NESS"]
    spent = 0.0
    for i, (r, e) in enumerate(zip(rows, requests)):
        if e["first"]:
            spent = 0.0
        spent += e["took"]
        want = 2 + len(named) + 7
        if len(r) != want and merged(r):
            ctx.finding("wide-ness")
            return
        require(len(r) == want, "row %d has %d values instead of %d: %s", i, len(r), want, " ".join(r))
        require(int(r[0]) == sp["d"], "row %d has the dimension %s instead of %d", i, r[0], sp["d"])
        require(int(r[1]) == e["len"], "row %d has %s samples, there are %d", i, r[1], e["len"])
        metrics(case, r[2:2 + len(named)], named, e, spent, i)
        tail = r[2 + len(named):]
        value(tail[0], e["ness"], 3, "NESS of row %d" % i)
        require(tail[1] == case.get("method", "method") and tail[2] == case.get("target", "target"), "row %d is of %s on %s", i, tail[1], tail[2])
        value(tail[3], e["rate"], 3, "acceptance rate of row %d" % i)
        require([int(v) for v in tail[4:]] == [int(v) for v in e["counts"]], "counters of row %d are %s instead of %s", i, tail[4:], list(e["counts"]))
    if case["rseed"] >= 0 and "T" not in case["metrics"]:
        again, _, _ = run(dict(case, seed=case["seed"] + 1), path)
        require(again == text, "two runs with the seed %d write different rows", case["rseed"])
    ctx.label(*case["metrics"])
    if len(rows) < 2 or not named:
        ctx.trivial("few rows")


def metrics(case, got, named, e, spent, i):
    """Every metric once, in order, on its own points: uniform over the support."""
    q, p = list(e["q"]), list(e["p"])
    lo, hi = np.array(case["sp"]["lo"]), np.array(case["sp"]["hi"])
    seen = []
    for text, m in zip(got, named):
        what = "%s of row %d" % (m, i)
        if m == "T":
            require(abs(float(text) - spent) <= 1e-4 * (1 + spent), "%s is %s, the requests took %.5f s", what, text, spent)
            continue
        require(q and p, "%s is not computed from both densities", what)
        xq, lq = q.pop(0)
        xp, lp = p.pop(0)
        require(xq.shape == (case["eval"], case["sp"]["d"]) and np.array_equal(xp, xq), "%s is computed on points of shape %s, %d were asked for", what, xq.shape, case["eval"])
        require(np.all(xp >= lo) and np.all(xp <= hi), "%s is computed on points outside of the support", what)
        seen.append(xp)
        if m == "KLD":
            value(text, tables.kl(lp, lq)[0], 5, what)
        elif m == "JSD":
            value(text, tables.jsd(lp, lq), 5, what)
        else:
            if not ((lp > -np.inf).any() and (lq > -np.inf).any()):
                continue
            a, b = np.exp(tables.normalized(lp)), np.exp(tables.normalized(lq))
            value(text, float(np.sum((a @ xp - b @ xp) ** 2)), 5, what)
    require(not q and not p, "row %d: densities are evaluated %d and %d more times than there are metrics", i, len(p), len(q))
    require(len(seen) < 2 or case["eval"] < 1 or not np.array_equal(seen[0], seen[1]), "the metrics of row %d use the same points", i)


def header(case, ctx):
    """run(): a header, and the rows of every method on every target, in the order of the files."""
    import pandas  # noqa: F401
    from pbt.props import c33
    b = c33.benchmark()
    d = os.environ["PBT_SCRATCH"]
    targets = [{"name": "t%d" % i, "type": "CMultivariateUniform", "params": {"center": [0.0] * k, "radius": [1.0] * k}, "batch_size": case["batch"],
                "nsamples": case["max"], "nsamples_eval": 10} for i, k in enumerate(case["dims"])]
    kinds = {"hidaisee": ("CHiDaiseeSampling", {"target_ess": 0.9, "n_min": 3, "tau": 0.01}),
             "mh": ("CMetropolisHastings", {"n_burnin": 2, "n_steps": 1, "proposal_sigma": 0.1, "kde_bw": 0.1, "n_samples_kde": 3}),
             "dm": ("CDeterministicMixtureAIS", {"K": 2, "N": 2, "J": 10, "sigma": 0.1})}
    methods = [{"name": "m%d" % i, "type": kinds[k][0], "debug": False, "params": kinds[k][1]} for i, k in enumerate(case["methods"])]
    c33.write("b.yaml", {"targets": targets})
    c33.write("m.yaml", {"methods": methods})
    config = {"metrics": case["metrics"], "nreps": case["reps"], "rseed": case["rseed"], "text": False, "show": False, "save": False, "path": d + "/plots/a/",
              "plots": False, "plots_path": d + "/plots/b/", "dpi": 50}
    path = c33.config_file(config, "c.yaml")
    out = os.path.join(d, "results", "r.txt")

    def go(name):
        with guard.virtual_time(guard.Clock(per_read=1e-4)):
            c33.benchmark().run(d + "/b.yaml", d + "/m.yaml", path, name)
        with open(name) as f:
            return f.read()
    text = go(out)
    rows = [r.split() for r in text.split("\n")]
    require(rows[-1] == [], "the last row does not end")
    head, rows = rows[0], rows[1:-1]
    want = ["dims", "output_samples"] + case["metrics"] + ["NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]
    known = [m for m in case["metrics"] if m in ("KLD", "JSD", "EVMSE", "T")]
    if head != want:
        # Without the metrics that have no value of their own
        require(head == want[:2] + known + want[2 + len(case["metrics"]):], "the header is %s", " ".join(head))
    for r in rows:
        if len(r) != len(head) and merged(r):
            ctx.finding("wide-ness")
            return
        if len(r) != len(head):
            require(len(r) == len(head) - (len(case["metrics"]) - len(known)), "a row has %d values, the header has %d names: %s", len(r), len(head), " ".join(r))
            ctx.finding("ness-twice" if "NESS" in case["metrics"] else "unknown-metric")
    got = [(int(r[0]), r[-6], r[-5]) for r in rows]
    order = []
    for g in got:
        if not order or order[-1] != g:
            order.append(g)
    full = [(k, "m%d" % j, "t%d" % i) for i, k in enumerate(case["dims"]) for j in range(len(case["methods"]))]
    require(order == full, "the rows are of %s instead of %s", order, full)
    for g in full:
        sizes = [int(r[1]) for r, h in zip(rows, got) if h == g]
        ends = [n for n in sizes if n >= case["max"]]
        require(len(ends) == case["reps"] and sizes[-1] >= case["max"], "%s on %s has %d complete repetitions of %d: %s", g[1], g[2], len(ends), case["reps"], sizes)
    if case["rseed"] >= 0 and "T" not in case["metrics"]:
        require(go(out) == text, "two runs with the seed %d write different results", case["rseed"])
    if len(full) < 2 or not known:
        ctx.trivial("one method on one target")


def check_limit(case, ctx):
    """The time limit of an evaluation: with a target that takes its time, it ends after the limit and one more request."""
    import pandas  # noqa: F401
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    clock = guard.Clock()
    with guard.virtual_time(clock):
        log = Log()
        target = Recorder(case, clock, 1.0, log)
        target.lo, target.hi = np.array(case["sp"]["lo"], float), np.array(case["sp"]["hi"], float)
        s = S.build(case["p"], case["sp"], case["t"])
        s.name = "m"
        instrument(s, target, log)
        path = os.path.join(os.environ["PBT_SCRATCH"], "c34t.txt")
        open(path, "w").close()
        CBenchmark.evaluate_method(ndims=case["sp"]["d"], target_dist=target, sampling_method=s, max_samples=200, sampling_eval_samples=5, metrics=[],
                                   rseed=1, n_reps=1, batch_size=4, debug=False, filename=path, max_sampling_time=case["limit"], debug_plot_path=None)
    times, t = [], 0.0
    for e in log:
        if e["op"] == "request":
            times.append(t)
            t += e["took"]
    late = [v for v in times if v > case["limit"]]
    if late:
        # No time is ever counted: known, as long as the evaluation is served
        require(log[-1]["len"] >= 200, "the evaluation ends with %d of 200 samples", log[-1]["len"])
        ctx.finding("time-limit")
    ctx.label("late" if late else "in time")


ORDER = ["dm", "lais", "mpmc", "hidaisee", "tp", "mh", "rejection"]


@st.composite
def make(draw, kind):
    sp = draw(S.space(d=draw(st.integers(1, 2)), cubic=kind == "tp", scales=(1,)))
    t = draw(S.target(sp, shapes=("gauss", "gmm", "flat", "ramp"), inside=False))
    p = draw(S.params(kind, sp, t))
    if kind == "rejection":
        t = {"t": "flat", "c": 1.0}
        p.update(slack=1.2, proposal="uniform")
    ms = draw(st.lists(st.sampled_from(METRICS), max_size=4, unique=True))
    if draw(st.integers(0, 3)):
        ms = [m for m in ms if m != "T"]
    batch = draw(st.integers(2, 12))
    return {"sp": sp, "t": t, "p": p, "metrics": ms, "rseed": draw(st.one_of(st.integers(0, 2 ** 31), st.just(-1))), "reps": draw(st.integers(1, 3)),
            "batch": batch, "max": draw(st.integers(1, 3 * batch)), "eval": draw(st.integers(1, 40)), "method": draw(st.sampled_from(["m", "tp_ais", "M-PMC"])),
            "target": draw(st.sampled_from(["gmm", "target", "t/2"])), "seed": draw(seeds)}


@st.composite
def headers(draw):
    return {"metrics": draw(st.lists(st.sampled_from(METRICS + ["ABC"]), max_size=4, unique=True)), "reps": draw(st.integers(1, 2)),
            "rseed": draw(st.integers(-1, 1000)), "dims": draw(st.lists(st.integers(1, 2), min_size=1, max_size=2)),
            "methods": draw(st.lists(st.sampled_from(["hidaisee", "mh", "dm"]), min_size=1, max_size=2)), "batch": draw(st.integers(2, 6)),
            "max": draw(st.integers(2, 12)), "seed": draw(seeds)}


rows = st.fixed_dictionaries({
    "values": st.lists(st.sampled_from([0.0, 0.12345, 1.5, -2.25, 99.999994, 123.456, 123456.789]), max_size=3),
    "ness": st.sampled_from([0.0, 0.001, 0.5, 1.0, 12.345, 9999.5, 99999.0, -1.5, -999.25, 123456.75, 4.5e14, -123456.0]),
    "rate": st.sampled_from([0.0, 0.5, 1.0, 12.0]), "counts": st.lists(st.integers(0, 10 ** 7), min_size=3, max_size=3),
    "d": st.integers(1, 12), "n": st.integers(1, 20000), "seed": seeds})


@st.composite
def limits(draw):
    c = draw(make("hidaisee"))
    c["t"] = {"t": "flat", "c": 1.0}
    c["limit"] = draw(st.sampled_from([5.0, 30.0, 1000.0]))
    return c


PARTS = split("rows", {k: (make(k), 20) for k in ORDER}, check) + [Part("run", headers(), header, 25), Part("limit", limits(), check_limit, 6), Part("row", rows, check_row, 60)]
