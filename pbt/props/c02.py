import hypothesis.strategies as st
import numpy as np

from pbt import dists
from pbt.core import Part, split, fail, require, require_close, vec
from pbt.gen import num, nums, rows, seeds, zbatch

ID = "C02"
RULE = ("A case is a distribution, a batch of points and the ways it is queried (permuted, split, repeated, one by one), or a "
        "user distribution and a history of updates and queries. Non-trivial: the batch has at least two different densities, "
        "or the history queries after at least one update.")
ASSUMPTIONS = ["prob and log_prob are compared where the density is representable."]


@st.composite
def cases(draw, specs):
    spec = draw(specs)
    b = draw(zbatch(spec["d"], nmax=8, extra=50))
    if spec["t"] == "delta":
        b["m"] = 0
        b["z"] = [[v if draw(st.booleans()) else 0.0 for v in r] if draw(st.booleans()) else [0.0] * spec["d"] for r in b["z"]]
    return {"dist": spec, "batch": b, "order": draw(seeds), "cuts": draw(st.lists(st.integers(0, 70), max_size=3)),
            "queries": draw(st.lists(st.sampled_from(["prob", "log_prob"]), min_size=1, max_size=4)), "many": draw(st.integers(0, 7)) == 0, "seed": 0}


def check(case, ctx):
    spec = case["dist"]
    ref = dists.Ref(spec)
    dist = dists.build(spec)
    x = ref.points(case["batch"])
    n = len(x)
    ctx.label(ref.t, "n=1" if n == 1 else "n>1")
    _, tol = ref.logpdf(x)
    before = x.copy()
    support = np.array(dist.support(), float)
    base = {}
    for q in ("prob", "log_prob"):
        base[q] = vec(getattr(dist, q)(x), n, q)
        require(np.array_equal(x, before), "%s changed the points", q)
    p, lp = base["prob"], base["log_prob"]
    require(not np.isnan(p).any() and not np.isnan(lp).any(), "the density is not a number at %s", x[np.isnan(p) | np.isnan(lp)][:1].tolist())
    require(np.all(p >= 0), "negative density")
    with np.errstate(all="ignore"):
        e = np.exp(lp)
    for i in range(n):
        if e[i] > 1e-290 and np.isfinite(e[i]):
            require(abs(p[i] - e[i]) <= 1e-8 * e[i], "prob %r is not exp(log_prob) = %r at %s", p[i], e[i], x[i].tolist())
        elif e[i] <= 1e-290:
            require(p[i] <= 1e-280, "prob %r is not exp(log_prob) = %r at %s", p[i], e[i], x[i].tolist())
        else:
            require(p[i] == e[i], "prob %r is not exp(log_prob) = %r at %s", p[i], e[i], x[i].tolist())
    if len(set(lp.tolist())) < 2:
        ctx.trivial("one density")

    def same(q, got, want, idx, how):
        t = 2 * tol[idx] + 1e-12
        with np.errstate(all="ignore"):
            if q == "log_prob":
                ok = (got == want) | (np.abs(got - want) <= t)
            else:
                ok = (got == want) | (np.abs(got - want) <= np.expm1(np.minimum(2 * t, 1)) * np.abs(want) + 1e-290)
        if not ok.all():
            i = int(np.argwhere(~ok)[0][0])
            fail("%s of point %s is %r in the batch and %r %s", q, x[idx[i]].tolist(), want[i], got[i], how)

    perm = np.random.RandomState(case["order"] % 2 ** 32).permutation(n)
    cuts = sorted({c % (n + 1) for c in case["cuts"]} | {0, n})
    rep = np.concatenate([perm, perm[:3], perm[:3]])
    for q in ("prob", "log_prob"):
        f = getattr(dist, q)
        same(q, vec(f(x[perm].copy()), n, q), base[q][perm], perm, "when the batch is reordered")
        same(q, vec(f(x[rep].copy()), len(rep), q), base[q][rep], rep, "when points are repeated")
        for a, b in zip(cuts, cuts[1:]):
            idx = np.arange(a, b)
            same(q, vec(f(x[a:b].copy()), b - a, q), base[q][a:b], idx, "in a part of the batch")
        for i in range(min(n, 4)):
            one = np.array([i])
            same(q, vec(f(x[i:i + 1].copy()), 1, q), base[q][one], one, "alone")
            same(q, vec(f(x[i].copy()), 1, q + " of a single vector"), base[q][one], one, "as a single vector")
        # The same array, with other points in it
        buf = x.copy()
        vec(f(buf), n, q)
        buf[:] = x[perm]
        same(q, vec(f(buf), n, q), base[q][perm], perm, "in an array that held other points before")
        # Non-contiguous and read-only batches are batches
        wide = np.zeros((n, 2 * ref.d))
        wide[:, ::2] = x
        same(q, vec(f(wide[:, ::2]), n, q), base[q], np.arange(n), "from a strided array")
        ro = x.copy()
        ro.flags.writeable = False
        same(q, vec(f(ro), n, q), base[q], np.arange(n), "from a read-only array")
        same(q, vec(f(np.asfortranarray(x)), n, q), base[q], np.arange(n), "from an array in columns")
        whole = np.round(x).clip(-1000, 1000)
        same(q, vec(f(whole.astype(int)), n, q), vec(f(whole), n, q), np.arange(n), "as integers")
    if case["many"]:
        big = np.tile(x, (-(-4000 // n), 1)) + 0.0
        idx = np.arange(len(big)) % n
        for q in ("prob", "log_prob"):
            same(q, vec(getattr(dist, q)(big), len(big), q), base[q][idx], idx, "in a batch of thousands")
    # Queries, and changing what they returned, leave the distribution as it was
    for q in case["queries"]:
        r = getattr(dist, q)(x)
        require(np.array_equal(r, base[q]), "a repeated query of %s gives another result", q)
        if isinstance(r, np.ndarray) and r.flags.writeable:
            r += 1.0
            r *= 3.0
    for q in ("prob", "log_prob"):
        require(np.array_equal(vec(getattr(dist, q)(x), n, q), base[q]), "changing a returned array changes %s", q)
    require(np.array_equal(x, before), "the points were changed")
    require_close(np.array(dist.support(), float), support, "support after the queries", 1e-12, 1e-300)


@st.composite
def user_cases(draw):
    d = draw(st.integers(1, 3))
    k = 3
    which = st.sampled_from([None, 0, 1, 2])
    ops = st.one_of(
        st.tuples(st.just("lik"), which), st.tuples(st.just("log"), which), st.tuples(st.just("both"), st.integers(0, 2)),
        st.tuples(st.just("q"), st.integers(1, 5)))
    i = draw(which)
    return {"d": d, "f": [{"c": draw(nums(d, -2, 2)), "s": draw(num(0.2, 3)), "h": draw(num(-3, 3))} for _ in range(k)],
            "init": draw(st.sampled_from([[i, None], [None, i], [i, i]])),
            "ops": [list(o) for o in draw(st.lists(ops, min_size=1, max_size=8))], "x": draw(rows(5, d, -4, 4)), "seed": 0}


def check_user(case, ctx):
    from ais_benchmarks.distributions import CDistribution

    class User(CDistribution):
        def condition(self, dist):
            pass

        def marginal(self, dim):
            pass

    d, X = case["d"], np.array(case["x"], float)

    def value(k, x):
        f = case["f"][k]
        return f["h"] - 0.5 * np.sum(((x - np.array(f["c"])) / f["s"]) ** 2, axis=1)

    def make(k, log):
        if k is None:
            return None

        def fun(x):
            require(isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == d, "the user function was given shape %s", getattr(x, "shape", None))
            return value(k, x) if log else np.exp(value(k, x))
        return fun

    lik, log = case["init"]
    dist = User({"type": "user", "family": "user", "dims": d, "support": [[-5.0] * d, [5.0] * d],
                 "likelihood_f": make(lik, False), "loglikelihood_f": make(log, True)})
    updates = 0
    queried = False
    for op, a in case["ops"] + [["q", 5]]:
        if op in ("lik", "both"):
            lik = a
            dist.set_likelihood_f(make(a, False))
            updates += 1
        if op in ("log", "both"):
            log = a
            dist.set_loglikelihood_f(make(a, True))
            updates += 1
        if op != "q":
            continue
        x = X[:a].copy()
        if lik is not None and log is not None and lik != log:
            ctx.label("inconsistent functions")
            continue
        k = lik if lik is not None else log
        if k is None:
            for q in ("prob", "log_prob"):
                try:
                    r = getattr(dist, q)(x)
                except Exception:
                    ctx.label("rejected")
                    continue
                fail("%s without likelihood functions returned %r", q, r)
            continue
        ctx.label("lik only" if log is None else "log only" if lik is None else "both")
        queried = queried or updates > 0
        got, want = vec(dist.log_prob(x), len(x), "log_prob"), value(k, x)
        ok = want > -690 if log is None else want > -np.inf           # the log of a likelihood too small for a number
        require_close(got[ok], want[ok], "log_prob of the user distribution", 1e-10, 1e-9)
        require(np.all(got[~ok] < -680), "log_prob of the user distribution is %s instead of %s", got[~ok][:2].tolist(), want[~ok][:2].tolist())
        require_close(vec(dist.prob(x), len(x), "prob"), np.exp(value(k, x)), "prob of the user distribution", 1e-9)
        require(np.array_equal(x, X[:a]), "the points were changed")
    if not queried:
        ctx.trivial("no query after an update")


PARTS = split("relations", dists.by_kind(cases, 560), check) + [Part("user", user_cases(), check_user, 250)]
