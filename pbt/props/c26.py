import copy
import math

import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt import stats
from pbt.core import Part, Skip, require, require_close
from pbt.gen import num, nums, seeds

ID = "C26"
RULE = ("A case is a run of HiDaisee by requests of one or more samples, compared after each with a reference tree grown from the points in the order of their evaluation, or the leaves sampled from one state by many "
        "independent continuations. Non-trivial: at least three splits, or leaves whose masses differ by a factor of two.")


def nodes_of(T):
    """Path -> node, for all nodes below the root, with the leaves checked against the list."""
    out, stack, leaves = {}, [((), T.nodes[0])], []
    while stack:
        path, n = stack.pop()
        out[path] = n
        if n.left is None:
            require(n.right is None, "a node has one child")
            leaves.append(n.idx)
        else:
            require(n.right is not None, "a node has one child")
            stack += [(path + (0,), n.left), (path + (1,), n.right)]
    require(sorted(leaves) == sorted(T.leaves), "the list has the leaves %s, the tree %s", sorted(T.leaves), sorted(leaves))
    require(len(out) == len(T.nodes), "the list has %d nodes, the tree %d", len(T.nodes), len(out))
    require(all(T.nodes[n.idx] is n for n in out.values()), "a node is not where its index says")
    return out


def box(n):
    return np.ravel(n.center) - np.ravel(n.radius), np.ravel(n.center) + np.ravel(n.radius)


def geometry(ns, sp, tol):
    lo, hi = box(ns[()])
    require(np.all(np.abs(lo - np.array(sp["lo"])) <= tol) and np.all(np.abs(hi - np.array(sp["hi"])) <= tol), "the root goes from %s to %s", lo, hi)
    for path, n in ns.items():
        if n.left is None:
            continue
        lo, hi = box(n)
        (a, b), (c, d) = box(n.left), box(n.right)
        mid = (lo + hi) / 2
        i = int(np.argmax((hi - lo) - (b - a)))
        left, right = hi.copy(), lo.copy()
        left[i] = right[i] = mid[i]
        for got, want in ((a, lo), (b, left), (c, right), (d, hi)):
            require(np.all(np.abs(got - want) <= tol), "the node from %s to %s has the children %s to %s and %s to %s", lo, hi, a, b, c, d)


def inside(x, n, tol):
    lo, hi = box(n)
    return bool(np.all(x >= lo - tol) and np.all(x <= hi + tol))


def check_run(case, ctx):
    sp, p = case["sp"], case["p"]
    d = sp["d"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    tol = 1e-9 * (np.max(np.abs(lo) + np.abs(hi)))
    f = S.log_target(case["t"], sp)
    sigma = math.sqrt(4.14 * math.log2(2 * math.e)) * p["tau"]
    with S.session(case) as (s, target, clock):
        ns = nodes_of(s.T)
        require(len(ns) == 1, "the tree has %d nodes before the first sample", len(ns))
        ref = {(): (lo, hi)}                                # boxes of the nodes
        q = {(): math.nan}
        held = {(): []}                                     # samples of the leaves
        t, drawn = 0, set()
        for ask in case["steps"]:
            calls = len(target.calls)
            x, w = S.request(s, target, t + ask)
            require(len(x) == t + ask, "%d samples after a request of %d", len(x), t + ask)
            ns = nodes_of(s.T)
            geometry(ns, sp, tol)
            # In the order in which they were drawn: that of their first evaluation
            for y in target.points(calls):
                if tuple(y) in drawn:
                    continue
                drawn.add(tuple(y))
                k = [k for k in held if np.all(y >= ref[k][0]) and np.all(y <= ref[k][1])]
                if len(k) != 1:
                    raise Skip("a sample on a face")
                k = k[0]
                held[k].append(y)
                z = {j: np.exp(f(np.array(v))) * float(np.prod(ref[j][1] - ref[j][0])) for j, v in held.items() if v}
                n_k = len(held[k])
                if t > 0:
                    total = sum(float(v.mean() + sigma * math.sqrt(math.log(t) / len(v))) for v in z.values())
                    q[k] = (z[k].mean() + sigma * math.sqrt(math.log(t) / n_k)) / total if total > 0 else math.nan
                    for i in range(len(k) - 1, -1, -1):
                        q[k[:i]] = q[k[:i] + (0,)] + q[k[:i] + (1,)]
                with np.errstate(all="ignore"):
                    ess = float(z[k].sum() ** 2 / np.sum(z[k] * z[k]))
                t += 1
                if n_k < p["n_min"] or math.isnan(ess):
                    continue
                if abs(ess - p["target_ess"] * n_k) <= 1e-9 * n_k:
                    raise Skip("on the edge of a split")
                if ess < p["target_ess"] * n_k:
                    require(k + (0,) in ns, "a leaf with %d samples and effective sample size %.4f is not divided (n_min = %d, target %.3f)",
                            n_k, ess, p["n_min"], p["target_ess"])
                    ref[k + (0,)], ref[k + (1,)] = box(ns[k + (0,)]), box(ns[k + (1,)])
                    q[k + (0,)] = q[k + (1,)] = q[k] / 2
                    mine = held.pop(k)
                    cut = ref[k + (0,)][1]
                    held[k + (0,)] = [v for v in mine if np.all(v < cut + (ref[k][1] == cut))]
                    held[k + (1,)] = [v for v in mine if not np.all(v < cut + (ref[k][1] == cut))]
            require(t == len(x) == len(drawn), "%d different points are evaluated for %d samples", len(drawn), len(x))
            require({j for j, n in ns.items() if n.left is None} == set(held), "the tree has the leaves %s, expected %s",
                    sorted(j for j, n in ns.items() if n.left is None), sorted(held))
            for j, n in ns.items():
                if t > 1:
                    got = float(np.ravel(n.q)[0])
                    require(bool(np.isclose(got, q[j], rtol=1e-7, atol=1e-250, equal_nan=True)), "the mass of node %s is %r, expected %r", j, got, q[j])
                if n.left is None:
                    xs = np.array(n.samples, float).reshape(-1, d)
                    require(n.N == len(xs) == len(np.ravel(n.weights)), "a leaf with %d samples and %d weights has N = %d", len(xs), len(np.ravel(n.weights)), n.N)
                    require(sorted(map(tuple, xs.tolist())) == sorted(map(tuple, held[j])), "the leaf from %s to %s has the samples %s, expected %s",
                            *box(n), xs.tolist(), held[j])
                    if len(xs):
                        require_close(np.ravel(n.weights), np.exp(f(xs)) * float(np.prod(2 * np.ravel(n.radius))), "weights of a leaf", 1e-7, 1e-280)
        splits = len(ref) // 2
        # The density: the share of the evidence of each leaf, evenly over it
        leaves = [n for n in ns.values() if n.left is None]
        z = np.array([np.mean(n.weights) if n.N else 0.0 for n in leaves], float)
        z = z / z.sum() if z.sum() > 0 else np.full(len(z), 1 / len(z))
        rng = np.random.RandomState(case["seed"] % 2 ** 32)
        pts = np.array([np.ravel(n.center) + np.ravel(n.radius) * rng.uniform(-0.9, 0.9, d) for n in leaves])
        want = z / np.array([np.prod(2 * np.ravel(n.radius)) for n in leaves])
        require_close(np.ravel(s.prob(pts)), want, "density in the leaves", 1e-7, 1e-250)
    ctx.label("splits %d" % min(splits, 8))
    if splits < 3:
        ctx.trivial("few splits")


def check_choice(case, ctx):
    sp = case["sp"]
    d = sp["d"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    with S.session(case, evals=10 ** 6, budget=10 ** 7) as (s, target, clock):
        for n in range(1, case["steps"] + 1):
            x, w = S.request(s, target, n)
        ns = nodes_of(s.T)
        prob = {(): 1.0}
        for path in sorted(ns, key=len):
            n = ns[path]
            if n.left is not None:
                l, r = float(np.ravel(n.left.q)[0]), float(np.ravel(n.right.q)[0])
                if not l + r > 0:
                    raise Skip("no mass")
                prob[path + (0,)] = prob[path] * l / (l + r)
                prob[path + (1,)] = prob[path] * r / (l + r)
        leaves = [k for k, n in ns.items() if n.left is None]
        if len(leaves) < 2:
            raise Skip("one leaf")
        pr = np.array([prob[k] for k in leaves])
        M = case["copies"]
        old = set(map(tuple, x.tolist()))
        count = np.zeros(len(leaves))
        pos = []
        # Only the draw of the next sample matters
        for _ in range(M):
            c = copy.deepcopy(s)
            y, _w = S.request(c, target, len(x) + 1)
            new = [v for v in map(tuple, y.tolist()) if v not in old]
            require(len(new) == 1, "a step changes %d samples", len(new))
            v = np.array(new[0])
            i = next((i for i, k in enumerate(leaves) if inside(v, ns[k], 1e-12 * np.max(np.abs(v)))), None)
            require(i is not None, "a sample lies in no leaf")
            count[i] += 1
            a, b = box(ns[leaves[i]])
            pos.append((v - a) / (b - a))
        eps = stats.hoeffding(M)
        order = np.argsort(pr)
        for sel in [[i] for i in range(len(leaves))] + [order[:j].tolist() for j in range(1, len(leaves))] + \
                [[i for i, k in enumerate(leaves) if len(k) > j and k[j] == 0] for j in range(3)]:
            got, want = count[sel].sum() / M, pr[sel].sum()
            require(abs(got - want) <= eps, "the leaves %s with mass %.3f get %.3f of the samples (bound %.3f)", [leaves[i] for i in sel], want, got, eps)
        pos = np.array(pos)
        for i in range(d):
            stats.require_uniform(pos[:, i], "place of a sample in its leaf, dimension %d" % i)
    ctx.label("leaves %d" % min(10, len(leaves)))
    if pr.max() < 2 * pr.min():
        ctx.trivial("even masses")


@st.composite
def runs(draw):
    c = draw(S.cases("hidaisee", n_min=draw(st.integers(1, 5)), target_ess=draw(num(0.4, 0.99)), scales=S.SCALES + (1e-10,)))
    c["steps"] = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3, 7, 15]), min_size=3, max_size=12))
    if draw(st.integers(0, 7)) == 0:                          # many samples in a few leaves, of weights that change little
        d = c["sp"]["d"]
        c["t"] = {"t": "gauss", "c": 1.0, "m": draw(nums(d, -0.3, 0.3)), "s": draw(nums(d, 0.4, 0.8)), "rho": 0.0}
        c["p"].update(n_min=draw(st.integers(5, 10)), target_ess=draw(num(0.7, 0.85)))
        c["steps"] = draw(st.lists(st.sampled_from([30, 40, 60]), min_size=2, max_size=3)) + [1] * draw(st.integers(3, 12))
    return c


@st.composite
def choices(draw):
    c = draw(S.cases("hidaisee", n_min=draw(st.integers(1, 4)), target_ess=draw(num(0.6, 0.99)), tau=draw(st.sampled_from([1e-3, 1e-2, 0.1])),
                     shapes=("gauss", "gmm", "ramp", "checker"), d=draw(st.integers(1, 2))))
    c["t"]["c"] = draw(st.sampled_from([0.3, 1.0, 7.0]))
    c["steps"] = draw(st.integers(12, 40))
    c["copies"] = 500
    return c


PARTS = [Part("run", runs(), check_run, 350), Part("choice", choices(), check_choice, 20)]
