import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Part, Skip, require, split
from pbt.gen import num, nums, seeds

ID = "C25"
RULE = ("A case is a history of expansions and lookups of a tree, or of iterations of the sampler, compared with a reference subdivision after "
        "every step. Non-trivial: at least two expansions at different levels, or an iteration that leaves some cells alone.")


def box(n):
    c, r = np.array(n.center, float).ravel(), float(np.ravel(n.radius)[0])
    require(np.all(np.ravel(n.radius) == r), "a cell of radius %s is not a cube", n.radius)
    return c - r, c + r


def partition(T, root, tol):
    """The leaves of the tree, by descent from the root: checked to be T.leaves, and to partition the root."""
    stack, leaves, nodes = [T.root], [], 0
    while stack:
        n = stack.pop()
        nodes += 1
        if n.is_leaf():
            leaves.append(n)
            continue
        lo, hi = box(n)
        kids = list(n.children)
        d = len(lo)
        require(len(kids) == 2 ** d and all(k is not None for k in kids), "a node has %d children in %d dimensions", len(kids), d)
        seen = set()
        for k in kids:
            a, b = box(k)
            require(np.all(np.abs((b - a) - (hi - lo) / 2) <= tol), "a child of width %s of a node of width %s", b - a, hi - lo)
            side = np.where(np.abs(a - lo) <= tol, 0, np.where(np.abs(b - hi) <= tol, 1, -1))
            require(np.all(side >= 0), "the child from %s to %s is no half of the node from %s to %s", a, b, lo, hi)
            seen.add(tuple(side))
        require(len(seen) == 2 ** d, "the children of the node from %s to %s overlap", lo, hi)
        stack += kids
    require(len(T.leaves) == len(leaves) and {id(n) for n in leaves} == {id(n) for n in T.leaves}, "the list has %d leaves, the tree %d",
            len(T.leaves), len(leaves))
    require(len({id(n) for n in T.nodes}) == nodes == len(T.nodes), "the list has %d nodes, the tree %d", len(T.nodes), nodes)
    vol = sum(float(np.prod(b - a)) for a, b in map(box, leaves))
    require(abs(vol - root) <= 1e-9 * root, "the leaves cover a volume of %r of %r", vol, root)
    # The cached arrays describe the same nodes
    mask = np.array(T.leaves_idx, bool)
    require(len(mask) == nodes and len(T.centers) == nodes and len(T.radii) == nodes and len(T.weights) == nodes and len(T.samples) == nodes,
            "cached arrays of %d, %d, %d nodes for %d", len(mask), len(T.centers), len(T.radii), nodes)
    cached = sorted(map(tuple, np.hstack([T.centers[mask], T.radii[mask].reshape(-1, 1)]).tolist()))
    want = sorted(tuple(np.append(np.array(n.center, float), np.ravel(n.radius)[:1])) for n in leaves)
    require(np.allclose(cached, want, rtol=1e-9, atol=tol), "the cached centers and radii are not those of the leaves")
    return leaves


def check_tree(case, ctx):
    from ais_benchmarks.sampling_methods.tree_pyramid import CTreePyramid
    lo, hi = np.array(case["lo"], float), np.array(case["hi"], float)
    d = len(lo)
    T = CTreePyramid(lo, hi, case["kernel"])
    r = np.max(hi - lo) / 2
    c = (lo + hi) / 2
    root = (2 * r) ** d
    tol = 1e-9 * r + 1e-12 * np.max(np.abs(c))
    cells = {(0, (0,) * d)}                                # (level, position) of the leaves
    key = lambda n: (n.level, tuple(int(v) for v in np.floor((np.array(n.center) - (c - r)) / (2 * r) * 2 ** n.level)))
    levels = set()
    for op in case["ops"]:
        if op[0] == "expand":
            n = T.leaves[op[1] % len(T.leaves)]
            k = key(n)
            require(k in cells, "a leaf at level %d, position %s does not belong to the tree", *k)
            new = T.expand(n)
            cells.remove(k)
            levels.add(k[0])
            import itertools
            cells |= {(k[0] + 1, tuple(2 * p + q for p, q in zip(k[1], s))) for s in itertools.product((0, 1), repeat=d)}
            require(new is not None and len(new) == 2 ** d, "an expansion returns %s", new)
            require(not n.is_leaf() and all(m.is_leaf() for m in new), "after an expansion the parent is a leaf or a child is not")
        else:
            x = c + r * np.array(op[1][:d])
            n = T.find(x)
            require(n.is_leaf(), "the node found is not a leaf")
            a, b = box(n)
            require(np.all(a - tol <= x) and np.all(x <= b + tol), "the leaf from %s to %s is found for the point %s", a, b, x)
            continue
        leaves = partition(T, root, tol)
        require({key(n) for n in leaves} == cells, "the leaves are not those of the subdivision")
    if len(levels) < 2:
        ctx.trivial("one level")
    ctx.label("dims %d" % d)


@st.composite
def trees(draw, d):
    lo = draw(nums(d, -3, 3))
    w = draw(nums(d, 0.5, 4))
    if draw(st.booleans()):
        w = [w[0]] * d
    s = draw(st.sampled_from([1, 1, 100, 0.01]))
    op = st.one_of(st.tuples(st.just("expand"), st.integers(0, 500)), st.tuples(st.just("expand"), st.integers(0, 500)),
                   st.tuples(st.just("find"), nums(3, -0.999, 0.999, 64)))
    return {"lo": [v * s for v in lo], "hi": [(v + u) * s for v, u in zip(lo, w)], "kernel": draw(st.sampled_from(["haar", "haar", "normal"])),
            "ops": draw(st.lists(op.map(list), min_size=2, max_size=14)), "seed": draw(seeds)}


def check_big(case, ctx):
    """Thousands of cells: checked at the end, and lookups."""
    from ais_benchmarks.sampling_methods.tree_pyramid import CTreePyramid
    lo, hi = np.array(case["lo"], float), np.array(case["hi"], float)
    d = len(lo)
    T = CTreePyramid(lo, hi, "haar")
    r, c = np.max(hi - lo) / 2, (lo + hi) / 2
    tol = 1e-9 * r + 1e-12 * np.max(np.abs(c))
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    while len(T.leaves) < case["cells"]:
        k = {"even": 0, "any": rng.randint(len(T.leaves)), "last": len(T.leaves) - 1 - rng.randint(min(len(T.leaves), 9))}[case["order"]]
        n = T.leaves[k]
        while n.level > 18:
            n = T.leaves[rng.randint(len(T.leaves))]
        if case["order"] == "even":
            # The largest cell near a random point
            n = min((T.find(c + r * rng.uniform(-1, 1, d)) for _ in range(4)), key=lambda v: v.level)
        before = len(T.leaves)
        T.expand(n)
        require(len(T.leaves) == before + 2 ** d - 1, "an expansion of a tree of %d leaves leaves %d", before, len(T.leaves))
    leaves = partition(T, (2 * r) ** d, tol)
    a, b = (np.array(v) for v in zip(*map(box, leaves)))
    for x in c + r * rng.uniform(-1, 1, (60, d)):
        n = T.find(x)
        require(n.is_leaf(), "the node found is not a leaf")
        u, v = box(n)
        require(np.all(u - tol <= x) and np.all(x <= v + tol), "the leaf from %s to %s is found for the point %s", u, v, x)
    ctx.label("%d thousand cells" % (len(leaves) // 1000))


@st.composite
def bigs(draw):
    d = draw(st.integers(1, 3))
    lo, w = draw(nums(d, -3, 3)), draw(nums(d, 0.5, 4))
    return {"lo": lo, "hi": [a + b for a, b in zip(lo, w)], "cells": draw(st.sampled_from([600, 5000, 9000])),
            "order": draw(st.sampled_from(["even", "any", "last"])), "seed": draw(seeds)}


# --- sampling ------------------------------------------------------------------------------------------------------

def check_sampler(case, ctx):
    sp, p = case["sp"], case["p"]
    d = sp["d"]
    lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
    r = np.max(hi - lo) / 2
    root = (2 * r) ** d
    tol = 1e-9 * r + 1e-12 * np.max(np.abs(lo) + np.abs(hi))
    ess = p["ess_target"]
    partial = 0
    with S.session(case) as (s, target, clock):
        first = True
        for i in range(case["its"]):
            # The importance of the leaves before the iteration
            before = []
            for n in s.T.leaves:
                a, b = box(n)
                h = None if first or n.weight_hist is None else np.array(n.weight_hist, float).ravel()
                w = None if h is None else (h[-1] if p["resampling"] == "leaf" or ess is None else h.mean())
                before.append((n, h, None if w is None else w * float(np.prod(b - a)), float(np.prod(b - a))))
            size = {id(n): vol for n, _, _, vol in before}
            x, w = S.request(s, target, 10 ** 6, timeout=target.dt / 2)        # one iteration
            leaves = partition(s.T, root, tol)
            if first:
                first = False
                require(len(leaves) in (1, 2 ** d), "the first iteration leaves %d leaves", len(leaves))
                continue
            split_, touched, alone = [], [], []
            for n, h, v, vol in before:
                if not n.is_leaf():
                    split_.append((n, h, v))
                    require(all(k.is_leaf() for k in n.children), "a cell is divided twice in an iteration")
                elif len(n.weight_hist) != len(h):
                    require(len(n.weight_hist) == len(h) + 1, "a cell gets %d samples in an iteration", len(n.weight_hist) - len(h))
                    touched.append((n, h, v))
                else:
                    alone.append((n, h, v))
            if split_ or touched:
                low = min(v for _, _, v in split_ + touched)
                high = max([v for _, _, v in alone], default=0.0)
                require(low >= high - 1e-9 * abs(high), "a cell of importance %r is refined before one of importance %r", low, high)
                least = min((size[id(n)] for n, _, v in split_ + touched if v == 0), default=None)
                rest = max((size[id(n)] for n, _, v in alone if v == 0), default=0.0)
                if least is not None and rest:
                    require(least >= rest * (1 - 1e-9), "of the cells of importance 0, one of volume %r is refined before one of volume %r", least, rest)
                    ctx.label("equal cells")
            new = len(split_) * 2 ** d + len(touched)
            if ess is None:
                require(not touched, "a leaf is sampled again and not divided")
                require(len(split_) > 0, "an iteration divides no cell")
                require((len(split_) - 1) * 2 ** d <= p["parallel_samples"], "%d cells are divided for %d parallel samples", len(split_), p["parallel_samples"])
                if alone:
                    require(new >= p["parallel_samples"], "%d cells are divided for %d parallel samples, and %d are left", len(split_), p["parallel_samples"], len(alone))
            else:
                for n, h, v in split_:
                    e = h.sum() ** 2 / np.sum(h * h)
                    require(len(h) >= p["n_min"], "a cell with %d samples is divided (n_min = %d)", len(h), p["n_min"])
                    require(not e > ess * len(h) * (1 + 1e-9), "a cell with effective sample size %.4f of %d is divided (target %.3f)", e, len(h), ess)
                for n, h, v in touched:
                    e = h.sum() ** 2 / np.sum(h * h)
                    require(len(h) < p["n_min"] or not e < ess * len(h) * (1 - 1e-9), "a cell with effective sample size %.4f of %d is not divided "
                            "(target %.3f, n_min = %d)", e, len(h), ess, p["n_min"])
            if p["kernel"] == "haar" and (p["resampling"] == "none" or ess is None):
                for n in leaves:
                    a, b = box(n)
                    y = np.array(n.coords_hist, float).reshape(-1, d)
                    require(len(y) == len(np.ravel(n.weight_hist)), "%d samples and %d weights in a cell", len(y), len(np.ravel(n.weight_hist)))
                    require(np.all(y >= a - tol) and np.all(y <= b + tol), "a sample outside of its cell from %s to %s: %s", a, b, y.tolist())
            if alone and (split_ or touched):
                partial += 1
                ctx.label("partial")
            if split_ and touched:
                ctx.label("divided and sampled")
    if not partial:
        ctx.trivial("all cells are refined at once")


@st.composite
def samplers(draw, ess, many=False):
    d = draw(st.integers(1, 3))
    sp = draw(S.space(d=d, cubic=draw(st.booleans())))
    shapes = ["gauss", "gmm", "box", "cut", "flat", "ramp", "checker"] if not ess else ["gauss", "gmm", "flat", "ramp", "ramp", "checker"]
    t = draw(S.target(sp, shapes=shapes))
    if t["t"] == "checker" and ess:
        t["low"] = 0.2
    if t["t"] in ("gauss", "cut"):
        t["s"] = draw(nums(d, 0.3, 1))
    elif t["t"] == "gmm":
        t["s"] = [draw(nums(d, 0.3, 1)) for _ in t["s"]]
    p = draw(S.params("tp", sp, t, ess_target=draw(st.one_of(num(0.3, 0.99), num(0.3, 0.99), st.just(1.5))) if ess else None,
                      kernel=draw(st.sampled_from(["haar", "haar", "normal"])) if not ess else "haar",
                      resampling=draw(st.sampled_from(["none", "leaf"])), n_min=draw(st.integers(1, 4))))
    if many:
        p["parallel_samples"] = draw(st.sampled_from([33, 65, 100, 300]))
        return {"sp": sp, "t": t, "p": p, "its": draw(st.integers(8, 10)), "seed": draw(seeds)}
    return {"sp": sp, "t": t, "p": p, "its": draw(st.integers(2, 9)) + (6 if ess else 0), "seed": draw(seeds)}


def check_found(case, ctx):
    """A target of which the first cells see nothing is found: the cells are divided evenly until then."""
    sp, t = case["sp"], case["t"]
    d = sp["d"]
    side = min(np.array(t["b"]) - np.array(t["a"]))       # in units where the root has side 2
    level = int(np.ceil(np.log2(4 / side)))               # at this level a cell is inside of the box
    with S.session(case) as (s, target, clock):
        S.request(s, target, 1)
        for i in range(case["its"]):
            S.request(s, target, 10 ** 6, timeout=target.dt / 2)
            got = [float(np.ravel(n.weight)[0]) for n in s.T.leaves]
            levels = [n.level for n in s.T.leaves]
            if max(got) > 0:
                ctx.label("found")
                break
            require(max(levels) - min(levels) <= 1, "before the target is found there are cells of level %d and of level %d", min(levels), max(levels))
        else:
            require(min(levels) <= level, "the cells are of level %d or more, and the target is not found (a cell of level %d is inside of it)", min(levels), level)
            ctx.trivial("not found yet")


@st.composite
def founds(draw):
    d = draw(st.integers(1, 3))
    sp = draw(S.space(d=d, cubic=True))
    t = draw(S.target(sp, shapes=["box"]))
    w = draw(num(0.06, 0.5, 64))
    t["a"] = [v * (2 - w) - 1 for v in draw(nums(d, 0.03, 0.97, 64))]
    t["b"] = [v + w for v in t["a"]]
    p = draw(S.params("tp", sp, t, ess_target=None, kernel="haar", resampling=draw(st.sampled_from(["none", "none", "leaf"])),
                      parallel_samples=draw(st.sampled_from([1, 2, 4, 9]))))
    return {"sp": sp, "t": t, "p": p, "its": {1: 40, 2: 60, 3: 60}[d], "seed": draw(seeds)}


PARTS = split("tree", {str(d): (trees(d), 90) for d in (1, 2, 3)}, check_tree) + [Part("big", bigs(), check_big, 8, 60)] + \
    split("refine", {"importance": (samplers(False), 130), "ess": (samplers(True), 130)}, check_sampler) + \
    [Part("many", samplers(False, True), check_sampler, 16, 100), Part("found", founds(), check_found, 60, 600)]
