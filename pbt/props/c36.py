import hypothesis.strategies as st
import numpy as np

from pbt import dists as D
from pbt import samplers as S
from pbt.core import Part, Skip, require, require_close, split
from pbt.gen import num, nums, seeds

ID = "C36"
RULE = ("A case is a sampler with its requests, or a density on a box, that is drawn. Non-trivial: at least five samples, or a density that is "
        "not constant on the box.")


class figure:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt, self.fig = plt, plt.figure(figsize=(2, 2))
        return self.fig.add_subplot(111, projection="3d" if self.d == 3 else None)

    def __exit__(self, *a):
        self.plt.close(self.fig)


def artists(ax):
    return [a for a in ax.get_children() if a in ax.lines or a in ax.collections or a in ax.patches or a in ax.texts]


def state(s):
    out = [np.array(s.samples, float, copy=True), np.array(s.weights, float, copy=True), dict(s.get_stats()),
           (s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals), np.array(s.space_min, copy=True), np.array(s.space_max, copy=True)]
    return out


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


STATE = ("samples", "weights", "statistics", "counters", "lower limits", "upper limits")


def curve(line):
    return np.asarray(line.get_xdata(), float).ravel(), np.asarray(line.get_ydata(), float).ravel()


def check(case, ctx):
    kind, sp = case["p"]["m"], case["sp"]
    d = sp["d"]
    lo, hi = np.array(sp["lo"], float), np.array(sp["hi"], float)
    np.random.seed(case["seed"] % 2 ** 32)
    with S.session(case, evals=3000) as (s, target, clock):
        n = 0
        for k in case["reqs"]:
            x, w = S.request(s, target, k)
            n = max(n, len(x))
        if len(x) < 2:
            raise Skip("no samples")
        s.prob(np.tile((lo + hi) / 2, (2, 1)))             # the densities estimated from the samples are built on demand
        before = state(s)
        x0, w0 = np.array(x, copy=True), np.array(w, copy=True)
        with figure(d) as ax:
            already = len(artists(ax))
            res = s.draw(ax)
            require(isinstance(res, (list, tuple)), "draw returns %s", type(res).__name__)
            for name, a, b in zip(STATE, before, state(s)):
                require(same(a, b), "drawing changes the %s", name)
            require(np.array_equal(x, x0) and np.array_equal(w, w0), "drawing changes the samples or weights that were returned")
            shown = artists(ax)
            require(len(shown) - already == len(res) and all(any(a is b for b in shown) for a in res), "draw adds %d elements and returns %d", len(shown) - already, len(res))
            if d == 1:
                # One of the curves is the density of the sampler over its space
                found = False
                for a in res:
                    if hasattr(a, "get_xdata"):
                        u, v = curve(a)
                        if len(u) > 1 and abs(u[0] - lo[0]) < 1e-9 * max(1, abs(lo[0])) and abs(u[-1] - hi[0]) < 1e-9 * max(1, abs(hi[0])):
                            p = np.asarray(s.prob(u.reshape(-1, 1)), float).ravel()
                            found = found or np.allclose(v, p, rtol=1e-6, atol=1e-12 * (1 + p.max()))
                require(found or (hi - lo)[0] <= 0.02, "no curve of the density over the space is drawn")
            if d == 2 and kind in ("tp", "hidaisee"):
                require_cells(s, kind, res)
            require_parts(s, kind, d, lo, hi, res, x, w)
            for a in res:
                a.remove()
            require(len(artists(ax)) == already, "%d elements are left after all have been removed", len(artists(ax)) - already)
        drawn = go_on(s, target, case, len(x))
        ctx.label("dims %d" % d)
    # The sampler goes on as if it had not been drawn
    np.random.seed(case["seed"] % 2 ** 32)
    with S.session(case, evals=3000) as (s, target, clock):
        for k in case["reqs"]:
            S.request(s, target, k)
        s.prob(np.tile((lo + hi) / 2, (2, 1)))
        plain = go_on(s, target, case, len(x))
    for name, a, b in zip(("samples", "weights", "density", "samples of the density"), drawn, plain):
        require(np.array_equal(a, b, equal_nan=True), "the %s of a sampler that was drawn are not those of one that was not", name)
    if d:
        if n < 5:
            ctx.trivial("few samples")


def go_on(s, target, case, n):
    """What a sampler does next."""
    np.random.seed(case["seed"] % 2 ** 32)
    x, w = S.request(s, target, n + 5)
    lo, hi = np.array(case["sp"]["lo"], float), np.array(case["sp"]["hi"], float)
    u = lo + (hi - lo) * np.random.rand(8, len(lo))
    return [np.array(x, float, copy=True), np.array(w, float, copy=True), np.array(s.prob(u), float), np.array(s.sample(2), float)]


def points(res):
    """The markers: {(marker, colour): positions}"""
    out = {}
    for a in res:
        if hasattr(a, "get_offsets") and not hasattr(a, "levels"):
            at = a.get_offsets() if not hasattr(a, "_offsets3d") else np.column_stack([np.ravel(v) for v in a._offsets3d])
            shapes = [np.round(q.vertices, 6).tolist() for q in a.get_paths()]
            for p in np.asarray(at, float):
                out.setdefault((str(shapes), str(np.round(a.get_facecolor(), 6).tolist())), []).append(tuple(p))
        elif hasattr(a, "get_xdata") and (np.size(a.get_xdata()) == 1 or a.get_marker() not in (None, "None", "", " ")):
            p = [np.ravel(v) for v in (a.get_data_3d() if hasattr(a, "get_data_3d") else (a.get_xdata(), a.get_ydata()))]
            for q in np.column_stack(p):
                out.setdefault((str(a.get_marker()), str(a.get_color())), []).append(tuple(float(v) for v in q))
    return out


def shows_all(found, want, what):
    got = np.array(found, float).reshape(-1, want.shape[1])
    for p in want:
        require(len(got) and np.min(np.max(np.abs(got - p), axis=1)) <= 1e-9 * (1 + np.max(np.abs(p))), "%s at %s is not drawn", what, p.tolist())


def has_curve(res, lo, hi, f, what):
    for a in res:
        if hasattr(a, "get_xdata") and np.size(a.get_xdata()) > 1:
            u, v = curve(a)
            if abs(u[0] - lo[0]) < 1e-9 * max(1, abs(lo[0])) and abs(u[-1] - hi[0]) < 1e-9 * max(1, abs(hi[0])):
                p = np.asarray(f(u.reshape(-1, 1)), float).ravel()
                if np.allclose(v, p, rtol=1e-6, atol=1e-12 * (1 + p.max())):
                    return
    require(False, "no curve of %s", what)


def require_parts(s, kind, d, lo, hi, res, x, w):
    """The proposals and samples of the mixture methods, live points, trajectories."""
    wide = (hi - lo)[0] > 0.02
    if d == 1 and kind in ("dm", "lais", "mpmc") and wide:
        for q, a in zip(s.model.models, s.model.weights):
            has_curve(res, lo, hi, lambda u: q.prob(u) * a, "a proposal times its weight")
        segments = [np.asarray(g, float) for r in res if hasattr(r, "get_segments") for g in r.get_segments()]
        got = np.array([[g[0][0], g[0][1], g[-1][0], g[-1][1]] for g in segments]).reshape(-1, 4)
        # The weights a sampler keeps need not be normalized
        own = np.asarray(s.weights, float).ravel()
        for v, h in zip(np.asarray(s.samples, float).ravel(), own):
            require(len(got) and np.min(np.max(np.abs(got - [v, 0, v, h]), axis=1)) <= 1e-9 * (1 + abs(v) + abs(h)), "the sample at %g with weight %g is not drawn", v, h)
    at = points(res)
    everything = [p for v in at.values() for p in v]
    if d == 2 and kind in ("dm", "lais", "mpmc"):
        shows_all(everything, np.array([np.ravel(q.loc) for q in s.proposals]), "the proposal")
    if d <= 2 and kind in ("nested", "multinested"):
        live = np.asarray(s.live_points, float)
        shows_all(everything, np.column_stack((live, np.full(len(live), 0.1))) if d == 1 else live, "the live point")
    if kind == "rejection" and d == 1 and wide:
        has_curve(res, lo, hi, lambda u: s.proposal_dist.prob(u) * s.scaling, "the proposal times its scale")
    if kind == "mh":
        types = np.array(s.trajectory_types)
        path = np.array(s.trajectory_samples, float).reshape(len(types), d)
        if wide and d == 1:
            import copy
            q = copy.deepcopy(s.proposal_d)
            has_curve(res, lo, hi, lambda u: q.prob(u - path[-1]), "the proposal at the last state")
        for t, height in ((s.REJECT, -0.15), (s.BURN_IN, -0.1), (s.DECORRELATION, -0.2)):
            want = path[types == t]
            if not len(want) or d == 3 and t == s.REJECT:
                continue
            if d == 1:
                want = np.column_stack((want, np.full(len(want), height)))
            shows_all(everything, want, "the move")
            # Each kind of move has markers of its own: those at its points show no other kind only
            keys = [k for k, v in at.items() if any(np.max(np.abs(np.array(p[:want.shape[1]]) - want[0])) <= 1e-9 * (1 + np.max(np.abs(want[0]))) for p in v)]
            other = path[(types != t)] if d > 1 else None
            require(keys, "a move is not drawn")
            if other is not None:
                for k in keys[:1]:
                    alone = [p for p in at[k] if np.all(np.array(p) >= lo) and np.all(np.array(p) <= hi)]
                    got = {tuple(np.round(p, 12)) for p in alone}
                    require(got <= {tuple(np.round(p, 12)) for p in want} or any(tuple(np.round(p, 12)) in {tuple(np.round(q, 12)) for q in other} for p in want),
                            "moves of several kinds are drawn alike")


def require_cells(s, kind, res):
    """One rectangle for each leaf of the tree."""
    if kind == "tp":
        leaves = [(np.ravel(l.center), np.broadcast_to(np.ravel(l.radius), (2,))) for l in s.T.leaves]
    else:
        leaves = [(np.ravel(s.T.nodes[l].center), np.ravel(s.T.nodes[l].radius)) for l in s.T.leaves]
    want = sorted([float(v) for v in np.concatenate((c - r, c + r))] for c, r in leaves)
    got = []
    for a in res:
        for path in a.get_paths():
            v = path.vertices
            got.append([float(z) for z in np.concatenate((v.min(axis=0), v.max(axis=0)))])
    require(len(got) == len(want), "%d cells are drawn, there are %d leaves", len(got), len(want))
    require(np.allclose(sorted(got), want, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max())), "the cells that are drawn are not the leaves")


def check_pdf(case, ctx):
    """plot_pdf: the density times the scale, over the limits, at the resolution."""
    from ais_benchmarks.utils.plot_utils import plot_pdf
    spec = case["dist"]
    o = D.build(spec)
    lo, hi = case["lo"], case["lo"] + case["res"] * case["k"]
    a, b = (np.array([lo]), np.array([hi])) if case["array"] else (lo, hi)
    with figure(1) as ax:
        res = plot_pdf(ax, o, a, b, resolution=case["res"], scale=case["scale"], label="q")
        require(len(res) == 1 and len(ax.lines) == 1 and res[0] is ax.lines[0], "plot_pdf draws %d lines and returns %d", len(ax.lines), len(res))
        u, v = curve(res[0])
        require(abs(len(u) - case["k"]) <= 1, "%d points for a range of %g and a resolution of %g", len(u), hi - lo, case["res"])
        require_close(u, np.linspace(lo, hi, len(u)), "abscissae", 1e-9, 1e-9)
        require_close(v, np.asarray(o.prob(u.reshape(-1, 1)), float).ravel() * case["scale"], "ordinates", 1e-9, 1e-300)
        require(res[0].get_label() == "q", "the label is %r", res[0].get_label())
        if np.ptp(v) == 0:
            ctx.trivial("constant density")


def check_draw(case, ctx):
    """draw() of a distribution: its density over its support and a tenth of it on both sides."""
    spec = case["dist"]
    o = D.build(spec)
    a, b = np.asarray(o.support(), float)
    d = len(a)
    lo, hi = a - (b - a) * 0.1, b + (b - a) * 0.1
    if d > 1 and (np.prod((hi - lo) / 0.1) > 2e5 or np.min(hi - lo) < 0.25):
        raise Skip("too many or few points for the fixed resolution")
    with figure(d) as ax:
        if d == 1:
            o.draw(ax, resolution=float((b - a)[0]) / case["k"], label="p", color="g")
            require(len(ax.lines) == 1, "%d lines are drawn", len(ax.lines))
            u, v = curve(ax.lines[0])
            require(abs(len(u) - 1.2 * case["k"]) <= 1, "%d points for a resolution of 1/%d of the support", len(u), case["k"])
            require_close(u, np.linspace(lo[0], hi[0], len(u)), "abscissae", 1e-9, 1e-9 * (1 + np.abs(lo).max()))
            require_close(v, np.asarray(o.prob(u.reshape(-1, 1)), float).ravel(), "ordinates", 1e-6, 1e-300)
            require(ax.lines[0].get_label() == "p" and ax.lines[0].get_color() == "g", "label %r, colour %r", ax.lines[0].get_label(), ax.lines[0].get_color())
        else:
            o.draw(ax)
            z = [c for c in artists(ax) if hasattr(c, "levels")]
            k = ((hi - lo) / 0.1).astype(int)
            if (k < 2).any() or not z:
                ctx.trivial("coarse grid")
                return
            axes = [np.linspace(lo[i], hi[i], k[i]) for i in range(2)]
            u = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1)
            p = np.asarray(o.prob(u.reshape(-1, 2)), float).reshape(u.shape[:2])
            seen = 0
            for level, path in levels_of(z):
                for q in path.vertices:
                    seen += 1
                    v = interpolate(q, axes, p)
                    require(abs(v - level) <= 1e-6 * (p.max() - p.min()), "the contour at %g passes through %s, where the density is %g", level, np.round(q, 4).tolist(), v)
            if seen < 10:
                ctx.trivial("few vertices")


def check_noisy(case, ctx):
    """draw() of a noisy function: the samples, their mean and three standard deviations around it."""
    from ais_benchmarks.distributions.derived.CGenericNoisyFunction import GenericNoisyFunction
    a, f = case["a"], case["f"]
    o = GenericNoisyFunction({"noise_model": D.build({"t": "normal", "d": 1, "form": "array", "mean": [0.0], "cov": [[case["s"]]]}),
                              "function": lambda x, z: a * np.sin(f * x), "support": np.array([case["lo"], case["lo"] + case["w"]]), "dims": 1})
    np.random.seed(case["seed"] % 2 ** 32)
    orig, taken = o.sample, []

    def sample(*args, **kw):
        v = orig(*args, **kw)
        taken.append(np.array(v, float, copy=True))
        return v
    o.sample = sample
    with figure(1) as ax:
        o.draw(ax, n_points=case["k"], label="f" if case["label"] else None, color="r")
        z = np.linspace(case["lo"], case["lo"] + case["w"], case["k"])
        require(all(t.shape == (case["k"], 1) for t in taken), "samples of shapes %s", {t.shape for t in taken})
        dots = [np.asarray(c.get_offsets(), float) for c in ax.collections if len(c.get_offsets()) == case["k"]]
        require(len(dots) == 1 and np.allclose(dots[0][:, 0], z) and any(np.allclose(dots[0][:, 1], t.ravel()) for t in taken), "the samples are not drawn")
        require(len(ax.lines) == 1, "%d lines are drawn", len(ax.lines))
        u, v = curve(ax.lines[0])
        require(np.allclose(u, z), "the mean is not drawn over the support")
        # Of all the samples, or of those after the ones shown as points
        sets = [np.hstack(taken[i:]) for i in range(2)]
        ok = [q for q in sets if np.allclose(v, q.mean(axis=1))]
        require(ok, "the curve is not the mean of the samples")
        band = [c for c in ax.collections if len(c.get_offsets()) != case["k"] or not np.allclose(np.asarray(c.get_offsets())[:, 0], z)]
        require(len(band) == 1, "%d bands are drawn", len(band))
        vert = band[0].get_paths()[0].vertices
        top = [vert[np.abs(vert[:, 0] - x) < 1e-9 * (1 + abs(x)), 1] for x in z]
        got_hi, got_lo = np.array([t.max() for t in top]), np.array([t.min() for t in top])
        require(any(np.allclose(got_hi, q.mean(axis=1) + 3 * q.std(axis=1)) and np.allclose(got_lo, q.mean(axis=1) - 3 * q.std(axis=1)) for q in ok),
                "the band is not three standard deviations around the mean")
    if case["k"] < 3:
        ctx.trivial("few points")


def levels_of(cs):
    out = []
    for c in cs:
        if hasattr(c, "levels"):
            out += list(zip(np.asarray(c.levels, float), c.get_paths()))
    return out


def interpolate(p, axes, z):
    """The density at a point on an edge of the grid, linear along the edge."""
    i = int(np.clip(np.searchsorted(axes[0], p[0], side="right") - 1, 0, len(axes[0]) - 2))
    j = int(np.clip(np.searchsorted(axes[1], p[1], side="right") - 1, 0, len(axes[1]) - 2))
    a = (p[0] - axes[0][i]) / (axes[0][i + 1] - axes[0][i])
    b = (p[1] - axes[1][j]) / (axes[1][j + 1] - axes[1][j])
    return (1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[i + 1, j] + (1 - a) * b * z[i, j + 1] + a * b * z[i + 1, j + 1]


def check_pdf2d(case, ctx):
    """Contour lines of the density: every vertex at its level."""
    from ais_benchmarks.utils.plot_utils import plot_pdf2d
    spec = case["dist"]
    o = D.build(spec)
    ref = D.Ref(spec)
    mid = np.mean(ref.centers, axis=0) if hasattr(ref, "centers") else np.mean(ref.sup, axis=0)
    size = (ref.sup[1] - ref.sup[0]) * np.array(case["zoom"])
    lo, hi = mid - size / 2, mid + size / 2
    res = size / (np.array(case["k"]) + 0.5)
    with figure(2) as ax:
        cs = plot_pdf2d(ax, o, lo, hi, resolution=res, scale=case["scale"])
        axes = [np.linspace(lo[i], hi[i], case["k"][i]) for i in range(2)]
        u = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1)
        z = np.asarray(o.prob(u.reshape(-1, 2)), float).reshape(u.shape[:2]) * case["scale"]
        if z.max() - z.min() <= 1e-9 * z.max():
            ctx.trivial("constant density")
            return
        require(len(cs) > 0, "no contours of a density from %g to %g", z.min(), z.max())
        pairs = levels_of(cs)
        if not pairs:
            raise Skip("one collection by level")          # matplotlib older than 3.8
        require(8 <= len(pairs) <= 30, "%d levels", len(pairs))
        require(min(l for l, _ in pairs) <= z.min() + (z.max() - z.min()) * 0.1 and max(l for l, _ in pairs) >= z.min() + (z.max() - z.min()) * 0.85,
                "levels from %g to %g of a density from %g to %g", pairs[0][0], pairs[-1][0], z.min(), z.max())
        seen = 0
        for level, path in pairs:
            for p in path.vertices:
                seen += 1
                v = interpolate(p, axes, z)
                require(abs(v - level) <= 1e-6 * (z.max() - z.min()), "the contour at %g passes through %s, where the density is %g", level, np.round(p, 4).tolist(), v)
        if seen < 10:
            ctx.trivial("few vertices")


@st.composite
def make(draw, kind):
    sp_scales = (1, 1, 3)
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    c = draw(S.cases(kind, d=d, cubic=kind == "tp", scales=sp_scales, shapes=("gauss", "gmm", "flat", "ramp")))
    c["reqs"] = draw(st.lists(st.integers(2, 20), min_size=1, max_size=2))
    if kind == "mh" and draw(st.booleans()):
        c["p"]["offset"] = [v * draw(st.sampled_from([1, -1])) for v in draw(nums(d, 0.3, 2))]
    return c


@st.composite
def pdfs(draw):
    # Narrow ones too: densities far above 1
    c = draw(st.one_of(D.leaf(kinds=("normal", "uniform", "gmm", "exponential"), dmin=1, dmax=1),
                       st.builds(lambda m, s: {"t": "normal", "d": 1, "form": "array", "mean": [m], "cov": [[s * s]]}, num(-2, 2), num(1e-7, 1e-3, 10 ** 9))))
    lo, res, k = draw(num(-5, 4)), draw(num(0.02, 1)), draw(st.integers(2, 60))
    if c["t"] == "normal" and c["cov"][0][0] < 1e-5:
        res = c["cov"][0][0] ** 0.5
        lo = c["mean"][0] - res * (k // 2)
    return {"dist": c, "lo": lo, "res": res, "k": k, "array": False, "scale": draw(num(0.1, 5)), "seed": draw(seeds)}


@st.composite
def pdfs2(draw):
    return {"dist": draw(D.leaf(kinds=("normal", "gmm"), dmin=2, dmax=2)), "zoom": draw(nums(2, 0.2, 0.7)), "k": draw(st.lists(st.integers(3, 14), min_size=2, max_size=2)),
            "scale": draw(num(0.1, 5)), "seed": draw(seeds)}


@st.composite
def dists(draw):
    return {"dist": draw(D.leaf(kinds=("normal", "uniform", "gmm", "exponential"), dmin=1, dmax=2)), "k": draw(st.integers(3, 60)), "seed": draw(seeds)}


@st.composite
def noisy(draw):
    return {"a": draw(num(-2, 2)), "f": draw(num(0.1, 5)), "s": draw(num(0.01, 1)), "lo": draw(num(-3, 3)), "w": draw(num(0.1, 4)), "k": draw(st.integers(2, 30)),
            "label": draw(st.booleans()), "seed": draw(seeds)}


PARTS = split("sampler", S.by_sampler(make, 180, weights={"mh": 2.5}), check) + [Part("curve", pdfs(), check_pdf, 60), Part("contour", pdfs2(), check_pdf2d, 60),
    Part("draw", dists(), check_draw, 40), Part("noisy", noisy(), check_noisy, 15)]
