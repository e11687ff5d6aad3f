import hypothesis.strategies as st
import numpy as np

from pbt.core import Part, require, require_close
from pbt.gen import num, nums, seeds

ID = "C37"
RULE = ("A case is a sequence of visual elements with identifiers, drawn on one figure. Non-trivial: an identifier that appears twice, with elements "
        "of different kinds or places.")


def function(e):
    k = e["f"]
    return lambda x: k[0] + k[1] * x + k[2] * np.sin(3 * x)


def build(e):
    from ais_benchmarks.visualization import visuals as V
    if e["e"] == "axis":
        a = V.CAxis(e["id"], start=np.array(e["a"] + [0], float), end=np.array(e["b"] + [0], float))
        a.pos = np.array([0.0, 0.0, 0.0])
        if e["ticks"] is not None:
            a.ticks = np.array(e["ticks"], float)
            a.ticks_size = [e["tick"]] * len(e["ticks"])
            a.ticks_lbl = ["t%d" % i for i in range(len(e["ticks"]))]
        return a
    if e["e"] == "function":
        kw = {} if e["n"] is None else {"resolution": e["n"]}
        lim = [e["x0"], e["x0"] + e["dx"]]
        if e["kind"] == "component":
            return V.CProposalDistComponent(e["id"], function(e), e["w"], lim, **kw)
        return {"plain": V.CFunction, "target": V.CTargetDist, "proposal": V.CProposalDist, "pdf": V.CProbabilityDensityFunction}[e["kind"]](
            e["id"], function(e), lim, **kw)
    pos = np.array(e["pos"] + [0], float)
    if e["kind"] == "plain":
        return V.CPoint(e["id"], pos)
    if e["kind"] == "importance":
        return V.CImportanceSample(e["id"], pos, e["w"])
    return {"proposed": V.CProposedSample, "accepted": V.CAcceptedSample, "rejected": V.CRejectedSample}[e["kind"]](e["id"], pos)


def expected(e):
    """(lines as arrays of points, scattered points, texts) of one element"""
    if e["e"] == "function":
        n = 1000 if e["n"] is None else e["n"]
        x = np.linspace(e["x0"], e["x0"] + e["dx"], n)
        return [np.stack((x, function(e)(x) * (e["w"] if e["kind"] == "component" else 1)), 1)], [], []
    if e["e"] == "point":
        return [], [np.array(e["pos"], float)], []
    a, b = np.array(e["a"], float), np.array(e["b"], float)
    length = np.linalg.norm(b - a)
    u = (b - a) / length
    v = np.array([-u[1], u[0]])
    if e["ticks"] is None:
        ticks, size = np.linspace(0, length, 10), length * 0.01
        labels = ["%3.1f" % t for t in ticks]
    else:
        ticks, size = np.array(e["ticks"], float), e["tick"]
        labels = ["t%d" % i for i in range(len(ticks))]
    return [np.stack((a, b))] + [np.stack((a + t * u - size * v, a + t * u + size * v)) for t in ticks], [], \
        [(lbl, a + t * u, u, size) for lbl, t in zip(labels, ticks)]


def match(want, got, what, same):
    got = list(got)
    for w in want:
        for i, g in enumerate(got):
            if same(w, g):
                del got[i]
                break
        else:
            require(False, "%s is missing: %s", what, str(w).replace("\n", " ")[:200])
    require(not got, "%d %ss too many, such as %s", len(got), what, str(got[0]).replace("\n", " ")[:200] if got else "")


def lines_same(w, g):
    return w.shape == g.shape and (np.allclose(w, g, rtol=1e-9, atol=1e-9) or (len(w) == 2 and np.allclose(w[::-1], g, rtol=1e-9, atol=1e-9)))


def text_same(w, g):
    lbl, at, u, size = w
    if g[0] != lbl:
        return False
    off = g[1] - at
    # Beside the tick, at most ten of its sizes away
    return abs(off @ u) <= 1e-6 * (1 + np.abs(at).max()) and np.linalg.norm(off) <= 10 * size + 1e-9


def check(case, ctx):
    import matplotlib.pyplot as plt
    from ais_benchmarks.visualization.matplotlib import viz_interface as I
    fig = plt.figure(figsize=(2, 2))
    try:
        I.draw_sequence([build(e) for e in case["seq"]])
        ax = plt.gca()
        last = {}
        for e in case["seq"]:
            last[e["id"]] = e
        lines, points, texts = [], [], []
        for e in last.values():
            a, b, c = expected(e)
            lines += a
            points += b
            texts += c
        got = [np.stack((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)), 1) for l in ax.lines]
        match(lines, got, "line", lines_same)
        off = [np.asarray(o, float) for c in ax.collections for o in np.asarray(c.get_offsets(), float)]
        match(points, off, "point", lambda w, g: np.allclose(w, g, rtol=1e-9, atol=1e-9))
        match(texts, [(t.get_text(), np.array(t.get_position(), float)) for t in ax.texts], "label", text_same)
        if case["seq"]:
            one = case["seq"][0]
            res = I.draw_item(build(one), ax)
            n = sum(len(v) for v in expected(one))
            require(len(res) == n, "draw_item draws %d elements and returns %d", n, len(res))
    finally:
        plt.close(fig)
    ids = [e["id"] for e in case["seq"]]
    ctx.label("replaced" if len(set(ids)) < len(ids) else "all different")
    if len(set(ids)) == len(ids) or len(case["seq"]) < 3:
        ctx.trivial("nothing replaced")


def unknown(case, ctx):
    """Elements of an unknown kind are rejected."""
    import matplotlib.pyplot as plt
    from ais_benchmarks.visualization import visuals as V
    from ais_benchmarks.visualization.matplotlib import viz_interface as I
    e = V.CVisual(case["id"])
    e.type = case["type"]
    fig = plt.figure(figsize=(2, 2))
    try:
        try:
            I.draw_item(e, plt.gca())
        except Exception:
            return
        require(False, "an element of type %r is drawn", case["type"])
    finally:
        plt.close(fig)


@st.composite
def elements(draw):
    e = {"id": draw(st.integers(-2, 3)), "e": draw(st.sampled_from(["axis", "function", "point"]))}
    if e["e"] == "axis":
        e["a"] = draw(nums(2, -3, 3))
        e["b"] = [v + draw(st.sampled_from([-1, 1])) * draw(num(0.2, 4)) if i == 0 else v + draw(num(-4, 4)) for i, v in enumerate(e["a"])]
        e["ticks"] = draw(st.one_of(st.none(), st.lists(num(0, 3), max_size=4)))
        e["tick"] = draw(num(0.02, 0.4))
    elif e["e"] == "function":
        e.update(kind=draw(st.sampled_from(["plain", "target", "proposal", "pdf", "component"])), f=draw(nums(3, -2, 2)), x0=draw(num(-4, 4)), dx=draw(num(0.1, 5)),
                 n=draw(st.one_of(st.none(), st.integers(2, 40))), w=draw(num(0, 2)))
    else:
        e.update(kind=draw(st.sampled_from(["plain", "proposed", "accepted", "rejected", "importance"])), pos=draw(nums(2, -4, 4)), w=draw(num(0, 2)))
    return e


sequences = st.fixed_dictionaries({"seq": st.lists(elements(), min_size=1, max_size=6), "seed": seeds})
@st.composite
def longs(draw):
    """Many elements, between one and the one that replaces it."""
    items = draw(st.lists(elements(), min_size=18, max_size=45))
    k = draw(st.integers(8, 40))
    for i, e in enumerate(items):
        e["id"] = i % k
        if e["e"] == "function" and e["n"] is None:
            e["n"] = 7
    return {"seq": items, "seed": draw(seeds)}


kinds = st.fixed_dictionaries({"id": st.integers(0, 5), "type": st.sampled_from([None, "axes", "Function", ""]), "seed": st.just(0)})

PARTS = [Part("long", longs(), check, 12), Part("sequence", sequences, check, 150), Part("unknown", kinds, unknown, 12)]
