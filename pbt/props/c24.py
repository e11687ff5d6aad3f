import hypothesis.strategies as st
import numpy as np

from pbt import samplers as S
from pbt.core import Skip, require, split
from pbt.gen import num, nums, seeds

ID = "C24"
RULE = ("A case is a configured sampler with a target that has mass at or beyond the limits of the space, and a sequence of requests; every "
        "sample is inside. Non-trivial: the space is not centred at 0, and some sample lies in the outer tenth of it.")

SHAPES = ["gauss", "gauss", "gmm", "ramp", "ramp", "flat", "flat", "checker", "cut", "box"]


EXACT = ("mh", "nested", "multinested")       # compare their samples with the limits given


def inside(x, lo, hi, what, exact=False):
    tol = 0 if exact else 1e-12 * (np.abs(lo) + np.abs(hi)) + 1e-9 * (hi - lo)
    bad = np.any((x < lo - tol) | (x > hi + tol), axis=1)
    require(not bad.any(), "%s outside of the space from %s to %s: %s", what, lo.tolist(), hi.tolist(), x[bad][:2].tolist())


def check(case, ctx):
    sp = case["sp"]
    lo, hi = np.array(sp["lo"]), np.array(sp["hi"])
    kind = case["p"]["m"]
    got = 0
    edge = False
    with S.session(case) as (s, target, clock):
        for i, n in enumerate(case["reqs"]):
            if case["reset"] == i:
                s.reset()
            x, w = S.request(s, target, n)
            got += len(x)
            inside(x, lo, hi, "a sample", kind in EXACT)
            edge = edge or len(x) > 0 and np.any(np.abs(x - (lo + hi) / 2) > 0.4 * (hi - lo))
            if kind in ("tp", "hidaisee") and len(x):
                y = np.array(s.sample(20), float)
                require(y.shape == (20, sp["d"]), "sample(20) has shape %s", y.shape)
                inside(y, lo, hi, "a draw from the proposal")
        if kind not in ("nested", "multinested"):                 # these may evaluate a candidate before they reject it
            inside(target.points(), lo, hi, "an evaluation of the target", kind in EXACT)
    if not got:
        raise Skip("no samples")
    if not edge or np.all(np.abs(lo + hi) < 1e-12):
        ctx.trivial("away from the limits")


@st.composite
def make(draw, kind):
    d = draw(st.integers(1, 3))
    sp = draw(S.space(d=d, cubic=kind == "tp", scales=(1, 1, 0.1, 30, 1e-3)))
    far = draw(st.sampled_from([0, 0, 0.3, 100.1, -1000.7]))
    sp["lo"], sp["hi"] = [v + far for v in sp["lo"]], [v + far for v in sp["hi"]]
    t = draw(S.target(sp, shapes=SHAPES))
    if t["t"] in ("gauss", "cut") and draw(st.booleans()):
        # Around a corner, or beyond
        t["m"] = [draw(st.sampled_from([-1.0, 1.0])) * draw(num(0.9, 1.3)) for _ in range(d)]
    fixed = {"kernel": "haar"} if kind == "tp" else {"proposal": "uniform"} if kind == "rejection" else {}
    if kind in ("mh", "nested") and draw(st.integers(0, 2)):
        # Steps as long as the space
        fixed["proposal_sigma" if kind == "mh" else "prop_var"] = (draw(num(0.6, 4)) * 2 * max(S.halves(sp))) ** 2
    p = draw(S.params(kind, sp, t, **fixed))
    reqs = draw(S._requests(3))
    return {"sp": sp, "t": t, "p": p, "reqs": reqs, "reset": draw(st.sampled_from([-1, -1, -1, 1])), "seed": draw(seeds)}


COUNT = {"hidaisee": 50, "tp": 50, "mh": 70, "nested": 40, "multinested": 25, "rejection": 50}
PARTS = split("inside", {k: (make(k), n) for k, n in COUNT.items()}, check)
