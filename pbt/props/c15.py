import hypothesis.strategies as st
import numpy as np

from pbt import guard
from pbt.core import Part, require
from pbt.gen import num

ID = "C15"
RULE = ("A case is a history of resets, start/stop pairs and passing time, with a clock that advances only as the case says (and by a "
        "fixed amount at each reading). Non-trivial: at least two intervals, or an interval and a reset.")
ASSUMPTIONS = ["The clock is one of the functions of Python's time module."]


@st.composite
def cases(draw):
    dt = st.one_of(num(0, 10), st.sampled_from([0.0, 1e-6, 3600.0, 1e5]))
    op = st.one_of(st.tuples(st.just("interval"), dt, st.just(0)), st.tuples(st.just("interval"), dt, dt), st.tuples(st.just("wait"), dt),
                   st.tuples(st.just("reset")), st.tuples(st.just("read")),
                   st.tuples(st.just("start")))
    return {"ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=10))], "read": draw(st.sampled_from([0.0, 0.0, 1e-3, 0.25])),
            "start": draw(st.sampled_from([0.0, 5.0, 1.7e9])), "seed": 0}


def check(case, ctx):
    from ais_benchmarks.metrics.performance import CElapsedTime
    clock = guard.Clock(per_read=case["read"])
    clock.advance(case["start"] if case["start"] < 1e6 else 0)
    with guard.virtual_time(clock):
        m = CElapsedTime()
        m.reset()
        total, n, eps = 0.0, 0, 1e-9
        for op in case["ops"] + [["read"]]:
            if op[0] == "interval":
                m.pre()
                clock.advance(op[1])
                if op[2]:
                    # The clock keeps running while the metric is read in between
                    clock.advance(op[2])
                m.post()
                total += op[1] + op[2]
                n += 1
            elif op[0] == "start":
                m.pre()                                    # interrupted: never stopped, the next interval starts anew
                ctx.label("interrupted")
            elif op[0] == "wait":
                clock.advance(op[1])
            elif op[0] == "reset":
                m.reset()
                total = 0.0
                ctx.label("reset")
            # reading does not disturb
            for v in (m.compute(), m.value, m.compute(p=None, q=None, nsamples=3)):
                require(abs(float(v) - total) <= 1e-6 + 1e-9 * clock.now, "%r seconds measured, %r passed between start and stop since the last reset", float(v), total)
    ctx.label("%d intervals" % min(n, 4))
    if n == 0 or len(case["ops"]) < 2:
        ctx.trivial("single operation")


@st.composite
def jitters(draw):
    return {"cost": draw(num(1e-4, 0.1)), "turns": draw(st.sampled_from([[0, 1, 2], [2, 0, 1], [0, 0, 3], [0, 0.5, 1, 1.5, 2]])),
            "dt": draw(st.lists(st.sampled_from([0.0, 0.0, 0.1, 0.5, 3.0]), min_size=1, max_size=4)), "n": draw(st.integers(60, 240)), "seed": 0}


def check_jitter(case, ctx):
    """Readings of the clock that take some more and some less than usual: what is measured on average stays."""
    from ais_benchmarks.metrics.performance import CElapsedTime
    c = case["cost"]
    clock = guard.Clock(per_read=[c * v for v in case["turns"]])
    with guard.virtual_time(clock):
        m = CElapsedTime()
        m.reset()
        total = 0.0
        for k in range(case["n"]):
            dt = case["dt"][k % len(case["dt"])] * c
            m.pre()
            clock.advance(dt)
            m.post()
            total += dt
        got = float(m.compute())
    tol = c * (6 + case["n"] / 30)
    require(abs(got - total) <= tol, "%r seconds measured in %d intervals that took %r (bound %.3g)", got, case["n"], total, tol)


PARTS = [Part("stopwatch", cases(), check, 250), Part("jitter", jitters(), check_jitter, 60)]
