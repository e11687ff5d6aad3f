"""Strategies for plain JSON values."""
import math

import hypothesis.strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def num(lo, hi, step=100):
    """Numbers of a closed interval: round ones, which shrink well, and any."""
    a, b = math.ceil(lo * step - 1e-9), math.floor(hi * step + 1e-9)
    rough = st.integers(a, b).map(lambda k: min(max(k / step, lo), hi))
    fine = st.floats(lo, hi, allow_nan=False, allow_subnormal=False)
    return st.one_of(rough, rough, fine)


def nums(n, lo, hi, step=100):
    return st.lists(num(lo, hi, step), min_size=n, max_size=n)


def rows(n, d, lo, hi):
    return st.lists(nums(d, lo, hi), min_size=n, max_size=n)


@st.composite
def zbatch(draw, d, nmax=10, extra=60):
    """A batch of points in units of the distribution: a few explicit ones, near and far, and some expanded from a seed."""
    n = draw(st.integers(1, nmax))
    r = draw(st.sampled_from([1.5, 4.0, 4.0, 12.0, 60.0]))
    return {"z": draw(rows(n, d, -r, r)), "m": draw(st.sampled_from([0, 0, 1, 7, extra])), "zseed": draw(seeds)}
