"""Statistical tools: distribution-free bounds, transforms of samples to uniforms under the reference law."""
import math

import numpy as np

from pbt.core import require

ALPHA = 1e-10


def dkw(n, alpha=ALPHA):
    """Bound of the largest distance between the empirical and the true distribution function."""
    return math.sqrt(math.log(2 / alpha) / (2 * n))


def hoeffding(n, alpha=ALPHA):
    return math.sqrt(math.log(2 / alpha) / (2 * n))


def ks(u):
    u = np.sort(np.asarray(u, float))
    n = len(u)
    i = np.arange(n)
    return max(float(np.max((i + 1) / n - u)), float(np.max(u - i / n)))


def require_uniform(u, what, alpha=ALPHA):
    """u: values that are independent and uniform on [0, 1] if the property holds."""
    require(np.all(np.isfinite(u)), "%s: not finite", what)
    d = ks(u)
    require(d <= dkw(len(u), alpha), "%s: distance of %.3f to the law it should follow (n=%d, bound %.3f)", what, d, len(u), dkw(len(u), alpha))


def require_tails(u, what, alpha=1e-12):
    """The numbers of values near 0 and near 1 are binomial."""
    from scipy.stats import binom
    n = len(u)
    for t in (0.1, 0.03, 0.01, 0.003, 0.001):
        for side, k in (("lower", int(np.sum(u <= t))), ("upper", int(np.sum(u >= 1 - t)))):
            p = 2 * min(binom.cdf(k, n, t), binom.sf(k - 1, n, t))
            require(p > alpha, "%s: %d of %d samples in the %s %g of the distribution", what, k, n, side, t)


def norm_cdf(z):
    from scipy.special import ndtr
    return ndtr(z)
