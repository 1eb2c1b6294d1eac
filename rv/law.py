"""Independent laws of the distributions a scenario declares, truncated to their bounds."""
import math
import numpy as np
from scipy import stats as st

ALPHA = 1e-11


def raw(name, p, lo, hi):
    """frozen scipy law before truncation"""
    if name == "uniform":
        return st.uniform(lo, hi - lo)
    if name == "expon":
        return st.expon(lo, p[0] - lo if p[0] >= lo else p[0])
    if name == "norm":
        return st.norm(p[0], p[1])
    if name == "gamma":
        return st.gamma(p[0] ** 2 / p[1], scale=p[1] / p[0])
    if name == "lognorm":
        s2 = math.log(1 + p[1] / p[0] ** 2)
        return st.lognorm(math.sqrt(s2), scale=p[0] / math.exp(s2 / 2))
    if name == "triang":
        return st.triang((p[0] - lo) / (hi - lo), lo, hi - lo)
    raise ValueError(name)


def cdf(name, p, lo=None, hi=None):
    """distribution function given that the value is in [max(0, lo), hi]; None if hardly any value is"""
    d = raw(name, p, 0 if lo is None else lo, hi)
    a = d.cdf(max(0, lo or 0)) if lo or d.cdf(0) > 0 else 0
    b = 1 if hi is None else d.cdf(hi)
    if b - a < .2:
        return None
    return lambda x: np.clip((d.cdf(x) - a) / (b - a), 0, 1)


def of(spec):
    """distribution function of a declaration {"distribution_name", "distribution_params"}; None for constants"""
    n, p = spec["distribution_name"], [float(x["value"]) for x in spec["distribution_params"]]
    if n == "fix" or p[-1] <= p[-2]:
        return None
    return cdf(n, p[:-2], p[-2], p[-1])


def unlike(xs, f):
    """are these values no sample of the law f (one in 1e11)"""
    return len(xs) >= 60 and st.kstest(np.asarray(xs, dtype=float), f).pvalue < ALPHA


def dependent(xs):
    """are consecutive values of a continuous law correlated, or values repeated (one in 1e11, normal and Poisson approximation)"""
    xs = np.asarray(xs, dtype=float)
    n = len(xs)
    if n < 60:
        return False
    rk = st.rankdata(xs)
    c = np.corrcoef(rk[:-1], rk[1:])[0, 1]
    return math.isnan(c) or abs(c) * math.sqrt(n) > 8 or repeated(xs)


def repeated(xs):
    """are there more pairs within 1e-4 of each other than the pairs within 0.1 let expect"""
    xs = np.sort(xs[xs > 1])
    k = np.arange(len(xs))
    near, wide = ((np.searchsorted(xs, xs + w, "right") - 1 - k).sum() for w in (1e-4, .1))
    return near > 10 + 10 * wide / 1000


def streaky(flags):
    """do these outcomes come in too few or too many runs (one in 1e11 of each; exact law given the number of successes)"""
    n, k = len(flags), sum(flags)
    if not 15 <= k <= n - 15:
        return False
    runs = sum(bool(x) and not (i and flags[i - 1]) for i, x in enumerate(flags))
    h = st.hypergeom(n, n - k + 1, k)
    return h.sf(runs - 1) < ALPHA or h.cdf(runs) < ALPHA
