"""Small statistical toolbox: every test returns a p-value-like number; alarms need p < ALPHA."""
import math
ALPHA = 1e-7


def ks_uniform(us):
    """Kolmogorov-Smirnov p-value for uniformity on [0,1]"""
    n = len(us)
    if n < 20:
        return 1.0, 0.0
    us = sorted(us)
    d = max(max((i + 1) / n - u, u - i / n) for i, u in enumerate(us))
    x = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * d
    s = 0.0
    for k in range(1, 101):
        t = 2 * (-1) ** (k - 1) * math.exp(-2 * k * k * x * x)
        s += t
        if abs(t) < 1e-14:
            break
    return max(0.0, min(1.0, s)), d


def ztwo(z):
    return math.erfc(abs(z) / math.sqrt(2))


def zsum(obs, mean, var):
    """two-sided p of a sum with known mean and variance"""
    if var <= 0:
        return (1.0 if abs(obs - mean) < 1e-9 else 0.0), 0.0
    z = (obs - mean) / math.sqrt(var)
    return ztwo(z), z


def chi2_p(x, k):
    """upper tail of chi-square with k degrees of freedom"""
    from scipy.stats import chi2
    return float(chi2.sf(x, k))


def chi2_counts(obs, exp, minexp=8):
    """Pearson test of counts against expectations, merging sparse cells; returns p, chi2, ndf"""
    cells = sorted(zip(exp, obs))
    m = []
    ae = ao = 0.0
    for e, o in cells:
        ae += e; ao += o
        if ae >= minexp:
            m.append((ae, ao)); ae = ao = 0.0
    if ae > 0 or ao > 0:
        if m and ae < minexp:
            e, o = m.pop(); m.append((e + ae, o + ao))
        else:
            m.append((ae, ao))
    if len(m) < 2:
        return 1.0, 0.0, 0
    x = sum((o - e) ** 2 / e for e, o in m if e > 0)
    if any(e <= 0 and o > 0 for e, o in m):
        return 0.0, float("inf"), len(m)
    return chi2_p(x, len(m) - 1), x, len(m) - 1


def binom_p(k, n, p):
    """two-sided exact-ish binomial p-value"""
    from scipy.stats import binom
    if p <= 0: return 1.0 if k == 0 else 0.0
    if p >= 1: return 1.0 if k == n else 0.0
    return float(min(1.0, 2 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p))))
