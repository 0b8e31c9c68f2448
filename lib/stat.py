"""Statistical oracles: p-values of samples against exact distributions."""

import numpy as np
from scipy import stats, special


def ks(x, cdf, atoms=False):
    """Kolmogorov-Smirnov p-value of continuous samples."""
    return float(stats.kstest(np.asarray(x, float), cdf, method="asymp").pvalue)


def chi2_discrete(x, pmf, kmax, nmin=20.0):
    """Chi-square p-value of non-negative integers x against pmf(k); returns (p, number of bins).

    Bins are merged until nmin events are expected in each one, the last one is open.

    """
    x = np.asarray(x)
    n = len(x)
    k = np.arange(0, int(kmax) + 1)
    p = np.asarray(pmf(k), float)
    p = np.where(np.isfinite(p), p, 0.0)
    return chi2_table(x, k, p, n, nmin)


def chi2_table(x, k, p, n, nmin=20.0):
    edges, expect, acc = [], [], 0.0
    for kk, pp in zip(k, p):
        acc += pp * n
        if acc >= nmin:
            edges.append(kk)
            expect.append(acc)
            acc = 0.0
    expect = np.array(expect)
    rest = n - expect.sum()
    # index of the bin of every value: (previous edge, edge]
    idx = np.searchsorted(np.array(edges), x, side="left")
    counts = np.bincount(idx, minlength=len(edges) + 1).astype(float)
    if rest < nmin and len(expect) > 1:
        expect[-1] += rest
        counts[-2] += counts[-1]
        counts = counts[:-1]
    else:
        expect = np.append(expect, rest)
    if len(expect) < 2:
        return 1.0, len(expect)
    c = np.sum((counts - expect) ** 2 / expect)
    return float(stats.chi2.sf(c, len(expect) - 1)), len(expect)


def moments(x, mean, var, kurt_excess=None):
    """Two-sided p-values of the mean and the variance of x (normal approximation)."""
    x = np.asarray(x, float)
    n = len(x)
    p_mean = 2 * stats.norm.sf(abs(x.mean() - mean) / np.sqrt(var / n))
    k = 3.0 if kurt_excess is None else kurt_excess
    se = var * np.sqrt((2 + k) / n)
    p_var = 2 * stats.norm.sf(abs(np.mean((x - mean) ** 2) - var) / se)
    return float(p_mean), float(p_var)


def rank_corr(x, y):
    """P-value of the rank correlation of independent samples."""
    x = stats.rankdata(x)
    y = stats.rankdata(y)
    if x.std() == 0 or y.std() == 0:
        return 1.0
    r = np.corrcoef(x, y)[0, 1]
    return float(2 * stats.norm.sf(abs(r) * np.sqrt(len(x) - 1)))


def binom_test(k, n, p):
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return float(stats.binomtest(int(k), int(n), float(p)).pvalue)


def gpois_logpmf(k, lam, eta):
    """Generalized Poisson with mean lam and branching ratio eta."""
    th = lam * (1 - eta)
    k = np.asarray(k, float)
    return np.log(th) + (k - 1) * np.log(th + k * eta) - th - k * eta - special.gammaln(k + 1)


def two_half_norm_cdf(x, mu, sp, sn):
    x = np.asarray(x, float)
    lo = 2 * sn / (sp + sn) * stats.norm.cdf((x - mu) / sn)
    hi = sn / (sp + sn) + 2 * sp / (sp + sn) * (stats.norm.cdf((x - mu) / sp) - 0.5)
    return np.where(x < mu, lo, hi)
