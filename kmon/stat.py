"""Statistical oracles: exact reference distributions, with thresholds far beyond chance (p < 1e-10)."""
import numpy as np
import scipy.stats as ss
import scipy.special as sps

from . import ref

PMIN = 1e-10


def marginal_cdf(kernel, dim):
    """CDF of one (whitened) coordinate of a `dim`-dimensional kernel."""
    if kernel == 'gaussian':
        return ss.norm.cdf
    aa = ref.ORDER[kernel] + (dim - 1) / 2 + 1
    return lambda tt: sps.betainc(aa, aa, np.clip((np.asarray(tt) + 1) / 2, 0, 1))


def radius2_cdf(kernel, dim):
    if kernel == 'gaussian':
        return lambda rr: ss.chi2.cdf(rr, dim)
    return lambda rr: sps.betainc(dim / 2, ref.ORDER[kernel] + 1, np.clip(rr, 0, 1))


def ks(ctx, samples, cdf, key, pmin=PMIN, **detail):
    """One-sample Kolmogorov-Smirnov against an exact CDF (conservative for atoms on neither side)."""
    xx = np.sort(np.asarray(samples, dtype=float))
    num = xx.size
    cc = cdf(xx)
    dd = max(np.max(np.arange(1, num + 1) / num - cc), np.max(cc - np.arange(num) / num))
    # DKW bound holds for every sample size
    pv = 2 * np.exp(-2 * num * dd**2)
    ctx.count('samples_observed', num)
    ctx.count('statistical_tests')
    return ctx.check(np.isfinite(dd) and pv > pmin, key, ks=dd, p=pv, num=num, **detail)


def chi2_counts(ctx, counts, expected, key, pmin=PMIN, **detail):
    """Pearson chi-squared of observed counts, cells with small expectations merged."""
    counts, expected = np.asarray(counts, dtype=float).ravel(), np.asarray(expected, dtype=float).ravel()
    total = counts.sum()
    zero = expected <= 0
    if not ctx.check(counts[zero].sum() == 0, key + '-impossible', counts=counts[zero], **detail):
        return False
    counts, expected = counts[~zero], expected[~zero]
    expected = expected * total / expected.sum()
    order = np.argsort(expected)
    cc, ee = counts[order], expected[order]
    cum = np.cumsum(ee)
    nmerge = int(np.searchsorted(cum, 25.0)) + 1 if ee[0] < 25 else 0
    while nmerge and nmerge < ee.size and ee[nmerge] < 25:
        nmerge += 1
    if nmerge:
        cc = np.concatenate([[cc[:nmerge].sum()], cc[nmerge:]])
        ee = np.concatenate([[ee[:nmerge].sum()], ee[nmerge:]])
    if ee.size < 2:
        return True
    x2 = np.sum((cc - ee)**2 / ee)
    pv = ss.chi2.sf(x2, ee.size - 1)
    ctx.count('statistical_tests')
    # the chi-squared tail is an approximation at expectations of ~25: be generous
    return ctx.check(pv > pmin * 1e-2, key, x2=x2, dof=ee.size - 1, p=pv, **detail)


def zmean(ctx, samples, mean, var, key, zmax=7.5, **detail):
    """The mean of bounded-moment samples agrees with its expectation."""
    num = np.size(samples)
    zz = (np.mean(samples) - mean) / np.sqrt(var / num)
    ctx.count('statistical_tests')
    return ctx.check(abs(zz) < zmax, key, z=zz, **detail)


def serial(ctx, samples, key, zmax=7.5):
    """Consecutive draws are uncorrelated."""
    rank = np.argsort(np.argsort(samples)).astype(float)
    rank -= rank.mean()
    num = rank.size
    rr = np.sum(rank[1:] * rank[:-1]) / np.sum(rank**2)
    ctx.count('statistical_tests')
    return ctx.check(abs(rr) * np.sqrt(num) < zmax, key, corr=rr, num=num)


def collisions(ctx, which, prob, key, zmax=8.0, **detail):
    """Within each call (row of `which`), data are chosen independently: neither too many nor too few are chosen twice."""
    which = np.asarray(which)
    reps, num = which.shape
    p2, p3 = np.sum(prob**2), np.sum(prob**3)
    pairs = num * (num - 1) / 2
    mean = reps * pairs * p2
    var = reps * (pairs * (p2 - p2**2) + num * (num - 1) * (num - 2) * (p3 - p2**2))
    obs = 0
    for row in which:
        cc = np.bincount(row)
        obs += np.sum(cc * (cc - 1)) / 2
    if var <= 0 or mean < 50:
        return True
    zz = (obs - mean) / np.sqrt(var)
    ctx.count('statistical_tests')
    ctx.count('calls_observed', reps)
    return ctx.check(abs(zz) < zmax, key, z=zz, observed=obs, expected=mean, reps=reps, num=num, **detail)
