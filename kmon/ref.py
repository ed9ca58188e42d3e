"""Independent oracles: textbook definitions, written without reference to kalepy's implementation."""
import itertools

import numpy as np
import scipy.special as sps

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']
ORDER = {'box': 0, 'parabola': 1, 'triweight': 3}


def ball_vol(dim):
    return np.pi**(dim / 2) / sps.gamma(dim / 2 + 1)


def kernel_norm(kernel, dim):
    """Integral over R^dim of the unnormalized radial profile."""
    if kernel == 'gaussian':
        return (2 * np.pi)**(dim / 2)
    kk = ORDER[kernel]
    # int_0^1 dim V_dim r^(dim-1) (1-r^2)^k dr = dim V_dim B(dim/2, k+1) / 2
    return dim * ball_vol(dim) * sps.beta(dim / 2, kk + 1) / 2


def kernel_value(kernel, r2, dim):
    r2 = np.asarray(r2, dtype=float)
    if kernel == 'gaussian':
        val = np.exp(-0.5 * r2)
    else:
        val = np.where(r2 <= 1.0, np.clip(1.0 - r2, 0.0, None)**ORDER[kernel], 0.0)
    return val / kernel_norm(kernel, dim)


def kernel_radius(kernel, nsig=9.0):
    return nsig if kernel == 'gaussian' else 1.0


def weighted_cov(data, weights=None):
    data = np.atleast_2d(np.asarray(data, dtype=float))
    num = data.shape[1]
    if weights is None:
        mean = data.sum(axis=1, keepdims=True) / num
        dev = data - mean
        return dev @ dev.T / (num - 1)
    ww = np.asarray(weights, dtype=float)
    v1, v2 = ww.sum(), (ww**2).sum()
    mean = (data * ww).sum(axis=1, keepdims=True) / v1
    dev = data - mean
    return (dev * ww) @ dev.T / (v1 - v2 / v1)


def neff(num, weights=None):
    if weights is None:
        return float(num)
    ww = np.asarray(weights, dtype=float)
    return ww.sum()**2 / (ww**2).sum()


def scott(ne, dim):
    return ne**(-1.0 / (dim + 4))


def silverman(ne, dim):
    return (ne * (dim + 2.0) / 4.0)**(-1.0 / (dim + 4))


def mahalanobis2(points, data, matrix):
    """(M, N) squared distances in units of `matrix`."""
    points, data = np.atleast_2d(points).astype(float), np.atleast_2d(data).astype(float)
    diff = points[:, :, None] - data[:, None, :]
    chol = np.linalg.cholesky(np.atleast_2d(matrix))
    dim, mm, nn = diff.shape
    yy = np.linalg.solve(chol, diff.reshape(dim, mm * nn))
    return (yy**2).sum(axis=0).reshape(mm, nn)


def kde_density(points, data, matrix, kernel, weights=None, reflect=None, edge=None):
    """Weighted sum of normalized kernels with (squared) smoothing `matrix`; optionally reflected.

    `reflect` : list over dimensions of None or (lo|None, hi|None).
    Returns the density (total mass = sum of weights) and a mask of points which are not within
    `edge` (relative) of a kernel's edge.
    """
    points = np.atleast_2d(points).astype(float)
    data = np.atleast_2d(data).astype(float)
    dim, num = data.shape
    matrix = np.atleast_2d(np.asarray(matrix, dtype=float))
    ww = np.ones(num) if weights is None else np.asarray(weights, dtype=float)
    sqdet = np.prod(np.diag(np.linalg.cholesky(matrix)))
    reflect = [None] * dim if reflect is None else reflect
    options = []
    inside = np.ones(points.shape[1], dtype=bool)
    for dd, ref in enumerate(reflect):
        opts = [None]
        if ref is not None:
            lo, hi = ref
            if lo is not None:
                opts.append(lo)
                inside &= points[dd] >= lo
            if hi is not None:
                opts.append(hi)
                inside &= points[dd] <= hi
        options.append(opts)
    total = np.zeros(points.shape[1])
    good = np.ones(points.shape[1], dtype=bool)
    # each observed point gathers the kernels at every combination of mirror images
    for combo in itertools.product(*options):
        img = points.copy()
        for dd, loc in enumerate(combo):
            if loc is not None:
                img[dd] = 2 * loc - img[dd]
        step = max(1, int(4e6 // (num * dim)))
        for beg in range(0, img.shape[1], step):
            sl = slice(beg, beg + step)
            r2 = mahalanobis2(img[:, sl], data, matrix)
            total[sl] += kernel_value(kernel, r2, dim) @ ww
            if edge is not None and kernel != 'gaussian':
                good[sl] &= ~(np.abs(r2 - 1.0) < edge).any(axis=1)
    total = np.where(inside, total / sqdet, 0.0)
    return total, good


def weighted_quantile_bracket(vals, qq, weights=None):
    """Smallest and largest value that is a legitimate weighted `qq`-quantile of `vals`."""
    vals = np.asarray(vals, dtype=float)
    ww = np.ones(vals.size) if weights is None else np.asarray(weights, dtype=float)
    idx = np.argsort(vals, kind='stable')
    vals, ww = vals[idx], ww[idx]
    keep = ww > 0
    vals, ww = vals[keep], ww[keep]
    cum = np.cumsum(ww) / ww.sum()
    lo = np.clip(np.searchsorted(cum, qq - 1e-12), 0, vals.size - 1)
    return vals, ww, cum, lo


def trapz_grid(vals, edges):
    """Trapezoid integral over every dimension, by explicit weights."""
    vals = np.asarray(vals, dtype=float)
    for dd in reversed(range(vals.ndim)):
        xx = np.asarray(edges[dd], dtype=float)
        wt = np.zeros(xx.size)
        wid = np.diff(xx)
        wt[:-1] += 0.5 * wid
        wt[1:] += 0.5 * wid
        vals = np.tensordot(vals, wt, axes=([dd], [0]))
    return float(vals)
