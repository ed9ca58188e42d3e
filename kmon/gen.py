"""Seeded workload generators."""
import numpy as np

from . import ref

DATA_STYLES = ['normal', 'uniform', 'clusters', 'heavy', 'lognormal', 'lattice', 'offset', 'tiny', 'huge', 'mixed', 'ints', 'line']
WEIGHT_STYLES = ['none', 'none', 'uniform', 'ints', 'heavy', 'zeros', 'const', 'tiny']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def random_corr(rng, dim, lo=0.15):
    """A random correlation-like matrix with bounded condition."""
    aa = rng.normal(size=(dim, dim))
    cov = aa @ aa.T / dim + lo * np.eye(dim)
    sd = np.sqrt(np.diag(cov))
    return cov / np.outer(sd, sd)


def dataset(rng, dim, num, style=None):
    """(dim, num) float array."""
    if style is None:
        style = pick(rng, DATA_STYLES)
    if style == 'normal':
        chol = np.linalg.cholesky(random_corr(rng, dim))
        data = chol @ rng.normal(size=(dim, num))
    elif style == 'uniform':
        data = rng.uniform(-1, 1, size=(dim, num))
    elif style == 'clusters':
        cent = rng.uniform(-4, 4, size=(dim, 3))
        data = cent[:, rng.integers(3, size=num)] + rng.normal(0, 0.4, size=(dim, num))
    elif style == 'heavy':
        data = np.clip(rng.standard_t(2, size=(dim, num)), -25, 25)
    elif style == 'lognormal':
        data = np.exp(rng.normal(0, 0.8, size=(dim, num)))
    elif style == 'lattice':
        data = rng.integers(0, 6, size=(dim, num)).astype(float) * 0.5
    elif style == 'offset':
        data = rng.normal(size=(dim, num)) + rng.uniform(-300, 300, size=(dim, 1))
    elif style == 'tiny':
        data = rng.normal(size=(dim, num)) * 1e-3
    elif style == 'huge':
        data = rng.normal(size=(dim, num)) * 1e4
    elif style == 'mixed':
        data = rng.normal(size=(dim, num)) * 10**rng.uniform(-1, 1, size=(dim, 1)) + rng.normal(size=(dim, 1))
    elif style == 'ints':
        data = rng.integers(-9, 10, size=(dim, num)).astype(float)
    elif style == 'line':
        base = rng.normal(size=num)
        data = np.array([base * rng.uniform(-1, 1) + rng.normal(0, 0.3, num) for _ in range(dim)])
    else:
        raise KeyError(style)
    # never degenerate
    for dd in range(dim):
        if np.ptp(data[dd]) == 0:
            data[dd] += np.arange(num)
    return np.ascontiguousarray(data)


def well_conditioned(data, weights=None, limit=1e5):
    cov = ref.weighted_cov(data, weights)
    sd = np.sqrt(np.diag(cov))
    if not (np.all(np.isfinite(cov)) and np.all(sd > 0)):
        return False
    return np.linalg.cond(cov / np.outer(sd, sd)) < limit


def weights(rng, num, style=None):
    if style is None:
        style = pick(rng, WEIGHT_STYLES)
    if style == 'none':
        return None
    if style == 'uniform':
        return rng.uniform(0.1, 2.0, size=num)
    if style == 'ints':
        return rng.integers(1, 6, size=num).astype(float)
    if style == 'heavy':
        return np.clip(rng.pareto(1.2, size=num) + 0.05, None, 50.0)
    if style == 'zeros':
        ww = rng.uniform(0.5, 2.0, size=num)
        ww[rng.random(num) < 0.3] = 0.0
        if np.count_nonzero(ww) < 3:
            ww[:3] = 1.0
        return ww
    if style == 'const':
        return np.full(num, float(rng.uniform(0.2, 7.0)))
    if style == 'tiny':
        return rng.uniform(0.5, 1.0, size=num) * 1e-7
    raise KeyError(style)


def represent(rng, data, kinds=('c', 'c', 'f', 'strided', 'list', 'neg')):
    """The same values behind a different memory layout or container."""
    kind = pick(rng, list(kinds))
    data = np.asarray(data)
    if kind == 'f':
        return np.asfortranarray(data), kind
    if kind == 'strided':
        big = np.zeros(data.shape[:-1] + (2 * data.shape[-1],), dtype=data.dtype)
        big[..., ::2] = data
        return big[..., ::2], kind
    if kind == 'neg':
        return data[..., ::-1].copy()[..., ::-1], kind
    if kind == 'list':
        return data.tolist(), kind
    if kind == 'ro':
        data = data.copy()
        data.setflags(write=False)
        return data, kind
    return data.copy(), 'c'


def smoothing(rng, dim, data, ww, kinds=None):
    """A KDE specification, and the squared smoothing matrix that it must give.

    Returns kwargs (for KDE), matrix, label.
    """
    num = data.shape[1]
    if kinds is None:
        kinds = ['default', 'scott', 'silverman', 'scalar', 'scalar1', 'vector', 'mixed', 'matrix', 'cov', 'diagonal', 'rescale', 'rescale-each', 'neff']
    kind = pick(rng, kinds)
    cov = ref.weighted_cov(data, ww)
    ne = ref.neff(num, ww)
    kw = {}
    if kind == 'default':
        bw = ref.scott(ne, dim)
        mat = cov * bw**2
    elif kind in ('scott', 'silverman'):
        kw['bandwidth'] = kind
        bw = getattr(ref, kind)(ne, dim)
        mat = cov * bw**2
    elif kind == 'scalar':
        bw = float(rng.uniform(0.1, 1.2))
        kw['bandwidth'] = bw
        mat = cov * bw**2
    elif kind == 'scalar1':
        bw = float(rng.uniform(0.1, 1.2))
        kw['bandwidth'] = [bw]
        mat = cov * bw**2
    elif kind == 'vector':
        bw = rng.uniform(0.1, 1.2, size=dim)
        kw['bandwidth'] = bw if rng.random() < 0.5 else bw.tolist()
        mat = np.diag(np.diag(cov) * bw**2)
    elif kind == 'mixed':
        names = [pick(rng, ['scott', 'silverman', 0.3, 0.7]) for _ in range(dim)]
        bw = np.array([getattr(ref, nn)(ne, dim) if isinstance(nn, str) else nn for nn in names])
        kw['bandwidth'] = names if dim > 1 else names[0]
        mat = np.diag(np.diag(cov) * bw**2) if dim > 1 else cov * bw**2
    elif kind == 'matrix':
        # squares of the elements are positive definite, hence so is the product with a covariance
        corr = np.abs(random_corr(rng, dim, lo=0.5))
        ss = rng.uniform(0.1, 1.0, size=dim)
        corr = 0.5 * corr + 0.5 * np.eye(dim) if dim > 1 else corr
        ev = np.linalg.eigvalsh(corr)
        if ev[0] < 0.05:
            corr = corr + (0.1 - ev[0]) * np.eye(dim)
        mat2 = corr * np.outer(ss, ss)
        bw = np.sqrt(mat2)
        kw['bandwidth'] = bw if rng.random() < 0.5 else bw.tolist()
        mat = cov * mat2
    elif kind == 'cov':
        sd = np.sqrt(np.diag(cov))
        cov = random_corr(rng, dim) * np.outer(sd, sd) * rng.uniform(0.3, 2.0)
        bw = float(rng.uniform(0.2, 0.8))
        kw['covariance'] = cov.copy()
        kw['bandwidth'] = bw
        mat = cov * bw**2
    elif kind == 'diagonal':
        kw['diagonal'] = True
        bw = ref.scott(ne, dim)
        mat = np.diag(np.diag(cov)) * bw**2
    elif kind == 'rescale':
        fac = float(rng.uniform(0.4, 2.0))
        kw['bw_rescale'] = fac
        bw = ref.scott(ne, dim) * fac
        mat = cov * bw**2
    elif kind == 'rescale-each':
        fac = rng.uniform(0.4, 2.0, size=dim)
        form = rng.integers(3)
        kw['bw_rescale'] = fac if form == 0 else fac.tolist() if form == 1 else np.sqrt(np.outer(fac, fac))
        bw = ref.scott(ne, dim)
        mat = cov * bw**2 * np.outer(fac, fac)
    elif kind == 'neff':
        ne = float(rng.uniform(5, 80))
        kw['neff'] = ne
        bw = ref.scott(ne, dim)
        mat = cov * bw**2
    else:
        raise KeyError(kind)
    return kw, np.atleast_2d(mat), kind


def probe_points(rng, data, matrix, num, reach=1.5):
    """Evaluation points: near data, between, at data, and far outside."""
    dim, nd = data.shape
    chol = np.linalg.cholesky(matrix)
    near = data[:, rng.integers(nd, size=num)] + reach * chol @ rng.normal(size=(dim, num)) * rng.uniform(0, 1, size=num)
    lo, hi = data.min(axis=1, keepdims=True), data.max(axis=1, keepdims=True)
    far = lo + (hi - lo) * rng.uniform(-0.5, 1.5, size=(dim, num))
    use = rng.random(num)
    pts = np.where(use < 0.6, near, far)
    at = rng.random(num) < 0.1
    pts[:, at] = data[:, rng.integers(nd, size=int(at.sum()))]
    return np.ascontiguousarray(pts)
