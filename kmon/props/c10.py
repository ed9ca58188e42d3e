"""C10: what weights mean -- relative importance, order-free, and equivalent to repeated points."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random weighted KDEs compared with transformed twins: weights rescaled, data permuted together with weights, integer "
        "weights against repeated points, zero-weight points dropped, unit weights against none; metamorphic relations "
        "on density / pdf / cdf / bandwidth / resampling streams")
ASSUMPTIONS = ["repeated points and dropped points are compared with an explicit covariance and bandwidth, as the effective number of points "
               "and the bias correction of the covariance are defined by the weights themselves"]
MIN_VERDICTS = {'rescaled-pdf': 60, 'permuted-pdf': 60, 'repeated-density': 60, 'dropped-density': 40, 'unit-density': 30}


def points(ctx, data, mat, num=40):
    return gen.probe_points(ctx.rng, data, mat, num, reach=1.5)


def setup(ctx, wstyles, dims=(1, 1, 2, 2, 3)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(5 * dim, 60))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    wstyle = gen.pick(rng, wstyles)
    ww = gen.weights(rng, num, wstyle)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    reflect = c03.bounds_for(rng, data) if rng.random() < 0.35 else None
    ctx.note(dim=dim, num=num, data=style, weights=wstyle, kernel=kernel, reflect=reflect, first=float(data[0, 0]))
    ctx.state(kernel, dim, wstyle, reflect is not None)
    return dim, num, data, ww, kernel, reflect


def good_points(ctx, data, mat, kernel, reflect):
    pts = points(ctx, data, mat)
    if kernel == 'gaussian':
        return pts
    # keep away from the edges of finite kernels, where rounding decides
    refl = [None] * len(data) if reflect is None else reflect
    _, good = ref.kde_density(pts, data, mat, kernel, None, reflect=refl, edge=1e-5)
    for dd, rr in enumerate(refl):
        for loc in (rr or []):
            if loc is not None:
                good &= np.abs(pts[dd] - loc) > 1e-7 * np.ptp(data[dd])
    return pts[:, good] if good.any() else pts[:, :0]


def same(ctx, got, want, key, rtol=1e-8, floor=1e-12, **kw):
    want = np.asarray(want, dtype=float)
    top = np.max(np.abs(want)) if want.size else 1.0
    return ctx.close(got, want, key, rtol=rtol, atol=floor * top, **kw)


def case_rescale(ctx):
    """Only relative weights matter for probabilities; densities scale with the total."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = setup(ctx, ['uniform', 'ints', 'heavy', 'zeros', 'tiny'])
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    fac = float(gen.pick(rng, [1e-8, 1e-3, 0.5, 3.0, 1e3, 1e8, 1 / ww.sum()]))
    aa = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw)
    bb = kale.KDE(data, weights=ww * fac, kernel=kernel, reflect=reflect, **kw)
    pts = good_points(ctx, data, mat, kernel, reflect)
    same(ctx, bb.bandwidth, aa.bandwidth, 'rescaled-bandwidth')
    same(ctx, bb.covariance, aa.covariance, 'rescaled-covariance', floor=1e-10)
    if not pts.shape[1]:
        raise Skip
    same(ctx, bb.pdf(pts)[1], aa.pdf(pts)[1], 'rescaled-pdf', factor=fac)
    same(ctx, bb.density(pts)[1], np.asarray(aa.density(pts)[1]) * fac, 'rescaled-density', factor=fac)
    # identical draws from identical random numbers
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    s1 = aa.resample(50)
    np.random.seed(seed)
    s2 = bb.resample(50)
    near = np.isclose(np.atleast_2d(s1), np.atleast_2d(s2), rtol=1e-6, atol=1e-6 * np.ptp(data)).all(axis=0)
    # rounding may swap single choices at the borders between data
    ctx.check(near.mean() > 0.9, 'rescaled-draws', same=near.mean())
    if dim <= 2 and rng.random() < 0.4:
        low = aa.cdf(pts if dim > 1 else pts[0])
        same(ctx, bb.cdf(pts if dim > 1 else pts[0]), low, 'rescaled-cdf', rtol=1e-6, floor=1e-7)


def case_permute(ctx):
    """The order of the data does not matter, as long as weights stay with their points."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = setup(ctx, ['none', 'uniform', 'ints', 'heavy', 'zeros'])
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    perm = rng.permutation(num)
    aa = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw)
    bb = kale.KDE(data[:, perm], weights=None if ww is None else ww[perm], kernel=kernel, reflect=reflect, **kw)
    pts = good_points(ctx, data, mat, kernel, reflect)
    if not pts.shape[1]:
        raise Skip
    same(ctx, bb.pdf(pts)[1], aa.pdf(pts)[1], 'permuted-pdf')
    same(ctx, bb.covariance, aa.covariance, 'permuted-covariance', floor=1e-10)
    same(ctx, bb.bandwidth, aa.bandwidth, 'permuted-bandwidth')
    if dim <= 2 and rng.random() < 0.3:
        arg = pts if dim > 1 else pts[0]
        same(ctx, bb.cdf(arg), aa.cdf(arg), 'permuted-cdf', rtol=1e-6, floor=1e-7)
    if dim > 1:
        # permuting the parameters
        axis = rng.permutation(dim)
        refl = None if reflect is None else [reflect[ii] for ii in axis]
        cov = ref.weighted_cov(data, ww) * 0.3
        cc = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, covariance=cov, bandwidth=0.7)
        dd = kale.KDE(data[axis], weights=ww, kernel=kernel, reflect=refl, covariance=cov[np.ix_(axis, axis)], bandwidth=0.7)
        pts = good_points(ctx, data, cov * 0.49, kernel, reflect)
        if pts.shape[1]:
            same(ctx, dd.pdf(pts[axis])[1], cc.pdf(pts)[1], 'permuted-parameters', rtol=1e-7)


def case_repeat(ctx):
    """An integer weight is the same as that many copies of the point; zero weight as its absence."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = setup(ctx, ['ints', 'uniform'])
    counts = rng.integers(0, 5, size=num)
    counts[:max(3, dim + 1)] = np.maximum(counts[:max(3, dim + 1)], 1)
    many = np.repeat(data, counts, axis=1)
    cov = ref.weighted_cov(data)
    bw = float(rng.uniform(0.2, 0.9))
    opts = dict(kernel=kernel, reflect=reflect, covariance=cov, bandwidth=bw)
    wt = kale.KDE(data, weights=counts if rng.random() < 0.5 else counts.astype(float), **opts)
    rp = kale.KDE(many, **opts)
    mat = cov * bw**2
    pts = good_points(ctx, data, mat, kernel, reflect)
    if not pts.shape[1]:
        raise Skip
    same(ctx, wt.density(pts)[1], rp.density(pts)[1], 'repeated-density')
    same(ctx, wt.pdf(pts)[1], rp.pdf(pts)[1], 'repeated-pdf')
    if dim > 1:
        par = rng.permutation(dim)[:int(rng.integers(1, dim))]
        sub = good_points(ctx, data[par], mat[np.ix_(par, par)], kernel, None if reflect is None else [reflect[pp] for pp in par])
        if sub.shape[1]:
            same(ctx, wt.pdf(sub, params=par)[1], rp.pdf(sub, params=par)[1], 'repeated-projection')
    keep = counts > 0
    few = kale.KDE(data[:, keep], weights=counts[keep], **opts)
    same(ctx, wt.density(pts)[1], few.density(pts)[1], 'dropped-density')
    # a point without weight is never drawn
    if reflect is None and kernel != 'gaussian':
        samp = np.atleast_2d(wt.resample(300))
        r2 = ref.mahalanobis2(samp, data[:, keep], mat)
        ctx.check(np.all(r2.min(axis=1) <= 1 + 1e-6), 'dropped-draws', far=r2.min(axis=1).max())
    # bias-corrected covariance of frequency-like weights stays the documented (reliability) one
    auto = kale.KDE(data, weights=counts)
    if gen.well_conditioned(data, counts):
        same(ctx, auto.covariance, ref.weighted_cov(data, counts), 'weighted-covariance', floor=1e-9 * (1 + np.abs(data).max()**2 / np.ptp(data)**2))


def case_unit(ctx):
    """Unit weights are the same as no weights."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = setup(ctx, ['none'])
    kw, mat, bkind = gen.smoothing(rng, dim, data, None)
    ones = gen.pick(rng, [np.ones(num), np.ones(num, dtype=int), [1] * num, [1.0] * num])
    aa = kale.KDE(data, kernel=kernel, reflect=reflect, **kw)
    bb = kale.KDE(data, weights=ones, kernel=kernel, reflect=reflect, **kw)
    pts = good_points(ctx, data, mat, kernel, reflect)
    if not pts.shape[1]:
        raise Skip
    same(ctx, bb.density(pts)[1], aa.density(pts)[1], 'unit-density')
    same(ctx, bb.pdf(pts)[1], aa.pdf(pts)[1], 'unit-pdf')
    same(ctx, bb.neff, aa.neff, 'unit-neff')
    const = float(rng.uniform(0.1, 9))
    cc = kale.KDE(data, weights=np.full(num, const), kernel=kernel, reflect=reflect, **kw)
    same(ctx, cc.pdf(pts)[1], aa.pdf(pts)[1], 'constant-pdf')
    if dim <= 2 and rng.random() < 0.4:
        arg = pts if dim > 1 else pts[0]
        same(ctx, bb.cdf(arg), aa.cdf(arg), 'unit-cdf', rtol=1e-6, floor=1e-7)


KINDS = {
    'rescale': (case_rescale, 160, 3000),
    'permute': (case_permute, 160, 3000),
    'repeat': (case_repeat, 160, 3000),
    'unit': (case_unit, 80, 1200),
}
