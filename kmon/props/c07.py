"""C07: resampled points are draws from the kernel density."""
import numpy as np
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip

RULE = ("random KDEs resampled (thousands of draws each); projections on random directions tested against the exact mixture CDF, "
        "draws around well-separated data decomposed into (which datum, which kernel displacement) and each part tested exactly")
ASSUMPTIONS = ["statistical verdicts use p < 1e-10 (DKW bound / chi-squared): deviations smaller than ~2% in a CDF are not seen by one case"]
MIN_VERDICTS = {'projected-cdf': 60, 'which-datum': 40, 'kernel-radius': 40}


def random_kde(ctx, dims=(1, 2, 3), nmax=40):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(3 * dim + 2, nmax))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    ctx.note(dim=dim, num=num, data=style, weights=wstyle, kernel=kernel, bandwidth=bkind, first=float(data[0, 0]))
    ctx.state(kernel, dim, wstyle, bkind)
    return dim, num, data, ww, kernel, kw, mat


def case_mixture(ctx):
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat = random_kde(ctx)
    size = 40000 if ctx.thorough else 12000
    flat = dim == 1 and rng.random() < 0.6
    given = data[0] if flat else data
    if rng.random() < 0.3:
        samp = kale.resample(given, size=size, weights=ww, kernel=kernel, **kw)
    else:
        kde = kale.KDE(given, weights=ww, kernel=kernel, **kw)
        samp = kde.resample(size if rng.random() < 0.5 else float(size))
    want = (size,) if dim == 1 else (dim, size)
    if not ctx.check(np.shape(samp) == want, 'shape', got=np.shape(samp), want=want):
        return
    samp = np.atleast_2d(samp)
    ctx.check(np.all(np.isfinite(samp)), 'finite')
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    fcdf = stat.marginal_cdf(kernel, dim)
    dirs = [np.eye(dim)[jj] for jj in range(dim)]
    chol = np.linalg.cholesky(mat)
    for _ in range(2 if dim > 1 else 0):
        # random direction, in the frame where the kernel is isotropic
        vv = np.linalg.solve(chol.T, rng.normal(size=dim))
        dirs.append(vv)
    for vv in dirs:
        sig = np.sqrt(vv @ mat @ vv)
        proj, cent = vv @ samp, vv @ data
        sub = np.sort(proj)

        def cdf(tt):
            out = np.zeros(tt.size)
            for cc, pp in zip(cent, prob):
                if pp > 0:
                    out += pp * fcdf((tt - cc) / sig)
            return out
        stat.ks(ctx, sub, cdf, 'projected-cdf', kernel=kernel, dim=dim)
    stat.serial(ctx, samp[0], 'serial')


def case_decompose(ctx):
    """Data further apart than kernels reach: every draw tells which datum it came from."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2, 3, 4])
    num = int(rng.integers(4, 12))
    kernel = gen.pick(rng, ref.KERNELS)
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    cov = gen.random_corr(rng, dim)
    sd = 10**rng.uniform(-1, 1, size=dim)
    cov = cov * np.outer(sd, sd)
    chol = np.linalg.cholesky(cov)
    # whitened positions on a lattice with spacing of 20 kernel widths
    bw = float(rng.uniform(0.2, 1.0))
    cells = rng.permutation(7**dim)[:num]
    white = np.array(np.unravel_index(cells, (7,) * dim), dtype=float) * 20 * bw
    if dim == 1:
        num = min(num, 7)
        ww = None if ww is None else ww[:num]
        if ww is not None and ww.sum() == 0:
            raise Skip
    data = chol @ white[:, :num] + rng.normal(size=(dim, 1))
    ctx.note(dim=dim, num=num, weights=wstyle, kernel=kernel, bw=bw)
    ctx.state('decompose', kernel, dim, wstyle)
    kde = kale.KDE(data, weights=ww, kernel=kernel, bandwidth=bw, covariance=cov)
    size = 40000 if ctx.thorough else 12000
    samp = np.atleast_2d(kde.resample(size, squeeze=False))
    if not ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape):
        return
    disp = np.linalg.solve(chol, (samp[:, :, None] - data[:, None, :]).reshape(dim, -1)).reshape(dim, size, num) / bw
    r2 = (disp**2).sum(axis=0)
    which = np.argmin(r2, axis=1)
    rad2 = r2[np.arange(size), which]
    disp = disp[:, np.arange(size), which]
    lim = 1.0 + 1e-9 if kernel != 'gaussian' else 81.0
    ctx.check(rad2.max() <= lim, 'within-kernel', worst=rad2.max(), kernel=kernel, dim=dim)
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    stat.chi2_counts(ctx, np.bincount(which, minlength=num), prob * size, 'which-datum', weights=wstyle)
    stat.ks(ctx, rad2, stat.radius2_cdf(kernel, dim), 'kernel-radius', kernel=kernel, dim=dim)
    # isotropy of the whitened displacement, and of its dependence on the datum
    fcdf = stat.marginal_cdf(kernel, dim)
    for _ in range(2):
        vv = rng.normal(size=dim)
        vv /= np.linalg.norm(vv)
        stat.ks(ctx, vv @ disp, fcdf, 'kernel-isotropy', kernel=kernel, dim=dim)
    if dim > 1:
        ang = np.arctan2(disp[1], disp[0])
        stat.ks(ctx, ang, lambda tt: (tt + np.pi) / (2 * np.pi), 'kernel-angle', kernel=kernel, dim=dim)
    big = int(np.argmax(prob))
    if (which == big).sum() > 2000:
        stat.ks(ctx, rad2[which == big], stat.radius2_cdf(kernel, dim), 'kernel-radius-per-datum', kernel=kernel, dim=dim)
    stat.serial(ctx, rad2, 'serial')
    stat.serial(ctx, which + 1e-9 * rng.random(size), 'serial')


def case_shapes(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    num = int(rng.integers(4 * dim, 50))
    data = gen.dataset(rng, dim, num, 'normal')
    kernel = gen.pick(rng, ref.KERNELS)
    ww = gen.weights(rng, num)
    reflect = None
    if rng.random() < 0.4:
        reflect = [[dd.min() - 0.1, None] for dd in data]
    kde = kale.KDE(data, kernel=kernel, weights=ww, reflect=reflect, bandwidth=0.4)
    size = int(rng.integers(1, 30))
    ctx.note(dim=dim, num=num, size=size, kernel=kernel, reflect=reflect is not None)
    ctx.state('shapes', dim, kernel, reflect is not None)
    tail = lambda nn, squeeze: (nn,) if (dim == 1 and squeeze) else (dim, nn)    # noqa
    for nn in (size, 1):
        ctx.check(np.shape(kde.resample(nn)) == tail(nn, True), 'shape', size=nn)
        ctx.check(np.shape(kde.resample(nn, squeeze=False)) == tail(nn, False), 'shape', size=nn)
    ctx.check(np.shape(kde.resample()) == tail(num, True), 'shape-default')
    ctx.check(np.shape(kale.resample(data, kernel=kernel, weights=ww, reflect=reflect)) == tail(num, True), 'shape-default')
    # separate calls are separate draws
    aa, bb = kde.resample(size), kde.resample(size)
    ctx.check(not np.array_equal(aa, bb), 'fresh-draws')
    # zero weight means never
    if ww is not None and np.any(ww == 0):
        kde = kale.KDE(data, kernel=kernel, weights=ww, bandwidth=0.4)
        samp = np.atleast_2d(kde.resample(3000, keep=True))
        dead = data[:, ww == 0]
        hit = (samp[:, :, None] == dead[:, None, :]).all(axis=0)
        ctx.check(not hit.any(), 'zero-weight-never')


def case_small(ctx):
    """Many calls for few points each: the draws within a call, and those of different calls, are independent."""
    rng = ctx.rng
    num = int(rng.integers(5, 40))
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    kernel = gen.pick(rng, ref.KERNELS)
    size = gen.pick(rng, [None, 1, 2, num // 2, num - 1, num, num + 1, 3 * num])
    dim = gen.pick(rng, [1, 2, 3])
    mode = gen.pick(rng, ['clear', 'clear', 'reflect', 'keep'])
    if dim == 1 and mode == 'keep':
        mode = 'reflect'
    data = np.vstack([10.0 * rng.permutation(num) for _ in range(dim)])
    cov = np.diag(rng.uniform(0.2, 1.0, size=dim))
    kde = kale.KDE(data[0] if dim == 1 else data, weights=ww, kernel=kernel, bandwidth=0.3, covariance=cov)
    kw = {}
    if mode == 'reflect':
        kw['reflect'] = [[-0.1, 10.0 * num]] + [None] * (dim - 1)
        kw['reflect'] = kw['reflect'][0] if dim == 1 else kw['reflect']
    elif mode == 'keep':
        kw['keep'] = int(rng.integers(dim))
    got = num if size is None else size
    reps = int(min(400, 20 + 12000 // max(got, 1)))
    ctx.note(dim=dim, num=num, weights=wstyle, kernel=kernel, size=size, mode=mode)
    ctx.state('small', kernel, dim, wstyle, mode, size is None, got <= num)
    draws = []
    for _ in range(reps):
        samp = np.atleast_2d(kde.resample(size, **kw))
        if not ctx.check(samp.shape == (dim, got), 'shape', got=samp.shape, want=(dim, got)):
            return
        draws.append(samp)
    draws = np.array(draws)
    dist = np.abs(draws[:, :, :, None] - data[None, :, None, :]).max(axis=1)
    which = np.argmin(dist, axis=-1)
    ctx.check(np.take_along_axis(dist, which[..., None], -1).max() < 4.0, 'near-datum')
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    stat.chi2_counts(ctx, np.bincount(which.ravel(), minlength=num), prob * which.size, 'which-datum', weights=wstyle)
    if got > 1:
        stat.collisions(ctx, which, prob, 'independent-draws', size=size, mode=mode)
    # the same position in different calls
    stat.collisions(ctx, which.T[:50], prob, 'independent-calls', size=size, mode=mode)
    disp = (draws - np.moveaxis(data[:, which], 0, 1)).reshape(reps, dim, -1)
    free = [dd for dd in range(dim) if dd != kw.get('keep', -1)]
    for dd in free:
        ctx.check(np.unique(disp[:, dd]).size > 0.5 * disp[:, dd].size, 'fresh-displacements')


def case_precise(ctx):
    """A million draws of one kernel: its shape to a few parts in a thousand."""
    rng = ctx.rng
    kernel = ref.KERNELS[ctx.index % 4]
    dim = [1, 2, 3, 1, 4][(ctx.index // 4) % 5]
    size = 1000000 if dim == 1 else 600000
    how = gen.pick(rng, ['distribution', 'kde'])
    ctx.note(kernel=kernel, dim=dim, how=how)
    ctx.state('precise', kernel, dim, how)
    if how == 'distribution':
        dist = kale.kernels.get_distribution_class(kernel)
        samp = np.atleast_2d(dist.sample(size, ndim=dim))
    else:
        data = np.full((dim, 3), 5.0) * rng.normal(size=(dim, 1))
        kde = kale.KDE(data, kernel=kernel, bandwidth=1.0, covariance=np.eye(dim))
        samp = kde.resample(size, squeeze=False) - data[:, :1]
    if not ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape):
        return
    fcdf = stat.marginal_cdf(kernel, dim)
    for dd in range(dim):
        stat.ks(ctx, samp[dd], fcdf, 'kernel-marginal', kernel=kernel, dim=dim)
    stat.ks(ctx, (samp**2).sum(axis=0), stat.radius2_cdf(kernel, dim), 'kernel-radius', kernel=kernel, dim=dim)
    # equal-probability cells see what a maximum distance does not
    for nbin in (20, 400):
        uu = np.clip(fcdf(samp[0]), 0, 1 - 1e-12)
        stat.chi2_counts(ctx, np.bincount((uu * nbin).astype(int), minlength=nbin), np.full(nbin, size / nbin), 'kernel-marginal-cells',
                         kernel=kernel, dim=dim)
    stat.serial(ctx, samp[0], 'serial')


KINDS = {
    'precise': (case_precise, 40, 200),
    'small': (case_small, 60, 1500),
    'mixture': (case_mixture, 160, 1600),
    'decompose': (case_decompose, 130, 1500),
    'shapes': (case_shapes, 60, 600),
}
