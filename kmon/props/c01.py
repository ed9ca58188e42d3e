"""C01: the density is the independent weighted sum of normalized kernels."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip

RULE = ("random datasets (12 styles, 1-4 dimensions, ties/offsets/scales), weights, kernels, bandwidth/covariance "
        "specifications and memory layouts; non-trivial = density compared pointwise with the textbook sum")
ASSUMPTIONS = ["covariances with condition number < 1e5 (beyond that, floating point limits both sides)",
               "points within 1e-5 of the edge of a finite kernel are not compared (discontinuity)"]
MIN_VERDICTS = {'density-sum': 200, 'pdf-sum': 50}


def draw(ctx, dims=(1, 1, 2, 2, 3, 4), nmin=5, nmax=90, kinds=None, dstyle=None):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(max(nmin, 3 * dim + 2), nmax))
    dstyle = dstyle or gen.pick(rng, gen.DATA_STYLES)
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    data = gen.dataset(rng, dim, num, dstyle)
    ww = gen.weights(rng, num, wstyle)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww, kinds)
    ctx.note(dim=dim, num=num, data=dstyle, weights=wstyle, kernel=kernel, bandwidth=bkind, first=float(data[0, 0]))
    ctx.state(kernel, dim, wstyle, bkind)
    return dim, num, data, ww, kernel, kw, mat


def case_density(ctx):
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat = draw(ctx)
    given, layout = gen.represent(rng, data if (dim > 1 or rng.random() < 0.3) else data[0])
    isint = np.array_equal(data, np.round(data)) and rng.random() < 0.5
    if isint:
        given, layout = data.astype(np.int64), 'int64'
    wgiven = ww if (ww is None or rng.random() < 0.7) else ww.tolist()
    ctx.state('layout', layout)
    kde = kale.KDE(given, weights=wgiven, kernel=kernel if rng.random() < 0.8 else kernel.upper(), **kw)
    pts = gen.probe_points(rng, data, mat, 60, reach=1.2 * (3 if kernel == 'gaussian' else 1))
    gpts, _ = gen.represent(rng, pts)
    want, good = ref.kde_density(pts, data, mat, kernel, ww, edge=1e-5)
    peak = want.max()
    # separation is limited by cancellation: (x - d)/sigma with x, d >> sigma
    scale = np.abs(data).max(axis=1) / np.sqrt(np.diag(mat))
    rtol = 1e-7 + 1e-13 * scale.max() * 100
    # even far tails of the gaussian are relative
    small = 1e-290 if kernel == 'gaussian' else 1e-11
    _, got = kde.density(gpts)
    ok = got is not None and np.shape(got) == want.shape
    if ctx.check(ok, 'density-shape', got=np.shape(got), want=want.shape):
        ctx.close(got[good], want[good], 'density-sum', rtol=rtol, atol=small * peak, dim=dim, kernel=kernel)
    tot = num if ww is None else ww.sum()
    if dim > 1 or np.ndim(given) > 1:
        _, got = kde.pdf(gpts)
    else:
        _, got = kde.pdf(pts[0])
    if ctx.check(np.shape(got) == want.shape, 'pdf-shape', got=np.shape(got), want=want.shape):
        ctx.close(got[good], want[good] / tot, 'pdf-sum', rtol=rtol, atol=small * peak / tot, dim=dim, kernel=kernel)


def case_kernel(ctx):
    """The kernel distributions themselves: normalized textbook profiles, in any number of dimensions."""
    rng = ctx.rng
    dim = int(rng.integers(1, 7))
    kernel = gen.pick(rng, ref.KERNELS)
    name = 'epanechnikov' if (kernel == 'parabola' and rng.random() < 0.5) else kernel
    dist = kale.kernels.get_distribution_class(name)
    pts = rng.normal(size=(dim, 200)) * rng.uniform(0.2, 1.2) / np.sqrt(dim)
    if kernel == 'gaussian':
        pts = pts * 3
    r2 = (pts**2).sum(axis=0)
    want = ref.kernel_value(kernel, r2, dim)
    got = dist.evaluate(pts)
    good = np.abs(r2 - 1) > 1e-9
    ctx.note(kernel=name, dim=dim, first=float(pts[0, 0]))
    ctx.state('dist', name, dim)
    ctx.close(np.asarray(got, dtype=float)[good], want[good], 'kernel-profile', rtol=1e-10, atol=1e-14, kernel=kernel, dim=dim)
    inside = dist.inside(pts)
    ctx.check(np.array_equal(np.asarray(inside)[good], (r2 <= 1 if kernel != 'gaussian' else r2 >= 0)[good]), 'kernel-inside', kernel=kernel)


def case_extreme(ctx):
    """Single dominant points, one data point, widely different scales, far tails."""
    rng = ctx.rng
    kernel = gen.pick(rng, ref.KERNELS)
    dim = gen.pick(rng, [1, 2, 3])
    what = gen.pick(rng, ['one', 'two', 'dominant', 'scales', 'farpoints', 'manypoints', 'float32'])
    ctx.note(what=what, kernel=kernel, dim=dim)
    ctx.state('extreme', what, kernel, dim)
    cov = gen.random_corr(rng, dim) if dim > 1 else np.array([[1.0]])
    bw = float(rng.uniform(0.2, 1.0))
    num = 30
    ww = None
    if what == 'one':
        num = 1
    elif what == 'two':
        num = 2
    data = rng.normal(size=(dim, num)) * 2
    if what == 'dominant':
        ww = np.full(num, 1e-9)
        ww[7] = 1e9
    if what == 'scales':
        sc = 10.0**rng.integers(-6, 7, size=dim)
        data = data * sc[:, None]
        cov = cov * np.outer(sc, sc)
    if what == 'float32':
        data = data.astype(np.float32)
    kde = kale.KDE(data, bandwidth=bw, covariance=cov, kernel=kernel, weights=ww, helper=False)
    mat = cov * bw**2
    pts = gen.probe_points(rng, np.asarray(data, dtype=float), mat, 3000 if what == 'manypoints' else 80, reach=2.0)
    if what == 'farpoints':
        pts = pts + np.sqrt(np.diag(mat))[:, None] * rng.uniform(-20, 20, size=(dim, 1))
    want, good = ref.kde_density(pts, data, mat, kernel, ww, edge=1e-5)
    _, got = kde.density(pts)
    if ctx.check(np.shape(got) == want.shape, 'density-shape', got=np.shape(got), want=want.shape):
        small = 1e-290 if kernel == 'gaussian' else 1e-11
        ctx.close(got[good], want[good], 'density-sum', rtol=1e-6, atol=max(small * want.max(), 1e-300), what=what, kernel=kernel)


def case_subclass(ctx):
    """A user-defined distribution class is used as the kernel."""
    import numba
    rng = ctx.rng
    base = kale.kernels.get_distribution_class('box')
    power = 2

    class Biweight(base):
        @staticmethod
        @numba.njit
        def _evaluate(y2):
            return np.maximum(1 - y2, 0.0)**2

        @staticmethod
        def norm(ndim):
            import scipy.special as sps
            return ndim * ref.ball_vol(ndim) * sps.beta(ndim / 2, power + 1) / 2

    import scipy.special as sps
    dim = gen.pick(rng, [1, 2])
    data = gen.dataset(rng, dim, 25, 'normal')
    kde = kale.KDE(data, bandwidth=0.6, kernel=Biweight)
    mat = ref.weighted_cov(data) * 0.36
    pts = gen.probe_points(rng, data, mat, 50)
    r2 = ref.mahalanobis2(pts, data, mat)
    want = np.where(r2 < 1, (1 - r2)**2, 0).sum(axis=1) / (dim * ref.ball_vol(dim) * sps.beta(dim / 2, 3) / 2)
    want = want / np.sqrt(np.linalg.det(mat))
    _, got = kde.density(pts)
    ctx.note(dim=dim, first=float(data[0, 0]))
    ctx.close(got, want, 'density-custom-kernel', rtol=1e-8, atol=1e-10 * want.max())


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'density': (case_density, 700, 12000),
    'kernel': (case_kernel, 80, 600),
    'extreme': (case_extreme, 160, 2500),
    'subclass': (case_subclass, 2, 8),
}
