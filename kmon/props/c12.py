"""C12: bandwidth specifications give the documented smoothing matrix."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random data with every spelling of bandwidth / neff / covariance / diagonal / bw_rescale; the reported bandwidth, covariance and "
        "matrix, the widths of the density, and the spread of draws are compared with the textbook rules")
ASSUMPTIONS = ["the squared smoothing matrix is the covariance of the data times the squared bandwidth, element by element (documented)"]
MIN_VERDICTS = {'matrix': 200, 'bandwidth-diagonal': 150, 'density-width': 80}


def case_spec(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 2, 3, 5])
    num = int(rng.integers(4 * dim + 1, 120))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    kernel = gen.pick(rng, ref.KERNELS)
    ctx.note(dim=dim, num=num, data=style, weights=wstyle, bandwidth=bkind, kernel=kernel, first=float(data[0, 0]))
    ctx.state(dim, wstyle, bkind, kernel)
    flat = dim == 1 and rng.random() < 0.5
    kde = kale.KDE(data[0] if flat else data, weights=ww, kernel=kernel, **kw)
    tiny = 1e-13 * (1 + (np.abs(data).max(axis=1) / np.ptp(data, axis=1)).max()**2)
    sd = np.sqrt(np.diag(mat))
    ctx.close(np.asarray(kde.kernel.matrix) / np.outer(sd, sd), mat / np.outer(sd, sd), 'matrix', rtol=1e-9 + tiny, atol=1e-9 + tiny)
    cov = kw.get('covariance', ref.weighted_cov(data, ww))
    sd = np.sqrt(np.diag(np.atleast_2d(cov)))
    ctx.close(np.asarray(kde.covariance) / np.outer(sd, sd), np.atleast_2d(cov) / np.outer(sd, sd), 'covariance', rtol=1e-9 + tiny, atol=1e-9 + tiny)
    ctx.check(np.shape(kde.bandwidth) == (dim, dim), 'bandwidth-shape', got=np.shape(kde.bandwidth))
    want = np.sqrt(np.diag(mat)) / sd
    ctx.close(np.diag(kde.bandwidth), want, 'bandwidth-diagonal', rtol=1e-9 + tiny)
    ne = kw.get('neff', ref.neff(num, ww))
    ctx.close(kde.neff, ne, 'neff', rtol=1e-10)
    ctx.check(kde.ndim == dim and kde.ndata == num, 'counts')
    # the width that a single kernel of this KDE shows, in each direction
    jj = int(rng.integers(dim))
    other = kale.KDE(data[:, :1], covariance=kde.covariance, bandwidth=np.asarray(kde.bandwidth), kernel=kernel, helper=False)
    lone = data[:, 0]
    off = np.zeros(dim)
    cond = 1 / np.sqrt(np.linalg.inv(mat)[jj, jj])
    off[jj] = rng.uniform(0.2, 0.9) * cond
    pts = np.array([lone, lone + off, lone - off]).T
    real = (pts[jj] - lone[jj]) / cond
    got = np.ravel(other.density(pts)[1])
    want = ref.kernel_value(kernel, real**2, dim) / ref.kernel_value(kernel, 0.0, dim)
    if tiny < 1e-7:
        ctx.close(got / got[0], want, 'density-width', rtol=1e-5, atol=1e-6, kernel=kernel)


def case_rules(ctx):
    """Plug-in rules: values, monotonicity in neff, dependence on dimension, rescaling in every shape."""
    rng = ctx.rng
    dim = int(rng.integers(1, 7))
    num = int(rng.integers(dim + 3, 400))
    data = rng.normal(size=(dim, num))
    rule = gen.pick(rng, ['scott', 'silverman'])
    ne = float(10**rng.uniform(0.5, 6))
    ctx.note(dim=dim, num=num, rule=rule, neff=ne)
    ctx.state('rule', rule, dim)
    bw = np.diag(kale.KDE(data, bandwidth=rule, neff=ne).bandwidth)
    ctx.close(bw, np.full(dim, getattr(ref, rule)(ne, dim)), 'rule-neff', rtol=1e-10)
    bw = np.diag(kale.KDE(data, bandwidth=rule).bandwidth)
    ctx.close(bw, np.full(dim, getattr(ref, rule)(num, dim)), 'rule', rtol=1e-10)
    ww = rng.uniform(0.01, 1, size=num)**2
    bw = np.diag(kale.KDE(data, bandwidth=rule, weights=ww).bandwidth)
    ctx.close(bw, np.full(dim, getattr(ref, rule)(ref.neff(num, ww), dim)), 'rule-weights', rtol=1e-10)
    # named rules in some dimensions, numbers in others
    if dim > 1:
        spec = [gen.pick(rng, ['scott', 'silverman', float(rng.uniform(0.1, 1))]) for _ in range(dim)]
        want = [getattr(ref, ss)(num, dim) if isinstance(ss, str) else ss for ss in spec]
        given = spec if rng.random() < 0.5 else tuple(spec)
        kde = kale.KDE(data, bandwidth=given)
        ctx.close(kde.bandwidth, np.diag(want), 'mixed', rtol=1e-10)
        fac = rng.uniform(0.3, 3, size=dim)
        kde = kale.KDE(data, bandwidth=given, bw_rescale=fac)
        ctx.close(np.diag(kde.bandwidth), np.array(want) * fac, 'rescale-vector', rtol=1e-10)
    fac = float(rng.uniform(0.2, 4))
    one = kale.KDE(data, bandwidth=0.4)
    two = kale.KDE(data, bandwidth=0.4, bw_rescale=fac)
    ctx.close(np.diag(two.bandwidth), np.diag(one.bandwidth) * fac, 'rescale', rtol=1e-10)
    three = kale.KDE(data, bandwidth=0.4 * fac)
    ctx.close(two.kernel.matrix, three.kernel.matrix, 'rescale-same', rtol=1e-10)
    # diagonal: no covariances
    dg = kale.KDE(data, bandwidth=0.4, diagonal=True)
    ctx.close(dg.kernel.matrix, np.diag(np.diag(ref.weighted_cov(data))) * 0.16, 'diagonal', rtol=1e-9, atol=1e-14)
    vec = kale.KDE(data, bandwidth=[0.4] * dim)
    if dim > 1:
        ctx.close(vec.kernel.matrix, dg.kernel.matrix, 'diagonal-vector', rtol=1e-9, atol=1e-14)
    # independence of the data order of magnitude: a factor of the standard deviation
    big = kale.KDE(data * 1e5, bandwidth=rule)
    ctx.close(np.diag(big.bandwidth), np.full(dim, getattr(ref, rule)(num, dim)), 'unitless', rtol=1e-10)


def case_spread(ctx):
    """Draws around a single datum have the covariance of the kernel."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    kernel = gen.pick(rng, ref.KERNELS)
    cov = gen.random_corr(rng, dim) * np.outer(*[10**rng.uniform(-2, 2, size=dim)] * 2)
    cov = 0.5 * (cov + cov.T)
    bw = float(rng.uniform(0.1, 2))
    data = rng.normal(size=(dim, 1)) * 3
    ctx.note(dim=dim, kernel=kernel, bw=bw, first=float(data[0, 0]))
    ctx.state('spread', kernel, dim)
    kde = kale.KDE(data, bandwidth=bw, covariance=cov, kernel=kernel, helper=False)
    num = 20000
    samp = np.atleast_2d(kde.resample(num))
    # variance of one whitened coordinate
    var = {'gaussian': 1.0, 'box': 1 / (dim + 2), 'parabola': 1 / (dim + 4), 'triweight': 1 / (dim + 8)}[kernel]
    white = np.linalg.solve(np.linalg.cholesky(cov * bw**2 * var), samp - data)
    emp = white @ white.T / num
    lim = 8 * np.sqrt(3.0 / num)
    ctx.check(np.all(np.abs(emp - np.eye(dim)) < lim), 'draw-covariance', emp=emp, lim=lim)
    ctx.check(np.all(np.abs(white.mean(axis=1)) < 8 / np.sqrt(num)), 'draw-center', mean=white.mean(axis=1))


KINDS = {
    'spec': (case_spec, 400, 8000),
    'rules': (case_rules, 150, 2500),
    'spread': (case_spread, 60, 600),
}
