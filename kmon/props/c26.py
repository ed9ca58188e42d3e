"""C26: a KDE from a histogram is the KDE of the bin centres with the counts."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random histograms (1-3 dimensions, even / uneven / offset bins, counts of data or arbitrary, empty bins, ints / floats / lists) turned into KDEs; data, weights, bandwidth, density and draws "
        "compared with an independent kernel sum over the bin centres and with the KDE constructed explicitly from them")
ASSUMPTIONS = ["the default bandwidth (a factor multiplying the standard deviations, as for any KDE) is the mean bin width of each dimension, as documented"]
MIN_VERDICTS = {'density': 60, 'explicit-density': 60, 'explicit-draws': 60, 'scaled-counts': 60, 'empty-bins': 30, 'total': 30}


def histogram(rng):
    dim = gen.pick(rng, [1, 1, 1, 2, 2, 3])
    edges = []
    for _ in range(dim):
        num = int(rng.integers(3, {1: 40, 2: 11, 3: 6}[dim]))
        how = gen.pick(rng, ['even', 'even', 'uneven', 'ints', 'offset', 'fine'])
        if how == 'even':
            ee = np.linspace(rng.uniform(-3, 0), rng.uniform(0.5, 4), num + 1)
        elif how == 'uneven':
            ee = np.cumsum(rng.uniform(0.1, 1, size=num + 1)) + rng.normal()
        elif how == 'ints':
            ee = np.arange(num + 1) + int(rng.integers(-5, 5))
        elif how == 'fine':
            ee = np.linspace(0, 1, num + 1) * rng.uniform(0.05, 1)
        else:
            ee = np.linspace(0, 1, num + 1) * rng.uniform(0.5, 3) + rng.uniform(-30, 30)
        edges.append(ee)
    shape = tuple(ee.size - 1 for ee in edges)
    style = gen.pick(rng, ['counts', 'uniform', 'peak', 'zeros', 'ints', 'scaled'])
    if style == 'counts':
        mid = [0.5 * (ee[0] + ee[-1]) for ee in edges]
        wid = [0.25 * (ee[-1] - ee[0]) for ee in edges]
        draws = np.array([rng.normal(mm, ww, 400) for mm, ww in zip(mid, wid)])
        hist = np.histogramdd(draws.T, bins=edges)[0]
    elif style == 'uniform':
        hist = rng.uniform(0.1, 2, size=shape)
    elif style == 'peak':
        mesh = np.meshgrid(*[np.linspace(-2, 2, ss) for ss in shape], indexing='ij')
        hist = np.exp(-sum(mm**2 for mm in mesh))
    elif style == 'zeros':
        hist = rng.uniform(0.1, 2, size=shape) * (rng.random(shape) < 0.5)
    elif style == 'ints':
        hist = rng.integers(0, 30, size=shape)
    else:
        hist = rng.uniform(0.1, 2, size=shape) * 10.0**rng.uniform(-12, 12)
    return dim, edges, hist, style


def case_hist(ctx):
    rng = ctx.rng
    dim, edges, hist, style = histogram(rng)
    counts = np.asarray(hist, dtype=float).ravel()
    centres = np.array([mm.ravel() for mm in np.meshgrid(*[0.5 * (ee[1:] + ee[:-1]) for ee in edges], indexing='ij')])
    if np.count_nonzero(counts) < dim + 2 or not gen.well_conditioned(centres, counts):
        raise Skip
    wid = np.array([np.mean(np.diff(ee)) for ee in edges])
    kernel = gen.pick(rng, ref.KERNELS)
    cov = ref.weighted_cov(centres, counts)
    ne = ref.neff(counts.size, counts)
    how = gen.pick(rng, ['default', 'default', 'named', 'scalar', 'vector', 'scott', 'silverman'])
    kw = {}
    if how in ('default', 'named'):
        if how == 'named':
            kw['bandwidth'] = 'bin width'
        bw = wid
        mat = np.diag(np.diag(cov) * wid**2) if dim > 1 else cov * wid**2
    elif how == 'scalar':
        bw = float(rng.uniform(0.1, 1))
        kw['bandwidth'] = bw
        mat = cov * bw**2
    elif how == 'vector':
        bw = rng.uniform(0.1, 1, size=dim)
        kw['bandwidth'] = bw.tolist()
        mat = np.diag(np.diag(cov) * bw**2)
    else:
        bw = getattr(ref, how)(ne, dim)
        kw['bandwidth'] = how
        mat = cov * bw**2
    if np.linalg.cond(mat / np.sqrt(np.outer(np.diag(mat), np.diag(mat)))) > 1e6:
        raise Skip
    reflect = None
    if rng.random() < 0.3:
        reflect = c03.bounds_for(rng, np.array([[ee[0], ee[-1]] for ee in edges]))
    positional = 'bandwidth' in kw and rng.random() < 0.3
    flat1 = dim == 1 and rng.random() < 0.6
    bins = edges[0] if flat1 else edges
    spell = gen.pick(rng, ['array', 'list', 'tuple'])
    if spell == 'list':
        bins = bins.tolist() if flat1 else [ee.tolist() for ee in edges]
    elif spell == 'tuple' and not flat1:
        bins = tuple(edges)
    harg, lay = gen.represent(rng, hist)
    ctx.note(dim=dim, shape=np.shape(hist), counts=style, bandwidth=how, kernel=kernel, reflect=reflect, layout=lay, spelling=spell, first=float(edges[0][0]))
    ctx.state(dim, style, how, kernel, 'reflect' if reflect is not None else '')

    def make(hh):
        if positional:
            return kale.KDE.from_hist(bins, hh, kw['bandwidth'], kernel, reflect=reflect)
        return kale.KDE.from_hist(bins, hh, kernel=kernel, reflect=reflect, **kw)

    kde = make(harg)
    ctx.check(isinstance(kde, kale.KDE) and kde.ndim == dim and kde.ndata == counts.size, 'shape', ndim=kde.ndim, ndata=kde.ndata)
    scale = np.max(np.abs(centres), axis=1, keepdims=True)
    ctx.close(np.asarray(kde.dataset) / scale, centres / scale, 'bin-centres', rtol=1e-12, atol=1e-13)
    ww = np.asarray(kde.weights, dtype=float)
    ctx.close(ww / ww.sum(), counts / counts.sum(), 'relative-counts', rtol=1e-10)
    # the counts are normalized into a probability density of the bins
    vol = np.prod(wid)
    ctx.close(ww.sum() * vol, 1.0, 'total', rtol=1e-9)
    want_bw = np.atleast_1d(bw)
    ctx.close(np.diag(kde.bandwidth), np.broadcast_to(want_bw, (dim,)), 'bandwidth', rtol=1e-10)
    sd = np.sqrt(np.diag(mat))
    ctx.close(kde.kernel.matrix / np.outer(sd, sd), mat / np.outer(sd, sd), 'smoothing', rtol=1e-8, atol=1e-10)
    # density
    pts = gen.probe_points(rng, centres, mat, 40)
    norm = counts / (counts.sum() * vol)
    # (lattices put many points exactly at the edge of a box: excluded there)
    want, good = ref.kde_density(pts, centres, mat, kernel, norm, reflect=reflect, edge=1e-6)
    if not good.any():
        raise Skip
    got = np.asarray(kde.density(pts)[1])
    ctx.close(got[good], want[good], 'density', rtol=1e-7, atol=1e-12 * want.max())
    pdf = np.asarray(kde.pdf(pts)[1])
    ctx.close(pdf[good], want[good] * vol, 'density', rtol=1e-7, atol=1e-12 * want.max() * vol)
    # explicit construction
    exp_bw = kw.get('bandwidth')
    exp_bw = (wid if dim > 1 else wid[0]) if exp_bw in (None, 'bin width') else exp_bw
    other = kale.KDE(centres, bandwidth=exp_bw, weights=counts, kernel=kernel, reflect=reflect)
    ctx.close(pdf[good], np.asarray(other.pdf(pts)[1])[good], 'explicit-density', rtol=1e-7, atol=1e-12 * float(np.max(pdf)))
    seed = int(rng.integers(2**31))
    size = int(rng.integers(5, 300))
    draws = []
    for kk in (kde, other):
        np.random.seed(seed)
        draws.append(np.atleast_2d(kk.resample(size)))
    sds = np.sqrt(np.diag(cov))[:, None]
    same = draws[0].shape == draws[1].shape and np.isclose((draws[0] - centres.mean(axis=1)[:, None]) / sds, (draws[1] - centres.mean(axis=1)[:, None]) / sds, rtol=1e-6, atol=1e-6)
    # (a rounding error may move the choice of a datum)
    ctx.check(np.shape(same) != () and np.mean(np.all(same, axis=0)) >= 1 - 2.0 / size - 0.01, 'explicit-draws', shapes=[dd.shape for dd in draws])
    # the scale of the counts is irrelevant
    fac = 10.0**rng.uniform(-3, 3)
    scaled = make(np.asarray(hist) * fac).density(pts)[1]
    ctx.close(np.asarray(scaled)[good], got[good], 'scaled-counts', rtol=1e-7, atol=1e-12 * want.max())
    # empty bins contribute nothing: the same KDE without them, at the same smoothing
    if np.any(counts == 0):
        keep = counts > 0
        dens, gd = ref.kde_density(pts, centres[:, keep], mat, kernel, norm[keep], reflect=reflect, edge=1e-6)
        ctx.close(got[gd], dens[gd], 'empty-bins', rtol=1e-7, atol=1e-12 * want.max())
        if reflect is None and kernel != 'gaussian':
            # no draw comes from an empty bin: each lies within reach of a filled one
            white = np.linalg.inv(np.linalg.cholesky(mat))
            dist = np.array([np.min(np.linalg.norm(white @ (centres[:, keep] - xx[:, None]), axis=0)) for xx in draws[0].T])
            ctx.check(np.all(dist <= 1 + 1e-9), 'empty-bins', farthest=float(dist.max()))


KINDS = {
    'hist': (case_hist, 300, 220000),
}
