"""C08: resampling with boundaries stays inside of them and follows the reflected density."""
import numpy as np
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip
from . import c03

RULE = ("random KDEs with reflecting boundaries (at construction, per call, overridden, automatic) resampled; every draw is "
        "checked against the boundaries, marginals against the exact folded mixture, and 2D cells against the integrated density")
ASSUMPTIONS = ["distribution checks need kernels that reach less than the width of the domain (else single reflections are an approximation)",
               "statistical verdicts use p < 1e-10"]
MIN_VERDICTS = {'inside': 100, 'folded-cdf': 80}


def folded_cdf(cent, prob, sig, fcdf, lo, hi):
    lo_ = -np.inf if lo is None else lo
    hi_ = np.inf if hi is None else hi

    def cdf(tt):
        tt = np.clip(np.asarray(tt, dtype=float), lo_, hi_)
        out = np.zeros(tt.size)
        for cc, pp in zip(cent, prob):
            if pp == 0:
                continue
            base = fcdf((tt - cc) / sig)
            if lo is not None:
                # mass below lo is folded above: points x with 2 lo - t < x < lo
                base = base - fcdf((2 * lo - tt - cc) / sig)
            if hi is not None:
                base = base + (1 - fcdf((2 * hi - tt - cc) / sig))
                # mass above hi folded to (2hi - x) > t is still to come at t < hi
            out += pp * base
        return out
    return cdf


def setup(ctx, dims=(1, 1, 2, 3), frac=(0.0, 0.0, 0.03, 0.2)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(5 * dim, 40))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'lattice', 'offset', 'huge', 'tiny', 'ints'])
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    reflect = c03.bounds_for(rng, data, frac=frac)
    reach = ref.kernel_radius(kernel, 6.5) * np.sqrt(np.diag(mat))
    shrink = 1.0
    for dd, rr in enumerate(reflect):
        if rr is not None and None not in rr:
            shrink = min(shrink, 0.9 * (rr[1] - rr[0]) / reach[dd])
    exact = True
    if shrink < 1:
        if rng.random() < 0.75:
            kw, mat = dict(bandwidth=np.sqrt(mat[0, 0] / ref.weighted_cov(data, ww)[0, 0])), None
            cov = ref.weighted_cov(data, ww)
            need = min(0.9 * (rr[1] - rr[0]) / (ref.kernel_radius(kernel, 6.5) * np.sqrt(cov[dd, dd]))
                       for dd, rr in enumerate(reflect) if rr is not None and None not in rr)
            kw = dict(bandwidth=float(need * rng.uniform(0.3, 1.0)))
            mat = cov * kw['bandwidth']**2
        else:
            exact = False
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, weighted=ww is not None, reflect=reflect, exact=exact)
    pat = '/'.join('-' if rr is None else ''.join('n' if x is None else 'b' for x in rr) for rr in reflect)
    ctx.state(kernel, dim, pat, 'w' if ww is not None else '', exact)
    return dim, num, data, ww, kernel, kw, mat, reflect, exact


def draw(ctx, data, ww, kernel, kw, reflect, size):
    rng = ctx.rng
    dim = data.shape[0]
    given = c03.spell(rng, reflect, dim)
    where = gen.pick(rng, ['init', 'call', 'override', 'wrapper'])
    ctx.state('where', where)
    if where == 'init':
        samp = kale.KDE(data, weights=ww, kernel=kernel, reflect=given, **kw).resample(size)
    elif where == 'call':
        samp = kale.KDE(data, weights=ww, kernel=kernel, **kw).resample(size, reflect=given)
    elif where == 'override':
        kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=[[dd.min() - 1, dd.max() + 1] for dd in data], **kw)
        samp = kde.resample(size, reflect=given)
    else:
        samp = kale.resample(data, size=size, weights=ww, kernel=kernel, reflect=given, **kw)
    samp = np.atleast_2d(samp)
    ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape)
    return samp


def check_inside(ctx, samp, reflect):
    for dd, rr in enumerate(reflect):
        if rr is None:
            continue
        lo = -np.inf if rr[0] is None else rr[0]
        hi = np.inf if rr[1] is None else rr[1]
        bad = (samp[dd] < lo) | (samp[dd] > hi)
        ctx.count('draws_checked', samp.shape[1])
        ctx.check(not bad.any(), 'inside', nbad=bad.sum(), dim=dd, bounds=rr)
    ctx.check(np.all(np.isfinite(samp)), 'finite')


def case_marginals(ctx):
    dim, num, data, ww, kernel, kw, mat, reflect, exact = setup(ctx)
    size = 40000 if ctx.thorough else 12000
    samp = draw(ctx, data, ww, kernel, kw, reflect, size)
    check_inside(ctx, samp, reflect)
    if not exact:
        return
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    fcdf = stat.marginal_cdf(kernel, dim)
    for dd in range(dim):
        lo, hi = (None, None) if reflect[dd] is None else reflect[dd]
        cdf = folded_cdf(data[dd], prob, np.sqrt(mat[dd, dd]), fcdf, lo, hi)
        stat.ks(ctx, samp[dd], cdf, 'folded-cdf', kernel=kernel, dim=dim, bounds=reflect[dd])
    stat.serial(ctx, samp[0], 'serial')


def case_cells(ctx):
    """Joint distribution in two dimensions: counts in cells against the integrated reflected density."""
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat, reflect, exact = setup(ctx, dims=(2,))
    if not exact:
        raise Skip
    size = 40000 if ctx.thorough else 15000
    samp = draw(ctx, data, ww, kernel, kw, reflect, size)
    check_inside(ctx, samp, reflect)
    reach = ref.kernel_radius(kernel, 6.0) * np.sqrt(np.diag(mat)) * 1.01
    edges, cells = [], []
    for dd in range(2):
        lo, hi = data[dd].min() - reach[dd], data[dd].max() + reach[dd]
        if reflect[dd] is not None:
            lo = lo if reflect[dd][0] is None else reflect[dd][0]
            hi = hi if reflect[dd][1] is None else reflect[dd][1]
        edges.append(np.linspace(lo, hi, 241))
    mids = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*mids, indexing='ij')])
    pdf, _ = ref.kde_density(mesh, data, mat, kernel, ww, reflect=reflect)
    # cells of 40 x 40 fine pixels each -> 6 x 6
    cell = pdf.reshape(6, 40, 6, 40).sum(axis=(1, 3))
    sig = np.sqrt(1 / np.diag(np.linalg.inv(mat)))
    step = np.array([ee[1] - ee[0] for ee in edges])
    if np.any(step > sig * (0.7 if kernel == 'gaussian' else 0.12)):
        raise Skip
    if kernel == 'box':
        raise Skip      # pixel integration of a discontinuous density is not exact enough
    hist, _, _ = np.histogram2d(*samp, bins=[ee[::40] for ee in edges])
    outside = size - hist.sum()
    ctx.check(outside <= 3, 'cells-cover', outside=outside)
    small = cell < 1e-6 * cell.sum()
    exp = np.where(small, 0, cell / cell.sum()) * size
    ctx.check(hist[small].sum() < 12, 'cells-empty', num=hist[small].sum())
    stat.chi2_counts(ctx, np.where(small, 0, hist), exp, 'cells', kernel=kernel, reflect=reflect)


def case_auto(ctx):
    """Automatic boundaries; disabled boundaries; a very tight domain; many draws in several chunks."""
    rng = ctx.rng
    what = gen.pick(rng, ['auto', 'off', 'tight', 'chunks', 'integers'])
    dim = gen.pick(rng, [1, 2])
    data = gen.dataset(rng, dim, 40, 'normal') * gen.pick(rng, [1, -1]) + rng.uniform(-5, 5)
    kernel = gen.pick(rng, ref.KERNELS)
    ctx.note(what=what, dim=dim, kernel=kernel, first=float(data[0, 0]))
    ctx.state(what, dim, kernel)
    lo, hi = data.min(axis=1), data.max(axis=1)
    pad = 1e-3 * np.maximum(np.abs(data).max(axis=1), 1)
    if what == 'auto':
        kde = kale.KDE(data, kernel=kernel, reflect=True)
        samp = np.atleast_2d(kde.resample(4000))
        check_inside(ctx, samp, [[ll - pp, hh + pp] for ll, hh, pp in zip(lo, hi, pad)])
        samp = np.atleast_2d(kale.KDE(data, kernel=kernel).resample(4000, reflect=True))
        check_inside(ctx, samp, [[ll - pp, hh + pp] for ll, hh, pp in zip(lo, hi, pad)])
    elif what == 'off':
        kde = kale.KDE(data, kernel=kernel, reflect=[[ll, hh] for ll, hh in zip(lo, hi)], bandwidth=0.8)
        samp = np.atleast_2d(kde.resample(6000, reflect=False))
        out = (samp < lo[:, None]).any() and (samp > hi[:, None]).any()
        ctx.check(out, 'boundaries-disabled')
        again = np.atleast_2d(kde.resample(6000))
        check_inside(ctx, again, [[ll, hh] for ll, hh in zip(lo, hi)])
    elif what == 'tight':
        kde = kale.KDE(data, kernel=kernel, reflect=[[ll, hh] for ll, hh in zip(lo, hi)], bandwidth=float(rng.uniform(1.0, 2.0)))
        for size in (1, 2, 17, 3000):
            samp = np.atleast_2d(kde.resample(size, squeeze=False))
            ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape)
            check_inside(ctx, samp, [[ll, hh] for ll, hh in zip(lo, hi)])
    elif what == 'chunks':
        size = 230000
        kde = kale.KDE(data, kernel=kernel, reflect=[[ll, None] for ll in lo], bandwidth=0.5)
        samp = np.atleast_2d(kde.resample(size))
        ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape)
        check_inside(ctx, samp, [[ll, None] for ll in lo])
        cdf = folded_cdf(data[0], np.full(40, 1 / 40), 0.5 * np.std(data[0], ddof=1), stat.marginal_cdf(kernel, dim), lo[0], None)
        stat.ks(ctx, samp[0], cdf, 'folded-cdf')
        half = size // 2
        stat.ks(ctx, samp[0][:half], cdf, 'folded-cdf')
        stat.ks(ctx, samp[0][-20000:], cdf, 'folded-cdf')
        ctx.check(np.unique(samp[0]).size > 0.99 * size, 'fresh-draws')
    else:
        data = np.round(data * 3).astype(int)
        lo = data.min(axis=1)
        samp = np.atleast_2d(kale.KDE(data, kernel=kernel, reflect=[[int(ll), None] for ll in lo]).resample(3000))
        check_inside(ctx, samp, [[ll, None] for ll in lo])
        ctx.check(np.unique(samp[0]).size > 2000, 'continuous')


def case_chunked(ctx):
    """Drawn in chunks: number of chunks, partial last chunk and repeated trials do not show in the draws."""
    dim, num, data, ww, kernel, kw, mat, reflect, exact = setup(ctx)
    rng = ctx.rng
    if not exact:
        raise Skip
    chunk = int(gen.pick(rng, [7, 50, 100, 333, 1000]))
    size = int(chunk * rng.uniform(0.5, 60))
    size = gen.pick(rng, [size, size, chunk, chunk + 1, 2 * chunk, 40 * chunk - 1, chunk - 1])
    given = c03.spell(rng, reflect, dim)
    ctx.note(chunk=chunk, size=size)
    ctx.state('chunked', chunk, int(np.log2(size / chunk + 1)))
    kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=given, chunk=chunk, **kw)
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    fcdf = stat.marginal_cdf(kernel, dim)
    rows = []
    for _ in range(int(max(1, min(20, 6000 // size)))):
        samp = np.atleast_2d(kde.resample(size, squeeze=False))
        if not ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape, want=(dim, size)):
            return
        check_inside(ctx, samp, reflect)
        ctx.check(np.unique(samp[0]).size > 0.98 * size, 'fresh-draws')
        rows.append(samp)
    last = np.concatenate([rr[:, -max(1, chunk // 2):] for rr in rows], axis=1)
    rows = np.concatenate(rows, axis=1)
    for dd in range(dim):
        lo, hi = (None, None) if reflect[dd] is None else reflect[dd]
        cdf = folded_cdf(data[dd], prob, np.sqrt(mat[dd, dd]), fcdf, lo, hi)
        stat.ks(ctx, rows[dd], cdf, 'folded-cdf', chunk=chunk, size=size)
        stat.ks(ctx, last[dd], cdf, 'folded-cdf', chunk=chunk, size=size)
    stat.serial(ctx, rows[0], 'serial')


KINDS = {
    'marginals': (case_marginals, 170, 2000),
    'cells': (case_cells, 70, 900),
    'chunked': (case_chunked, 60, 1200),
    'auto': (case_auto, 40, 400),
}
