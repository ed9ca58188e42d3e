"""C06: the cumulative distribution is monotone from 0 to 1 and the integral of the density."""
import numpy as np
import scipy.interpolate
import scipy.stats
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random KDEs, the CDF evaluated below, within, at and above the data; compared with exact gaussian CDFs, numerical "
        "integration of the density in one and two dimensions; non-trivial = monotonicity and limits checked")
ASSUMPTIONS = ["the CDF is a grid interpolation: compared within the stated tolerances on data of >= 30 points",
               "multi-dimensional CDFs are compared in two dimensions"]
MIN_VERDICTS = {'range': 60, 'monotone': 60, 'limits': 60, 'integral-of-density': 40}


def make(ctx, dims=(1, 1, 1, 2)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(30, 120))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'offset', 'tiny', 'huge', 'ints', 'lattice'])
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww, 1e4):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    reflect = c03.bounds_for(rng, data, frac=(0.0, 0.1)) if rng.random() < 0.4 else None
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, weighted=ww is not None, reflect=reflect)
    ctx.state(kernel, dim, style, ww is not None, reflect is not None)
    flat = dim == 1 and rng.random() < 0.6
    kde = kale.KDE(data[0] if flat else data, weights=ww, kernel=kernel, reflect=reflect)
    mat = ref.weighted_cov(data, ww) * ref.scott(ref.neff(num, ww), dim)**2
    return dim, num, data, ww, kernel, reflect, kde, mat, flat


def ask(kde, pts, dim, flat):
    return np.ravel(kde.cdf(pts[0] if dim == 1 else pts))


TIGHT = 0.002     # of the CDF, plus what the grid cannot resolve


def case_shape(ctx):
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect, kde, mat, flat = make(ctx)
    span = np.ptp(data, axis=1)
    # random broken lines, monotone in every dimension
    start = data.min(axis=1) - span * rng.uniform(0, 3, size=dim)
    steps = np.sort(rng.uniform(0, 1, size=(dim, 300)), axis=1) * (span * rng.uniform(1, 7, size=dim))[:, None]
    path = start[:, None] + steps
    vals = ask(kde, path, dim, flat)
    ctx.check(vals.shape == (300,), 'shape', got=vals.shape)
    ctx.check(np.all((vals >= -1e-12) & (vals <= 1 + 1e-12)), 'range', lo=vals.min(), hi=vals.max())
    ctx.check(np.all(np.diff(vals) >= -1e-12), 'monotone', worst=float(np.diff(vals).min()))
    # one dimension at a time
    for dd in range(dim):
        line = np.repeat(data[:, rng.integers(num)][:, None], 100, axis=1)
        line[dd] = np.linspace(data[dd].min() - span[dd], data[dd].max() + span[dd], 100)
        vals = ask(kde, line, dim, flat)
        ctx.check(np.all(np.diff(vals) >= -1e-12), 'monotone', worst=float(np.diff(vals).min()), dim=dd)
    # limits
    far = 50 * span + 100 * np.sqrt(np.diag(mat))
    for fac in (1.0, 1e6):
        lo = ask(kde, (data.min(axis=1) - far * fac)[:, None], dim, flat)
        hi = ask(kde, (data.max(axis=1) + far * fac)[:, None], dim, flat)
        ctx.check(abs(lo[0]) < 1e-9 and abs(hi[0] - 1) < 1e-9, 'limits', lo=lo, hi=hi)
    if dim == 2:
        # beyond one side only, nothing has accumulated
        mix = np.array([[data[0].max() + far[0]], [data[1].min() - far[1]]])
        ctx.check(abs(ask(kde, mix, dim, flat)[0]) < 1e-9, 'limits')
    if reflect is not None and dim == 1:
        if reflect[0] is not None and reflect[0][0] is not None:
            ctx.check(abs(ask(kde, np.array([[reflect[0][0]]]), 1, flat)[0]) < 1e-9, 'limits-reflected')
        if reflect[0] is not None and reflect[0][1] is not None:
            ctx.check(abs(ask(kde, np.array([[reflect[0][1]]]), 1, flat)[0] - 1) < 1e-9, 'limits-reflected')
    # queries are independent of each other, and of how they are batched
    perm = rng.permutation(300)
    ctx.close(ask(kde, path[:, perm], dim, flat), ask(kde, path, dim, flat)[perm], 'permuted', rtol=1e-12, atol=1e-13)
    if dim == 1:
        ctx.close(np.ravel(kde.cdf(float(path[0, 7]))), ask(kde, path, dim, flat)[7:8], 'scalar', rtol=1e-12, atol=1e-13)


def case_integral(ctx):
    """Differences of the CDF are integrals of the density."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect, kde, mat, flat = make(ctx)
    ww_ = np.ones(num) if ww is None else ww
    if dim == 1:
        sig = np.sqrt(mat[0, 0])
        pts = np.sort(rng.uniform(data.min() - 2 * sig, data.max() + 2 * sig, size=40))
        fine = np.linspace(data.min() - 9 * sig, data.max() + 9 * sig, 20001)
        pdf, _ = ref.kde_density(fine[None, :], data, mat, kernel, ww, reflect=reflect)
        if reflect is not None and reflect[0] is not None and None not in reflect[0]:
            wid = reflect[0][1] - reflect[0][0]
            if wid < ref.kernel_radius(kernel, 5) * sig:
                raise Skip
        cum = np.concatenate([[0], np.cumsum(0.5 * (pdf[1:] + pdf[:-1]) * np.diff(fine))]) / ww_.sum()
        want = np.interp(pts, fine, cum)
        got = ask(kde, pts[None, :], 1, flat)
        err = np.abs(got - want).max()
        ctx.counts['max_err_1e6'] = int(1e6 * err)
        # the grid ends at least one kernel width beyond the data: what is cut off is bounded by single weights
        loose = 0.01 + 0.33 * ww_.max() / ww_.sum()
        ctx.check(err < loose, 'integral-of-density', err=err, kernel=kernel)
        # normalized over the support of the evaluation grid, only the interpolation error is left
        lo, hi = np.interp(np.array(kde.extrema[0], dtype=float), fine, cum)
        rel = np.abs(got - np.clip((want - lo) / (hi - lo), 0, 1)).max()
        step = (kde.extrema[0][1] - kde.extrema[0][0]) / (np.size(kde.points) - 1)
        ctx.note(err=rel, step=step / sig, npts=np.size(kde.points))
        tight = TIGHT + (1.4 if kernel == 'box' else 0.12) * step / sig / np.sqrt(ref.neff(num, ww))
        ctx.check(rel < tight, 'interpolated-integral', err=rel, kernel=kernel, step=step / sig, npts=np.size(kde.points))
        if kernel == 'gaussian' and reflect is None:
            exact = scipy.stats.norm.cdf((pts[:, None] - data[0][None, :]) / sig) @ ww_ / ww_.sum()
            ctx.check(np.abs(got - exact).max() < loose, 'exact-gaussian', err=np.abs(got - exact).max())
    else:
        # integral of an independent density over everything below the point
        sig = np.sqrt(np.diag(mat))
        pts = data[:, rng.integers(num, size=40)] + rng.normal(size=(2, 40)) * sig[:, None]
        if reflect is not None:
            for dd, rr in enumerate(reflect):
                if rr is not None and None not in rr and rr[1] - rr[0] < ref.kernel_radius(kernel, 5) * sig[dd]:
                    raise Skip
        extr = np.array(kde.extrema, dtype=float)
        axes = []
        for dd in range(2):
            reach = ref.kernel_radius(kernel, 6) * sig[dd]
            lo, hi = data[dd].min() - reach, data[dd].max() + reach
            if reflect is not None and reflect[dd] is not None:
                lo = lo if reflect[dd][0] is None else reflect[dd][0]
                hi = hi if reflect[dd][1] is None else reflect[dd][1]
            axes.append(np.unique(np.concatenate([np.linspace(lo, hi, 261), np.clip(extr[dd], lo, hi)])))
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*axes, indexing='ij')])
        pdf, _ = ref.kde_density(mesh, data, mat, kernel, ww, reflect=reflect)
        cum = pdf.reshape([aa.size for aa in axes])
        for dd in range(2):
            cum = np.moveaxis(cum, dd, 0)
            mid = 0.5 * (cum[1:] + cum[:-1]) * np.diff(axes[dd])[:, None]
            cum = np.concatenate([np.zeros_like(mid[:1]), np.cumsum(mid, axis=0)])
            cum = np.moveaxis(cum, 0, dd)
        func = scipy.interpolate.RegularGridInterpolator(axes, cum)
        below = lambda xx, yy: func(np.array([np.clip(xx, axes[0][0], axes[0][-1]), np.clip(yy, axes[1][0], axes[1][-1])]).T)    # noqa
        total = cum[-1, -1]
        want = below(*pts) / total
        got = ask(kde, pts, 2, flat)
        err = np.abs(got - want).max()
        ctx.counts['max_err_1e6'] = int(1e6 * err)
        own = [(aa[1] - aa[0]) / ss for aa, ss in zip(axes, sig)]
        steps = [np.max(np.diff(pp)) / ss for pp, ss in zip(kde.points, sig)]
        coarse = (max(steps) + max(own)) / np.sqrt(ref.neff(num, ww))
        loose = 0.01 + 0.66 * ww_.max() / ww_.sum() + 0.3 * coarse
        ctx.check(err < loose, 'integral-of-density', err=err, kernel=kernel)
        # within the support of the evaluation grid, only the interpolation error is left
        clip = np.clip(pts, extr[:, :1], extr[:, 1:])
        low = extr[:, 0]
        box = lambda xx, yy: below(xx, yy) - below(low[0] + 0 * xx, yy) - below(xx, low[1] + 0 * yy) + below(*low[:, None])     # noqa
        want = box(*clip) / box(*extr[:, 1:])
        rel = np.abs(got - want).max()
        ctx.note(err=rel, steps=steps, coarse=coarse)
        ctx.check(rel < TIGHT + (0.7 if kernel == "box" else 0.18) * coarse, 'interpolated-integral', err=rel, kernel=kernel, steps=steps)


def case_tails(ctx):
    """Where there is little density, the CDF still rises by the (little) integral of it."""
    rng = ctx.rng
    num = int(rng.integers(60, 400))
    style = gen.pick(rng, ['normal', 'uniform', 'lognormal', 'clusters', 'offset', 'tiny', 'huge'])
    data = gen.dataset(rng, 1, num, style)
    ww = gen.weights(rng, num) if rng.random() < 0.5 else None
    if not gen.well_conditioned(data, ww, 1e4):
        raise Skip
    ww_ = np.ones(num) if ww is None else ww
    bw = rng.uniform(0.3, 1.2)
    kde = kale.KDE(data[0], weights=ww, kernel='gaussian', bandwidth=bw)
    sig = bw * np.sqrt(ref.weighted_cov(data, ww)[0, 0])
    ctx.note(num=num, data=style, weighted=ww is not None, bandwidth=bw)
    lo, hi = np.array(kde.extrema[0], dtype=float)
    step = (hi - lo) / (np.size(kde.points) - 1)
    if step > 0.35 * sig:
        raise Skip
    edges = np.linspace(lo, hi, max(4, int((hi - lo) / max(4 * step, 0.2 * sig))))
    # (survival functions of one side, for the precision of the other)
    zz = (edges[:, None] - data[0][None, :]) / sig
    below = scipy.stats.norm.cdf(zz) @ ww_ / ww_.sum()
    above = scipy.stats.norm.sf(zz) @ ww_ / ww_.sum()
    want = np.where(below[1:] < 0.5, np.diff(below), -np.diff(above))
    got = np.diff(ask(kde, edges[None, :], 1, True))
    # the ends of the grid cut off some of the distribution
    want = want / want.sum()
    good = want > 1e-7
    inner = good & (want < 1e-3)
    ctx.state(style, ww is not None, int(np.log10(max(want[good].min(), 1e-12))))
    ctx.counts['tail_intervals'] = int(inner.sum())
    rel = np.abs(got - want)[good] / want[good]
    # interpolation within a step of the grid, and at both ends of each interval
    tol = 0.01 + 0.4 * (step / sig) + 4 * (step / np.diff(edges)[0]) * (step / sig)
    ctx.check(rel.max() < tol, 'tails', worst=rel.max(), at=float(want[good][rel.argmax()]), step=step / sig)


def case_refuse(ctx):
    """Unsupported requests are refused, never answered for something else."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect, kde, mat, flat = make(ctx)
    pts = data[0] if dim == 1 else data
    ctx.raises(lambda: kde.cdf(pts, params=0), 'refused', (NotImplementedError,))
    ctx.raises(lambda: kde.cdf(pts, reflect=[0, 1]), 'refused', (NotImplementedError,))
    first = ask(kde, data, dim, flat)
    kde.pdf(data)
    kde.resample(10)
    ctx.close(ask(kde, data, dim, flat), first, 'again', rtol=0, atol=0)


KINDS = {
    'shape': (case_shape, 160, 2500),
    'integral': (case_integral, 160, 2500),
    'tails': (case_tails, 60, 1500),
    'refuse': (case_refuse, 10, 60),
}
