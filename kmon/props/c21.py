"""C21: confidence bands and contours enclose the stated fractions."""
import numpy as np
import matplotlib.pyplot as plt
import scipy.ndimage
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03, c20

RULE = ("random data, weights and fractions; drawn bands are compared with the weight of the data inside of them, drawn contour levels with the mass enclosed by "
        "them in an independently computed histogram or kernel sum, and contour vertices with the interpolated density at their positions")
ASSUMPTIONS = ["a band may differ by the weight of one datum at each end, a contour level by one cell of the grid (interpolation between neighbours is unspecified)",
               "the contoured grids are evenly spaced, so that sums of density are proportional to mass"]
MIN_VERDICTS = {'band-fraction': 150, 'contour-level': 150, 'contour-vertices': 50, 'cross-median': 80, 'median-equal': 40}


def fractions(rng, most=4):
    num = int(rng.integers(1, most + 1))
    qq = rng.uniform(0.02, 0.98, size=num)
    if rng.random() < 0.3:
        qq = np.round(qq, 1).clip(0.1, 0.9)
    if rng.random() < 0.1:
        # all of the data
        qq[-1] = 1.0
    if rng.random() < 0.5:
        qq = np.sort(qq)
    return qq


def side(vals, ww, loc, frac):
    """`loc` is a legitimate location of the cumulative fraction `frac`, to within one datum."""
    sel = ww > 0
    xs = np.sort(vals[sel])
    tot = ww.sum()
    pos = np.searchsorted(xs, loc)
    slack = 1e-12 * (abs(loc) + np.ptp(xs))
    below = xs[xs < loc - slack]
    above = xs[xs > loc + slack]
    lo = below[-1] if below.size else -np.inf
    hi = above[0] if above.size else np.inf
    return ww[vals < lo].sum() / tot <= frac + 1e-9 and ww[vals <= hi].sum() / tot >= frac - 1e-9, pos


def band_of(patch, rotate):
    xy = np.asarray(patch.get_xy())
    if xy.ndim == 1:
        x0, y0, wid, hgt = patch.get_bbox().bounds
        return (y0, y0 + hgt) if rotate else (x0, x0 + wid)
    use = xy[:, 1 if rotate else 0]
    return use.min(), use.max()


def check_bands(ctx, ax, vals, ww, qq, rotate, median):
    wone = np.ones(vals.size) if ww is None else np.asarray(ww, dtype=float)
    patches = list(ax.patches)
    if not ctx.check(len(patches) == len(qq), 'band-number', got=len(patches), want=len(qq)):
        return
    bands = [band_of(pp, rotate) for pp in patches]
    # bands are nested, so that the order of drawing does not matter
    bands = np.array(sorted(bands, key=lambda bb: bb[1] - bb[0]))
    for (lo, hi), frac in zip(bands, np.sort(qq)):
        okl, _ = side(vals, wone, lo, 0.5 - frac / 2)
        okh, _ = side(vals, wone, hi, 0.5 + frac / 2)
        ctx.check(okl and okh and lo <= hi, 'band-fraction', lo=lo, hi=hi, fraction=frac,
                  inside=wone[(vals >= lo) & (vals <= hi)].sum() / wone.sum(), num=vals.size, weighted=ww is not None)
    ctx.check(np.all(np.diff(bands[:, 0]) <= 0) and np.all(np.diff(bands[:, 1]) >= 0), 'bands-nested', bands=bands)
    if median is not None:
        lines = [ll for ll in ax.lines if np.unique(np.asarray(ll.get_ydata() if rotate else ll.get_xdata(), dtype=float)).size == 1]
        if ctx.check(len(lines) == (1 if median else 0), 'median-line', got=len(lines), median=median) and median:
            med = float(np.asarray(lines[0].get_ydata() if rotate else lines[0].get_xdata())[0])
            ok, _ = side(vals, wone, med, 0.5)
            ctx.check(ok and np.all(bands[:, 0] <= med) and np.all(bands[:, 1] >= med), 'median-line', med=med)


def case_bands(ctx):
    rng = ctx.rng
    num, style, data, ww = c20.draw_values(ctx, num=int(gen.pick(ctx.rng, [1, 2, 3, 5, 20, 60, 200])))
    if rng.random() < 0.3:
        data = data[rng.integers(data.size, size=data.size)]
    qq = fractions(rng)
    rotate, median = bool(rng.random() < 0.5), bool(rng.random() < 0.7)
    how = gen.pick(rng, ['confidence', 'confidence', 'scalar', 'dist1d', 'default', 'kde', 'axes'])
    if how == 'kde' and (num < 5 or np.unique(data).size < 3 or not gen.well_conditioned(data[None, :], ww)):
        how = 'confidence'
    ctx.note(num=num, data=style, weighted=ww is not None, fractions=qq, rotate=rotate, how=how)
    ctx.state('bands', how, rotate, 'w' if ww is not None else '', len(qq))
    fig, ax = plt.subplots()
    try:
        given, _ = gen.represent(rng, data)
        gw = ww if ww is None or rng.random() < 0.6 else ww.tolist()
        if how == 'confidence':
            kale.confidence(given, ax=ax, weights=gw, quantiles=qq if rng.random() < 0.5 else qq.tolist(), median=median, rotate=rotate)
        elif how == 'axes':
            plt.sca(ax)
            kale.confidence(given, weights=gw, quantiles=qq, median=median, rotate=rotate, color='g')
        elif how == 'scalar':
            qq = qq[:1]
            kale.confidence(given, ax=ax, weights=gw, quantiles=float(qq[0]), median=median, rotate=rotate)
        elif how == 'default':
            qq = np.array([0.5, 0.9])
            kale.confidence(given, ax=ax, weights=gw, median=median, rotate=rotate)
        elif how == 'dist1d':
            median = True
            kale.dist1d(given, ax=ax, weights=gw, quantiles=qq, rotate=rotate, hist=False, carpet=False, confidence=True)
        else:
            median = None
            kale.dist1d(kale.KDE(data, weights=ww), ax=ax, quantiles=qq, rotate=rotate, carpet=False, confidence=True)
        check_bands(ctx, ax, data, ww, qq, rotate, median)
    finally:
        plt.close('all')


def drawn_bands(data, ww, qq, rotate, how):
    """Median and bands (sorted by width) drawn for the given data."""
    fig, ax = plt.subplots()
    try:
        if how == 'confidence':
            kale.confidence(data, ax=ax, weights=ww, quantiles=qq, rotate=rotate)
        else:
            kale.dist1d(data, ax=ax, weights=ww, quantiles=qq, rotate=rotate, hist=False, carpet=False, confidence=True)
        bands = np.array(sorted((band_of(pp, rotate) for pp in ax.patches), key=lambda bb: bb[1] - bb[0]))
        lines = [ll for ll in ax.lines if np.unique(np.asarray(ll.get_ydata() if rotate else ll.get_xdata(), dtype=float)).size == 1]
        meds = [float(np.asarray(ll.get_ydata() if rotate else ll.get_xdata())[0]) for ll in lines]
    finally:
        plt.close(fig)
    return meds, bands


def case_laws(ctx):
    """How bands and medians of related data are related: equal weights, values without weight, mirrored, shifted and stretched data."""
    rng = ctx.rng
    num, style, data, ww = c20.draw_values(ctx, num=int(gen.pick(ctx.rng, [1, 2, 3, 4, 5, 8, 21, 60])))
    data = np.asarray(data, dtype=float)
    qq = fractions(rng)
    rotate, how = bool(rng.random() < 0.5), gen.pick(rng, ['confidence', 'dist1d'])
    law = gen.pick(rng, ['equal', 'equal', 'zeros', 'mirror', 'affine', 'order'])
    span = max(np.ptp(data), 1e-12 * np.abs(data).max())
    ctx.note(num=num, data=style, weighted=ww is not None, fractions=qq, rotate=rotate, how=how, law=law)
    ctx.state('laws', law, how, rotate, 'w' if ww is not None else '')
    if law == 'equal':
        med0, bnd0 = drawn_bands(data, None, qq, rotate, how)
        med1, bnd1 = drawn_bands(data, np.full(data.size, float(gen.pick(rng, [1.0, 0.1, 3.0, 1e-9]))), qq, rotate, how)
        want = np.median(data)
        for meds in (med0, med1):
            if ctx.check(len(meds) == 1, 'median-line', got=len(meds)):
                ctx.close(meds[0], want, 'median-equal', rtol=0, atol=1e-9 * (span + abs(want)), num=num)
        return
    if law == 'zeros':
        ww = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
        good = ww > 0
        extra = int(rng.integers(1, 6))
        more = np.concatenate([data[good], rng.uniform(data.min() - span, data.max() + span, size=extra)])
        mww = np.concatenate([ww[good], np.zeros(extra)])
        idx = rng.permutation(more.size)
        one, two = drawn_bands(data[good], ww[good], qq, rotate, how), drawn_bands(more[idx], mww[idx], qq, rotate, how)
    elif law == 'order':
        idx = rng.permutation(num)
        one, two = drawn_bands(data, ww, qq, rotate, how), drawn_bands(data[idx], None if ww is None else np.asarray(ww)[idx], qq, rotate, how)
    else:
        if np.unique(data).size < data.size:
            raise Skip
        one = drawn_bands(data, ww, qq, rotate, how)
        shift, scale = (0.0, -1.0) if law == 'mirror' else (float(rng.uniform(-5, 5)) * span, float(2.0**rng.integers(-3, 4)))
        med, bnd = drawn_bands(scale * data + shift, ww, qq, rotate, how)
        two = ((np.array(med) - shift) / scale, np.sort((bnd - shift) / scale, axis=1))
        span = span + abs(shift)
    if ctx.check(len(one[0]) == len(two[0]) == 1 and one[1].shape == two[1].shape, 'median-line', got=[len(one[0]), len(two[0])]):
        tol = 1e-9 * (span + np.abs(data).max())
        ctx.close(two[0], one[0], 'bands-' + law, rtol=0, atol=tol, what='median', num=num)
        ctx.close(two[1], one[1], 'bands-' + law, rtol=0, atol=tol, what='bands', num=num)


def level_brackets(vals, level, frac, tol=1e-7):
    """The cells above `level` hold at most `frac` of the total, and with the next lower cell at least `frac`."""
    tot = vals.sum()
    eps = 1e-10 * np.abs(vals).max()
    above = vals[vals > level + eps].sum() / tot
    lower = vals[vals < level - eps]
    nxt = lower.max() if lower.size else -np.inf
    upto = vals[vals >= nxt - eps].sum() / tot
    return above <= frac + tol and upto >= frac - tol, above, upto


def check_levels(ctx, levels, vals, qq, key='contour-level', **kw):
    """Drawn levels (increasing, without repetition) against the stated fractions."""
    levels = np.asarray(levels, dtype=float)
    ctx.check(np.all(np.diff(levels) > 0), 'levels-increasing', levels=levels)
    if not ctx.check(1 <= levels.size <= len(qq), 'levels-number', got=levels.size, want=len(qq)):
        return
    for frac in qq:
        # one of the levels encloses this fraction
        res = [level_brackets(vals, ll, frac) for ll in levels]
        ctx.check(any(rr[0] for rr in res), key, fraction=frac, levels=levels, enclosed=[[rr[1], rr[2]] for rr in res], cells=vals.size, **kw)
    for ll, rr in zip(levels, [[level_brackets(vals, ll, frac)[0] for frac in qq] for ll in levels]):
        ctx.check(any(rr), key + '-stray', level=ll, fractions=qq, **kw)


def bilinear(xx, yy, vals, px, py):
    ii = np.clip(np.searchsorted(xx, px) - 1, 0, xx.size - 2)
    jj = np.clip(np.searchsorted(yy, py) - 1, 0, yy.size - 2)
    fx = (px - xx[ii]) / (xx[ii + 1] - xx[ii])
    fy = (py - yy[jj]) / (yy[jj + 1] - yy[jj])
    return (vals[ii, jj] * (1 - fx) * (1 - fy) + vals[ii + 1, jj] * fx * (1 - fy) + vals[ii, jj + 1] * (1 - fx) * fy + vals[ii + 1, jj + 1] * fx * fy), ii, jj


def check_vertices(ctx, cont, xx, yy, vals, **kw):
    """Vertices of the drawn lines are where the interpolated density has the value of the level."""
    span = np.ptp(vals)
    if span <= 0:
        return
    for level, path in zip(cont.levels, cont.get_paths()):
        verts = np.asarray(path.vertices)
        codes = path.codes
        if codes is not None:
            verts = verts[np.asarray(codes) != 79]
        if not len(verts):
            # nothing is drawn only if the level does not separate any cells
            ctx.check(level <= vals.min() + 1e-9 * span or level >= vals.max() - 1e-9 * span, 'contour-drawn', level=level, least=vals.min(), most=vals.max(), **kw)
            continue
        got, _, _ = bilinear(xx, yy, vals, verts[:, 0], verts[:, 1])
        ctx.count('vertices', len(verts))
        ctx.check(np.all(np.abs(got - level) <= 1e-6 * span), 'contour-vertices', level=level, worst=float(np.abs(got - level).max()), span=span, **kw)


def grid_axes(edges2):
    xx, yy = np.asarray(edges2[0]), np.asarray(edges2[1])
    return xx[:, 0], yy[0, :]


def case_contour(ctx):
    """`contour` of data: levels, processed histogram and drawn lines."""
    rng = ctx.rng
    num = int(rng.integers(20, 400))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, 2, num, style)
    ww = gen.weights(rng, num)
    qq = fractions(rng)
    edges = [np.linspace(dd.min() - ff * np.ptp(dd), dd.max() + ff * np.ptp(dd), int(rng.integers(5, 25))) for dd, ff in zip(data, rng.uniform(0.0, 0.2, size=2))]
    uneven = rng.random() < 0.3
    if uneven:
        edges = [np.concatenate([ee[:1], np.sort(rng.uniform(ee[0], ee[-1], ee.size - 2)), ee[-1:]]) for ee in edges]
        if any(np.diff(ee).min() < 1e-4 * np.ptp(ee) for ee in edges):
            raise Skip
    proc = gen.pick(rng, ['none', 'none', 'pad', 'pad', 'smooth', 'upsample', 'all', 'default'])
    opts = dict(none=dict(smooth=None, upsample=None, pad=None), pad=dict(smooth=False, upsample=False, pad=int(rng.integers(1, 4))),
                smooth=dict(smooth=float(rng.uniform(0.4, 2)), upsample=None, pad=False), upsample=dict(smooth=None, upsample=int(rng.integers(2, 4)), pad=None),
                all=dict(smooth=0.8, upsample=2, pad=True), default={})[proc]
    ctx.note(num=num, data=style, weighted=ww is not None, fractions=qq, processing=proc, shape=[ee.size for ee in edges], **{k: str(v) for k, v in opts.items()})
    ctx.state('contour', proc, 'uneven' if uneven else '', 'w' if ww is not None else '', len(qq))
    cnt, hist = c20.expected2(data, ww, edges)
    if cnt.sum() <= 0:
        raise Skip
    fig, ax = plt.subplots()
    try:
        grid, vals, cont = kale.contour(data, edges=edges, ax=ax, weights=ww, quantiles=qq, **opts)
        mids = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
        vals = np.asarray(vals, dtype=float)
        xx, yy = grid_axes(grid)
        shp = hist.shape
        if proc == 'none':
            ctx.close(vals, hist, 'contour-histogram', rtol=1e-9, atol=1e-12 * hist.max())
        elif proc == 'pad':
            pp = opts['pad']
            if ctx.check(vals.shape == (shp[0] + 2 * pp, shp[1] + 2 * pp), 'contour-padding', got=vals.shape, want=shp, pad=pp):
                inner = vals[pp:-pp, pp:-pp]
                ctx.close(inner, hist, 'contour-histogram', rtol=1e-9, atol=1e-12 * hist.max())
                frame = np.ones(vals.shape, dtype=bool)
                frame[pp:-pp, pp:-pp] = False
                ctx.check(np.all(vals[frame] <= inner.min()), 'contour-padding')
                # further bins as wide as the last ones
                mids = [np.concatenate([mm[0] - (ee[1] - ee[0]) * np.arange(pp, 0, -1), mm, mm[-1] + (ee[-1] - ee[-2]) * np.arange(1, pp + 1)])
                        if not uneven else np.concatenate([ee[0] - (ee[1] - ee[0]) * (np.arange(pp, 0, -1) - 0.5), mm,
                                                           ee[-1] + (ee[-1] - ee[-2]) * (np.arange(1, pp + 1) - 0.5)]) for ee, mm in zip(edges, mids)]
        elif proc == 'smooth':
            want = scipy.ndimage.gaussian_filter(hist, opts['smooth'])
            ctx.close(vals, want, 'contour-smoothing', rtol=1e-6, atol=1e-9 * want.max())
        elif proc == 'upsample':
            fac = opts['upsample']
            ctx.check(vals.shape == (shp[0] * fac, shp[1] * fac), 'contour-upsampling', got=vals.shape, want=shp, factor=fac)
            corners = np.ix_([0, -1], [0, -1])
            ctx.close(vals[corners], hist[corners], 'contour-upsampling', rtol=1e-5, atol=1e-6 * hist.max())
            # the finer values are shown where they are: from the first to the last of the bins, in even steps between those
            for got, mm in zip((xx, yy), mids):
                if not uneven and ctx.check(got.size == mm.size * fac, 'contour-upsampled-grid', got=got.size, want=mm.size * fac):
                    want = np.linspace(mm[0], mm[-1], mm.size * fac)
                    step = want[1] - want[0]
                    ctx.check(np.all(np.diff(got) > 0) and np.all(np.abs(got - want) < 0.75 * step), 'contour-upsampled-grid',
                              worst=float(np.abs(got - want).max() / step), factor=fac)
        if proc in ('upsample', 'all', 'default') and not uneven:
            if ctx.check(np.all(np.diff(xx) > 0) and np.all(np.diff(yy) > 0), 'contour-grid', proc=proc):
                check_vertices(ctx, cont, xx, yy, vals, proc=proc)
        if proc in ('none', 'pad', 'smooth'):
            ok = xx.shape == mids[0].shape and yy.shape == mids[1].shape
            ok = ok and np.allclose(xx, mids[0], rtol=1e-10, atol=1e-10 * np.ptp(mids[0])) and np.allclose(yy, mids[1], rtol=1e-10, atol=1e-10 * np.ptp(mids[1]))
            if ctx.check(ok, 'contour-grid', proc=proc):
                check_vertices(ctx, cont, mids[0], mids[1], vals, proc=proc)
        if proc in ('none', 'smooth', 'pad'):
            base = hist if proc == 'none' else vals
            if base.min() >= 0 and not uneven:
                check_levels(ctx, cont.levels, base, qq, proc=proc, weighted=ww is not None)
        elif vals.min() > -1e-9 * vals.max() and not uneven:
            check_levels(ctx, cont.levels, vals, qq, key='contour-level-processed', proc=proc)
        ctx.check(cont in ax.collections or any(cc in ax.collections for cc in getattr(cont, 'collections', [])), 'contour-axes')
    finally:
        plt.close('all')


def contour_sets(ax):
    return [cc for cc in ax.collections if hasattr(cc, 'levels') and not getattr(cc, 'filled', False)]


def case_dist2d(ctx):
    """Contours of KDEs (`dist2d`), against kernel sums on the grid of the KDE and against the draws inside."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3])
    num = int(rng.integers(30, 90))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'offset', 'tiny', 'huge', 'line', 'ints'])
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ['gaussian', 'gaussian', 'parabola', 'box'])
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww, kinds=['default', 'silverman', 'scalar', 'vector', 'rescale'])
    params = [0, 1]
    if dim == 3 or rng.random() < 0.4:
        params = [int(pp) for pp in rng.permutation(dim)[:2]]
    reflect = None
    if rng.random() < 0.3:
        # only single mirror images are in the scope of reflection: smoothing reaches less than the width
        reflect = [None] * dim
        jj = params[int(rng.integers(2))]
        reflect[jj] = [float(data[jj].min()), None] if rng.random() < 0.5 else [None, float(data[jj].max())]
    by = gen.pick(rng, ['quantiles', 'sigmas', 'default'])
    qq = fractions(rng)
    if by == 'sigmas':
        sig = np.sort(rng.uniform(0.3, 2.4, size=int(rng.integers(1, 4))))
        qq = 1 - np.exp(-0.5 * sig**2)
        args = dict(sigmas=sig.tolist())
    elif by == 'default':
        qq = 1 - np.exp(-0.5 * np.array([0.5, 1.0, 1.5, 2.0])**2)
        args = {}
    else:
        args = dict(quantiles=qq)
    npts = [int(rng.integers(25, 45)) for _ in range(dim)]
    pts = [np.linspace(dd.min() - 2.5 * np.sqrt(mat[jj, jj]), dd.max() + 2.5 * np.sqrt(mat[jj, jj]), npts[jj]) for jj, dd in enumerate(data)]
    if reflect is not None:
        for jj, rr in enumerate(reflect):
            if rr is not None:
                lo = rr[0] if rr[0] is not None else pts[jj][0]
                hi = rr[1] if rr[1] is not None else pts[jj][-1]
                pts[jj] = np.linspace(lo, hi, npts[jj])
                pts[jj][0] += 1e-9 * (hi - lo)
                pts[jj][-1] -= 1e-9 * (hi - lo)
    ctx.note(dim=dim, num=num, data=style, weighted=ww is not None, kernel=kernel, params=params, by=by, fractions=qq, reflect=reflect)
    ctx.state('dist2d', dim, params, by, kernel, reflect is not None)
    kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, points=pts, **kw)
    fig, ax = plt.subplots()
    try:
        kale.dist2d(kde, ax=ax, params=params, scatter=False, hist=bool(rng.random() < 0.5), contour=True, mask_dense=False, pad=False, median=False, **args)
        cont = contour_sets(ax)
        if not ctx.check(len(cont) == 1, 'contour-number', got=len(cont)):
            return
        cont = cont[0]
        sub = [pts[pp] for pp in params]
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*sub, indexing='ij')])
        submat = mat[np.ix_(params, params)]
        want, good = ref.kde_density(mesh, data[params], submat, kernel, ww, reflect=None if reflect is None else [reflect[pp] for pp in params], edge=1e-6)
        if kernel == 'box' and not good.all():
            raise Skip
        want = want.reshape([ss.size for ss in sub])
        # the drawn values may be normalized differently: compare with the drawn levels through the enclosed fraction only, after fixing the scale
        scales = [1.0, 1.0 / (num if ww is None else ww.sum())]
        okay = [all(any(level_brackets(want * ss, ll, ff)[0] for ll in cont.levels) for ff in qq) for ss in scales]
        ctx.check(any(okay), 'contour-level', levels=cont.levels, fractions=qq, kernel=kernel, weighted=ww is not None, reflect=reflect)
        use = scales[int(np.argmax(okay))]
        check_vertices(ctx, cont, sub[0], sub[1], want * use, params=params)
        # an independent sample of the KDE: the fraction inside of each contour
        if kernel == 'gaussian' and reflect is None and any(okay) and cont.levels.size == len(qq):
            size = 3000
            which = rng.choice(num, size=size, p=None if ww is None else ww / ww.sum())
            draw = data[params][:, which] + np.linalg.cholesky(submat) @ rng.normal(size=(2, size))
            inside, _ = ref.kde_density(draw, data[params], submat, kernel, ww)
            cell = 1.0 / min(ss.size for ss in sub)
            grid_part = want.sum() * np.prod([ss[1] - ss[0] for ss in sub]) / (num if ww is None else ww.sum())
            for ll, ff in zip(np.sort(cont.levels)[::-1], np.sort(qq)):
                got = np.mean(inside * use >= ll)
                _, above, upto = level_brackets(want * use, ll, ff)
                tol = 6 * np.sqrt(ff * (1 - ff) / size) + (upto - above) + 4 * cell + abs(1 - grid_part)
                ctx.check(abs(got - ff) <= tol, 'draws-inside', fraction=ff, got=got, tol=tol)
    finally:
        plt.close('all')


def case_cross(ctx):
    """Median lines (cross-hairs) of `dist2d`, of data and of estimates, and of a selection of the parameters."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3])
    num = int(gen.pick(rng, [5, 11, 20, 60, 200]))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'heavy', 'offset', 'tiny', 'huge', 'ints'])
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform', 'heavy', 'heavy', 'zeros']))
    if not gen.well_conditioned(data, ww):
        raise Skip
    params = [int(pp) for pp in rng.permutation(dim)[:2]]
    given = gen.pick(rng, ['kde', 'array']) if dim == 2 else 'kde'
    median = bool(rng.random() < 0.85)
    ctx.note(dim=dim, num=num, data=style, weighted=ww is not None, params=params, given=given)
    ctx.state('cross', dim, params, given, 'w' if ww is not None else '')
    obj = kale.KDE(data, weights=ww) if given == 'kde' else data
    fig, ax = plt.subplots()
    try:
        kw = {} if given == 'kde' else dict(weights=ww)
        kale.dist2d(obj, ax=ax, params=params, median=median, contour=False, hist=bool(rng.random() < 0.3), scatter=bool(rng.random() < 0.3),
                    mask_dense=False, **kw)
        if not median:
            ctx.check(len(ax.lines) == 0, 'cross-hairs', got=len(ax.lines))
            return
        verts = [ll for ll in ax.lines if len(ll.get_xdata()) > 1 and np.ptp(np.asarray(ll.get_xdata(), dtype=float)) == 0]
        horis = [ll for ll in ax.lines if len(ll.get_ydata()) > 1 and np.ptp(np.asarray(ll.get_ydata(), dtype=float)) == 0]
        if not ctx.check(len(verts) == 1 and len(horis) == 1 and len(ax.lines) == 2, 'cross-hairs', got=[len(verts), len(horis), len(ax.lines)]):
            return
        wone = np.ones(num) if ww is None else ww
        for pp, loc in zip(params, [float(verts[0].get_xdata()[0]), float(horis[0].get_ydata()[0])]):
            ok, _ = side(data[pp], wone, loc, 0.5)
            if ww is None:
                ok = ok and abs(loc - np.median(data[pp])) <= 1e-9 * (np.abs(data[pp]).max())
            ctx.check(ok, 'cross-median', param=pp, got=loc, weighted=ww is not None, lower=wone[data[pp] < loc].sum() / wone.sum())
    finally:
        plt.close('all')


def case_corner(ctx):
    """Bands and contours in the panels of a corner plot."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 3])
    num = int(rng.integers(40, 90))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal']))
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform', 'heavy']))
    if not gen.well_conditioned(data, ww):
        raise Skip
    qq = np.unique(fractions(rng, 3))
    rotate = bool(rng.random() < 0.6)
    how = gen.pick(rng, ['plot', 'plot-data', 'plot_kde', 'plot_data'])
    ctx.note(dim=dim, num=num, weighted=ww is not None, fractions=qq, rotate=rotate, how=how)
    ctx.state('corner', dim, rotate, how, 'w' if ww is not None else '')
    try:
        pts = [np.linspace(dd.min() - 0.4 * np.ptp(dd), dd.max() + 0.4 * np.ptp(dd), 20) for dd in data]
        kde = kale.KDE(data, weights=ww, points=pts)
        edges = [np.linspace(dd.min(), dd.max(), 9) for dd in data]
        if how in ('plot', 'plot_kde'):
            cor = kale.Corner(kde, rotate=rotate)
        else:
            cor = kale.Corner(data, weights=ww, rotate=rotate)
        d1 = dict(confidence=True, carpet=False)
        d2 = dict(scatter=False, hist=False, contour=True, mask_dense=False)
        func = dict(plot='plot', plot_kde='plot_kde', plot_data='plot_data').get(how, 'plot')
        getattr(cor, func)(edges=edges, quantiles=qq, dist1d=d1, dist2d=d2, **({} if how in ('plot', 'plot-data') else {}))
        for jj in range(dim):
            ax = cor.axes[jj, jj]
            check_bands(ctx, ax, data[jj], ww, qq, rotate and jj == dim - 1, None)
        for ii in range(dim):
            for jj in range(ii):
                cont = contour_sets(cor.axes[ii, jj])
                if not ctx.check(len(cont) == 1, 'contour-number', got=len(cont), how=how):
                    continue
                cont = cont[0]
                ctx.check(1 <= len(cont.levels) <= len(qq) and np.all(np.diff(cont.levels) > 0), 'levels-number', got=len(cont.levels), want=len(qq))
                if how == 'plot_data':
                    continue
                # `dist2d` pads with the lowest value
                cov = ref.weighted_cov(data[[jj, ii]], ww) * ref.scott(ref.neff(num, ww), dim)**2
                mesh = np.array([mm.ravel() for mm in np.meshgrid(pts[jj], pts[ii], indexing='ij')])
                if how == 'plot-data':
                    continue
                want, _ = ref.kde_density(mesh, data[[jj, ii]], cov, 'gaussian', ww)
                want = np.pad(want.reshape(20, 20), 1, constant_values=want.min())
                okay = [all(any(level_brackets(want * ss, ll, ff)[0] for ll in cont.levels) for ff in qq) for ss in (1.0, 1.0 / (num if ww is None else ww.sum()))]
                slack = want.min() * 44 * 3 / want.sum()
                if slack < 1e-3:
                    ctx.check(any(okay) or near(want, cont.levels, qq), 'contour-level', levels=cont.levels, fractions=qq, panel=[ii, jj], weighted=ww is not None)
    finally:
        plt.close('all')


def near(want, levels, qq):
    """Padding with more or fewer cells of the lowest value changes the enclosed fractions slightly."""
    for ss in (1.0,):
        if all(any(level_brackets(want * ss, ll, ff, tol=5e-3)[0] for ll in levels) for ff in qq):
            return True
    return False


KINDS = {
    'bands': (case_bands, 250, 5000),
    'laws': (case_laws, 150, 3000),
    'contour': (case_contour, 160, 2500),
    'dist2d': (case_dist2d, 90, 1300),
    'cross': (case_cross, 100, 2500),
    'corner': (case_corner, 24, 300),
}
