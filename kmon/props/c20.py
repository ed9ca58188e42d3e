"""C20: plotted histograms and densities show the values they are computed from."""
import numpy as np
import matplotlib.pyplot as plt
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random data, weights, bins and options drawn on fresh matplotlib axes; the artists (lines, meshes) are read back and compared with explicit counts "
        "over the drawn bins and with independent kernel sums at the drawn positions")
ASSUMPTIONS = ["bins include their lower edge, the last one also its upper edge (numpy convention)", "artist data are observed, not pixels"]
MIN_VERDICTS = {'hist1d-heights': 100, 'hist2d-values': 60, 'corner-values': 30, 'corner-heights': 30, 'density-curve': 60, 'histogram-values': 100}


def count1(data, ww, edges):
    """Explicit weighted counts."""
    data, edges = np.asarray(data, dtype=float), np.asarray(edges, dtype=float)
    ww = np.ones(data.size) if ww is None else np.asarray(ww, dtype=float)
    out = np.zeros(edges.size - 1)
    for jj in range(edges.size - 1):
        sel = (data >= edges[jj]) & ((data < edges[jj + 1]) | ((jj == edges.size - 2) & (data == edges[jj + 1])))
        out[jj] = ww[sel].sum()
    return out


def count2(data, ww, edges):
    num = np.shape(data)[1]
    ww = np.ones(num) if ww is None else np.asarray(ww, dtype=float)
    idx, good = [], np.ones(num, dtype=bool)
    for dd, ee in zip(np.asarray(data, dtype=float), edges):
        ee = np.asarray(ee, dtype=float)
        pos = np.array([np.count_nonzero(ee <= xx) - 1 for xx in dd])
        pos = np.where(dd == ee[-1], ee.size - 2, pos)
        good &= (dd >= ee[0]) & (dd <= ee[-1])
        idx.append(pos)
    out = np.zeros([len(ee) - 1 for ee in edges])
    np.add.at(out, tuple(ii[good] for ii in idx), ww[good])
    return out


def filled(xx):
    return np.ma.filled(np.ma.asarray(xx).astype(float), np.nan)


def steps(edges, heights, joints=True):
    xx, yy = [], []
    for jj, hh in enumerate(heights):
        xx += [edges[jj], edges[jj + 1]]
        yy += [hh, hh]
        if not joints:
            xx.append(np.nan)
            yy.append(np.nan)
    return np.array(xx, dtype=float), np.array(yy, dtype=float)


def check_line(ctx, line, edges, heights, rotate, joints, hidden, key, **kw):
    """The drawn line is the step function of the given heights (hidden bins excepted)."""
    xx, yy = filled(line.get_xdata(orig=True)), filled(line.get_ydata(orig=True))
    if rotate:
        xx, yy = yy, xx
    wx, wy = steps(edges, heights, joints)
    hide = np.repeat(np.asarray(hidden, dtype=bool), 2 if joints else 3)
    if not ctx.check(xx.shape == wx.shape and yy.shape == wy.shape, key, got=[xx.shape, yy.shape], want=wx.shape, **kw):
        return
    top = np.nanmax(np.abs(wy)) if wy.size else 1.0
    bad = ~hide & ~(np.isnan(wy) & (np.isnan(yy) | np.isnan(xx)))
    okx = np.abs(xx - wx) <= 1e-12 * (1 + np.abs(wx))
    oky = np.abs(yy - wy) <= 1e-9 * top
    ctx.count('heights_compared', len(heights))
    ctx.check(np.all((okx & oky)[bad]), key, got=yy, want=wy, **kw)
    ctx.check(np.all(np.isnan(xx[hide]) | np.isnan(yy[hide])), key + '-hidden', **kw)


def draw_values(ctx, num=None):
    rng = ctx.rng
    num = num or int(rng.integers(5, 120))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, 1, num, style)[0]
    ww = gen.weights(rng, num)
    return num, style, data, ww


def edges_for(rng, data, kinds=('none', 'int', 'even', 'uneven', 'narrow', 'data')):
    kind = gen.pick(rng, list(kinds))
    lo, hi = np.min(data), np.max(data)
    span = hi - lo
    if kind == 'none':
        return None, kind
    if kind == 'int':
        return int(rng.integers(1, 30)), kind
    if kind == 'even':
        return np.linspace(lo - 0.1 * span, hi + 0.1 * span, int(rng.integers(2, 20))), kind
    if kind == 'uneven':
        return np.sort(rng.uniform(lo - 0.2 * span, hi + 0.2 * span, int(rng.integers(2, 20)))), kind
    if kind == 'narrow':
        return np.linspace(lo + 0.2 * span, hi - 0.2 * span, int(rng.integers(2, 12))), kind
    return np.unique(data[rng.permutation(data.size)[:int(rng.integers(2, 12))]]), kind


def case_histogram(ctx):
    rng = ctx.rng
    num, style, data, ww = draw_values(ctx)
    edges, ekind = edges_for(rng, data)
    if np.ndim(edges) and np.size(edges) < 2:
        raise Skip
    dens, prob = rng.random() < 0.5, rng.random() < 0.5
    given, layout = gen.represent(rng, data)
    gw = ww if ww is None or rng.random() < 0.6 else list(ww)
    ctx.note(num=num, data=style, weighted=ww is not None, edges=ekind, density=dens, probability=prob)
    ctx.state('histogram', ekind, dens, prob, 'w' if ww is not None else '')
    hist, got = utils.histogram(given, bins=edges, weights=gw, density=dens, probability=prob)
    verify_counts(ctx, data, ww, hist, got, edges, ekind, dens, prob, 'histogram')


def verify_counts(ctx, data, ww, hist, got, edges, ekind, dens, prob, name):
    got = np.asarray(got, dtype=float)
    if ekind not in ('none', 'int'):
        ctx.check(np.array_equal(got, np.asarray(edges, dtype=float)), name + '-edges', got=got, want=edges)
    else:
        ctx.check(np.all(np.diff(got) > 0) and got[0] <= data.min() + 1e-12 * abs(data.min()) and got[-1] >= data.max() - 1e-12 * abs(data.max()),
                  name + '-edges-cover', got=got[[0, -1]])
        if ekind == 'int':
            ctx.check(got.size == edges + 1, name + '-edges-number', got=got.size, want=edges + 1)
    want = count1(data, ww, got)
    if dens:
        want = want / np.diff(got)
    if prob:
        want = want / (data.size if ww is None else np.sum(ww))
    # values at an edge of automatic bins may fall to either side, through rounding of the edges
    near = np.abs(data[:, None] - got[None, :]).min(axis=1) <= 1e-12 * (np.abs(data) + np.ptp(got))
    if ekind in ('none', 'int') and near.sum() > 2:
        tot = np.sum(np.asarray(hist, dtype=float) * (np.diff(got) if dens else 1.0))
        full = 1.0 if prob else (data.size if ww is None else np.sum(ww))
        ctx.check(abs(tot - full) <= 1e-9 * full, name + '-total', got=tot, want=full)
        return None
    ctx.close(hist, want, name + '-values', rtol=1e-9, atol=1e-12 * np.abs(want).max(), edges=ekind, density=dens, probability=prob)
    return want


def case_hist1d(ctx):
    rng = ctx.rng
    num, style, data, ww = draw_values(ctx)
    edges, ekind = edges_for(rng, data)
    if np.ndim(edges) and np.size(edges) < 2:
        raise Skip
    dens, prob = rng.random() < 0.5, rng.random() < 0.5
    joints, rotate = rng.random() < 0.6, rng.random() < 0.4
    ren = gen.pick(rng, [False, False, True, 3.5])
    nonzero = rng.random() < 0.3
    positive = rng.random() < 0.8
    use_ax = rng.random() < 0.5
    ctx.note(num=num, data=style, weighted=ww is not None, edges=ekind, density=dens, probability=prob, joints=joints, rotate=rotate, renormalize=ren, nonzero=nonzero)
    ctx.state('hist1d', ekind, joints, rotate, ren)
    fig, ax = plt.subplots()
    other = None
    if not use_ax:
        plt.sca(ax)
    else:
        _, other = plt.subplots()
    try:
        hist, got, line = kale.hist1d(data, edges=edges, ax=ax if use_ax else None, weights=ww, density=dens, probability=prob,
                                      renormalize=ren, joints=joints, positive=positive, rotate=rotate, nonzero=nonzero)
        ctx.check(len(ax.lines) == 1 and line is ax.lines[0], 'hist1d-axes', lines=len(ax.lines))
        if other is not None:
            ctx.check(len(other.lines) == 0, 'hist1d-axes')
        verify_counts(ctx, data, ww, hist, got, edges, ekind, dens, prob, 'histogram')
        want = np.asarray(hist, dtype=float)
        if ren is not False and want.max() > 0:
            want = want / want.max() * (1.0 if ren is True else ren)
        elif ren is not False:
            raise Skip
        hidden = (want == 0.0) if nonzero else np.zeros(want.size, dtype=bool)
        check_line(ctx, line, got, want, rotate, joints, hidden, 'hist1d-heights', renormalize=ren)
    finally:
        plt.close('all')


def draw2(ctx, nmax=120):
    rng = ctx.rng
    num = int(rng.integers(8, nmax))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, 2, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kind = gen.pick(rng, ['none', 'int', 'ints', 'arrays', 'arrays', 'common'])
    if kind == 'none':
        edges = None
    elif kind == 'int':
        edges = int(rng.integers(2, 15))
    elif kind == 'ints':
        edges = [int(rng.integers(2, 15)) for _ in range(2)]
    elif kind == 'common':
        edges = np.linspace(data.min(), data.max(), int(rng.integers(4, 12)))
    else:
        edges = [edges_for(rng, dd, ('even', 'uneven', 'narrow'))[0] for dd in data]
    return num, style, data, ww, edges, kind


def mesh_of(quad):
    """Edges and values (x, y) of a drawn mesh; masked cells are nan."""
    coords = np.asarray(quad.get_coordinates())
    vals = np.ma.asarray(quad.get_array())
    ny, nx = coords.shape[0] - 1, coords.shape[1] - 1
    vals = np.ma.filled(vals.reshape(ny, nx).astype(float), np.nan).T
    return coords[0, :, 0], coords[:, 0, 1], vals, coords


def check_mesh(ctx, quad, edges, want, hidden, key, maybe=None, **kw):
    ex, ey, vals, coords = mesh_of(quad)
    ok = ex.shape == np.shape(edges[0]) and ey.shape == np.shape(edges[1])
    ok = ok and np.allclose(ex, edges[0], rtol=1e-12, atol=0) and np.allclose(ey, edges[1], rtol=1e-12, atol=0)
    ok = ok and np.all(coords[:, :, 0] == ex[None, :]) and np.all(coords[:, :, 1] == ey[:, None])
    if not ctx.check(ok, key + '-edges', x=ex, y=ey, want=[np.shape(edges[0]), np.shape(edges[1])], **kw):
        return
    if not ctx.check(vals.shape == want.shape, key, got=vals.shape, want=want.shape, **kw):
        return
    shown = ~np.isnan(vals)
    ctx.count('cells_compared', want.size)
    top = np.abs(want).max()
    ctx.check(np.all(np.abs(vals - want)[shown] <= 1e-9 * top), key, **kw)
    sure = np.ones(want.shape, dtype=bool) if maybe is None else ~maybe
    ctx.check(np.array_equal(shown[sure], ~hidden[sure]), key + '-hidden', shown=shown.sum(), want=(~hidden).sum(), **kw)


def expected2(data, ww, edges):
    cnt = count2(data, ww, edges)
    area = np.diff(edges[0])[:, None] * np.diff(edges[1])[None, :]
    tot = cnt.sum()
    return cnt, cnt / area / tot if tot > 0 else cnt


def case_hist2d(ctx):
    rng = ctx.rng
    num, style, data, ww, edges, ekind = draw2(ctx)
    mask = gen.pick(rng, [False, False, True])
    given, layout = gen.represent(rng, data)
    ctx.note(num=num, data=style, weighted=ww is not None, edges=ekind, mask=mask, layout=layout)
    ctx.state('hist2d', ekind, mask, 'w' if ww is not None else '')
    fig, ax = plt.subplots()
    try:
        got, hist, quad = kale.hist2d(given, edges=edges, ax=ax, weights=ww, mask_below=mask)
        got = [np.asarray(ee, dtype=float) for ee in got]
        verify_edges2(ctx, data, got, edges, ekind)
        cnt, want = expected2(data, ww, got)
        if cnt.sum() <= 0:
            raise Skip
        hidden = np.zeros(want.shape, dtype=bool)
        maybe = None
        if mask is True:
            ave = 1.0 if ww is None else np.mean(ww)
            hidden = cnt < (0.5 if ww is None else ave)
            maybe = None if ww is None else (cnt > 0.85 * ave) & (cnt < 1.01 * ave)
        check_mesh(ctx, quad, got, want, hidden, 'hist2d-values', maybe=maybe, weighted=ww is not None, how=ekind)
        ctx.check(quad in ax.collections, 'hist2d-axes')
    finally:
        plt.close('all')


def verify_edges2(ctx, data, got, edges, ekind):
    for dd in range(2):
        ee = got[dd]
        if ekind == 'arrays':
            ctx.check(np.array_equal(ee, edges[dd]), 'hist2d-edges-given')
        elif ekind == 'common':
            ctx.check(np.array_equal(ee, edges), 'hist2d-edges-given')
        else:
            ctx.check(np.all(np.diff(ee) > 0) and ee[0] <= data[dd].min() and ee[-1] >= data[dd].max(), 'hist2d-edges-cover', edges=ee[[0, -1]])
            if ekind != 'none':
                num = edges if ekind == 'int' else edges[dd]
                ctx.check(ee.size == num + 1, 'hist2d-edges-number', got=ee.size - 1, want=num)


def case_dist1d(ctx):
    """Density curves (and histograms) of `dist1d`, from KDEs and from data."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    num = int(rng.integers(12, 90))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    use_kde = dim > 1 or rng.random() < 0.6
    reflect = None
    param = int(rng.integers(dim))
    if use_kde:
        flat = dim == 1 and rng.random() < 0.5
        if rng.random() < 0.3:
            reflect = c03.bounds_for(rng, data)
        src = kale.KDE(data[0] if flat else data, weights=ww, kernel=kernel, reflect=reflect, **kw)
    else:
        kernel, bkind = 'gaussian', 'default'
        mat = np.atleast_2d(ref.weighted_cov(data, ww) * ref.scott(ref.neff(num, ww), 1)**2)
        src = data[0]
    var = mat[param:param + 1, param:param + 1]
    vals = data[param]
    prob = rng.random() < 0.6
    rotate = rng.random() < 0.4
    edges, ekind = edges_for(rng, vals)
    if np.ndim(edges) and np.size(edges) < 2:
        raise Skip
    scale = gen.pick(rng, [True, True, 2.5])
    hist = bool(rng.random() < 0.5)
    args = dict(ax=None, edges=edges, probability=prob, rotate=rotate, density=scale, hist=hist, confidence=False, carpet=False)
    if use_kde:
        args['param'] = param
    else:
        args['weights'] = ww
    if rng.random() < 0.2 and use_kde:
        args.pop('density')
        scale = True
    if rng.random() < 0.3:
        args['color'] = 'r'
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, bandwidth=bkind, kde=use_kde, weighted=ww is not None, edges=ekind, probability=prob, rotate=rotate, hist=hist, scale=scale, reflect=reflect)
    ctx.state('dist1d', use_kde, ekind, prob, rotate, hist, reflect is not None)
    fig, ax = plt.subplots()
    args['ax'] = ax
    try:
        handle = kale.dist1d(src, **args)
        ctx.check(len(ax.lines) == (2 if hist else 1), 'dist1d-components', lines=len(ax.lines), hist=hist)
        ctx.check(len(ax.collections) == 0 and len(ax.patches) == 0, 'dist1d-components')
        line = ax.lines[0]
        ctx.check(handle is line, 'dist1d-handle')
        xx, yy = filled(line.get_xdata(orig=True)), filled(line.get_ydata(orig=True))
        if rotate:
            xx, yy = yy, xx
        if not ctx.check(xx.ndim == 1 and xx.shape == yy.shape and xx.size > 1, 'density-curve-shape', x=xx.shape, y=yy.shape):
            return
        rr = None if reflect is None else [reflect[param]]
        atb = np.zeros(xx.size, dtype=bool)
        want, good = ref.kde_density(xx[None, :], data[param:param + 1], var, kernel, ww, reflect=rr, edge=1e-5)
        if rr is not None and rr[0] is not None:
            # at the boundary itself either side is legitimate
            for loc in rr[0]:
                if loc is not None:
                    atb |= np.abs(xx - loc) <= 1e-9 * max(abs(loc), np.sqrt(var[0, 0]))
        if prob:
            want = want / (num if ww is None else np.sum(ww))
        if scale is not True:
            want = want * scale
        near = (~good | atb) if kernel == 'box' else atb
        top = want.max() if want.size else 1.0
        ctx.close(yy[~near], want[~near], 'density-curve', rtol=1e-7, atol=1e-9 * top + 1e-300, kde=use_kde, kernel=kernel, edges=ekind)
        if np.ndim(edges):
            ctx.check(np.array_equal(xx, edges), 'density-positions')
        elif ekind == 'int':
            ctx.check(xx.size == edges + 1 and xx[0] <= vals.min() and xx[-1] >= vals.max(), 'density-positions', size=xx.size)
        else:
            ctx.check(xx[0] <= vals.min() and xx[-1] >= vals.max() and np.all(np.diff(xx) > 0), 'density-positions-cover')
        if hist:
            line = ax.lines[1]
            hx, hy = filled(line.get_xdata(orig=True)), filled(line.get_ydata(orig=True))
            if rotate:
                hx, hy = hy, hx
            got = np.append(hx[::2], hx[-1])
            got_h = hy[::2]
            verify_counts(ctx, vals, ww, got_h, got, edges, ekind, True, prob, 'dist1d-hist')
    finally:
        plt.close('all')


def case_dist2d(ctx):
    """The two-dimensional histogram of `dist2d`, and medians."""
    rng = ctx.rng
    num, style, data, ww, edges, ekind = draw2(ctx)
    dim = gen.pick(rng, [2, 2, 3])
    params = [0, 1]
    if dim == 3:
        data = np.vstack([data, rng.normal(size=num)])
    if rng.random() < 0.6:
        params = [int(pp) for pp in rng.permutation(dim)[:2]]
    sub = data[params]
    if ekind == 'arrays':
        edges = [edges_for(rng, dd, ('even', 'uneven', 'narrow'))[0] for dd in sub]
    if ekind == 'common':
        edges = np.linspace(sub.min(), sub.max(), 8)
    use_kde = rng.random() < 0.6
    src = kale.KDE(data, weights=ww) if use_kde else data
    args = {} if use_kde or ww is None else dict(weights=ww)
    ctx.note(dim=dim, num=num, data=style, weighted=ww is not None, edges=ekind, params=params, kde=use_kde)
    ctx.state('dist2d', dim, params, ekind, use_kde)
    fig, ax = plt.subplots()
    try:
        kale.dist2d(src, ax=ax, edges=edges, params=params, scatter=False, contour=False, hist=True, mask_below=False, mask_dense=False, median=True, **args)
        quads = [cc for cc in ax.collections if hasattr(cc, 'get_coordinates')]
        if not ctx.check(len(quads) == 1 and len(ax.collections) == 1, 'dist2d-components', got=len(ax.collections)):
            return
        ex, ey, _, _ = mesh_of(quads[0])
        verify_edges2(ctx, sub, [ex, ey], edges, ekind)
        cnt, want = expected2(sub, ww, [ex, ey])
        if cnt.sum() <= 0:
            raise Skip
        check_mesh(ctx, quads[0], [ex, ey], want, np.zeros(want.shape, dtype=bool), 'dist2d-values', params=params, weighted=ww is not None)
        ctx.check(len(ax.lines) == 2, 'dist2d-median', lines=len(ax.lines))
        if len(ax.lines) == 2:
            for dd, (line, get) in enumerate(zip(ax.lines, ['get_xdata', 'get_ydata'])):
                med = np.unique(np.asarray(getattr(line, get)(), dtype=float))
                ok = med.size == 1
                if ok:
                    # the weighted fractions on either side of a median are at least a half (up to the interpolation between neighbours)
                    w1 = np.ones(num) if ww is None else ww
                    xx = np.sort(sub[dd][w1 > 0])
                    pos = np.searchsorted(xx, med[0])
                    lo, hi = xx[max(pos - 1, 0)], xx[min(pos + 1, xx.size - 1)]
                    below, above = w1[sub[dd] < lo].sum(), w1[sub[dd] > hi].sum()
                    ok = below <= 0.5 * w1.sum() + 1e-9 * w1.sum() and above <= 0.5 * w1.sum() + 1e-9 * w1.sum()
                    ok = ok and xx[0] <= med[0] <= xx[-1]
                ctx.check(ok, 'dist2d-median', dim=dd, got=med)
    finally:
        plt.close('all')


def case_corner(ctx):
    """The histograms of a corner plot, in one and two dimensions."""
    rng = ctx.rng
    num, style, data, ww, edges, ekind = draw2(ctx)
    dim = gen.pick(rng, [2, 3])
    if dim == 3:
        data = np.vstack([data, rng.normal(size=num)])
    if ekind in ('ints', 'arrays'):
        edges = [edges_for(rng, dd, ('even', 'uneven', 'narrow'))[0] for dd in data]
        ekind = 'arrays'
    if ekind == 'common':
        edges = np.linspace(data.min(), data.max(), 8)
    rotate = bool(rng.random() < 0.5)
    how = gen.pick(rng, ['given', 'stored', 'stored-kde', 'given-kde', 'plot_data'])
    ctx.note(dim=dim, num=num, data=style, weighted=ww is not None, edges=ekind, rotate=rotate, how=how)
    ctx.state('corner', dim, ekind, how, rotate, 'w' if ww is not None else '')
    args = dict(edges=edges) if edges is not None else {}
    only = dict(dist1d=dict(density=False, confidence=False, carpet=False, hist=True),
                dist2d=dict(hist=True, contour=False, scatter=False, mask_dense=False, mask_below=False, median=False))
    try:
        if how == 'given':
            cor = kale.Corner(dim, rotate=rotate)
            cor.hist(data, weights=ww, **args)
        elif how == 'stored':
            cor = kale.Corner(data, weights=ww, rotate=rotate)
            cor.hist(**args)
        elif how == 'stored-kde':
            cor = kale.Corner(kale.KDE(data, weights=ww), rotate=rotate)
            cor.hist(**args)
        elif how == 'given-kde':
            cor = kale.Corner(dim, rotate=rotate)
            cor.hist(kale.KDE(data, weights=ww), **args)
        else:
            cor = kale.Corner(dim, rotate=rotate)
            cor.plot_data(data, weights=ww, **args, **only)
        tot = num if ww is None else ww.sum()
        for (ii, jj), ax in np.ndenumerate(cor.axes):
            if jj > ii:
                continue
            if ii == jj:
                if not ctx.check(len(ax.lines) == 1, 'corner-components', panel=[ii, jj], lines=len(ax.lines)):
                    continue
                line = ax.lines[0]
                turned = rotate and ii == dim - 1
                along = filled(line.get_ydata(orig=True) if turned else line.get_xdata(orig=True))
                ee = np.append(along[::2], along[-1])
                if ekind in ('arrays', 'common'):
                    given = edges[ii] if ekind == 'arrays' else edges
                    ctx.check(ee.shape == given.shape and np.allclose(ee, given, rtol=1e-12, atol=0), 'corner-edges', panel=[ii, jj])
                near = np.abs(data[ii][:, None] - ee[None, :]).min(axis=1) <= 1e-12 * (np.abs(data[ii]) + np.ptp(ee))
                if near.sum() > 2:
                    continue
                want = count1(data[ii], ww, ee) / np.diff(ee) / tot
                check_line(ctx, line, ee, want, turned, True, np.zeros(want.size, dtype=bool), 'corner-heights', panel=[ii, jj], weighted=ww is not None, how=how)
                continue
            quads = [cc for cc in ax.collections if hasattr(cc, 'get_coordinates')]
            if not ctx.check(len(quads) == 1, 'corner-components', panel=[ii, jj], meshes=len(quads)):
                continue
            ex, ey, _, _ = mesh_of(quads[0])
            sub = data[[jj, ii]]
            if ekind in ('arrays', 'common'):
                given = [edges[jj], edges[ii]] if ekind == 'arrays' else [edges, edges]
                ctx.check(all(aa.shape == bb.shape and np.allclose(aa, bb, rtol=1e-12, atol=0) for aa, bb in zip((ex, ey), given)), 'corner-edges', panel=[ii, jj])
            near = [(np.abs(vv[:, None] - ee[None, :]).min(axis=1) <= 1e-12 * (np.abs(vv) + np.ptp(ee))).sum() for vv, ee in zip(sub, (ex, ey))]
            cnt, want = expected2(sub, ww, [ex, ey])
            if max(near) > 2 or cnt.sum() <= 0:
                continue
            check_mesh(ctx, quads[0], [ex, ey], want, np.zeros(want.shape, dtype=bool), 'corner-values', panel=[ii, jj], weighted=ww is not None, how=how)
    finally:
        plt.close('all')


KINDS = {
    'corner': (case_corner, 70, 1500),
    'histogram': (case_histogram, 250, 5000),
    'hist1d': (case_hist1d, 150, 2500),
    'hist2d': (case_hist2d, 110, 1800),
    'dist1d': (case_dist1d, 150, 2500),
    'dist2d': (case_dist2d, 110, 1800),
}
