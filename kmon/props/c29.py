"""C29: carpet, scatter and masks show the selected data, once each."""
from collections import Counter

import numpy as np
import matplotlib.pyplot as plt
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03, c20, c21, c28

RULE = ("random data, weights, limits on the number of points, orientations and options for carpets, scatter points and masks drawn on fresh axes; positions, sizes, hidden cells and mask outlines "
        "of the artists are compared with the data (as multisets), the weights and independently computed histograms")
ASSUMPTIONS = ["sizes are bounded from below and above (5 to 100), so that they can only be required not to decrease with weight", "cells exactly at a threshold may be hidden or shown"]
MIN_VERDICTS = {'carpet-positions': 100, 'carpet-sizes': 60, 'carpet-ordinates': 60, 'carpet-subset': 30, 'scatter-pairs': 60, 'scatter-subset': 20, 'mask-below': 40, 'mask-dense': 30}


def rows(arr):
    return Counter(map(tuple, np.asarray(arr, dtype=float)))


def subset(got, want):
    got, want = rows(got), rows(want)
    return all(want[kk] >= nn for kk, nn in got.items())


def case_carpet(ctx):
    rng = ctx.rng
    num, style, data, ww = c20.draw_values(ctx, num=int(gen.pick(ctx.rng, [1, 2, 5, 20, 60, 200, 700])))
    if ww is not None and not np.any(ww > 0):
        raise Skip
    if rng.random() < 0.3 and ww is not None:
        ww = ww * 10.0**rng.uniform(-3, 3, size=num)
    if rng.random() < 0.06:
        data, style = np.full(num, data[0]), 'same'
    rotate, fancy = bool(rng.random() < 0.5), bool(rng.random() < 0.2)
    limit = int(rng.integers(1, 2 * num + 2)) if rng.random() < 0.4 else None
    random = gen.pick(rng, [None, 'normal', 'uniform', 'Uniform'])
    yave, ystd = gen.pick(rng, [(None, None), (-1.0, None), (2.0, 0.3), (None, 0.5), (0.0, 0.1)])
    shift = gen.pick(rng, [None, 0.0, 3.5, -2.0])
    args = dict(rotate=rotate, fancy=fancy, limit=limit, yave=yave, ystd=ystd, shift=shift)
    if random is not None:
        args['random'] = random
    elif rng.random() < 0.5:
        args.pop('shift')
        shift = 0.0
    own = gen.pick(rng, [None, None, None, 'alpha', 's', 'size', 'color', 'marker'])
    if own:
        args[own] = dict(alpha=0.37, s=11.0, size=13.0, color='purple', marker='x')[own]
    given, layout = gen.represent(rng, data)
    gw = ww if ww is None or rng.random() < 0.7 else ww.tolist()
    use_ax = rng.random() < 0.6
    ctx.note(num=num, data=style, weighted=ww is not None, layout=layout, limit=limit, rotate=rotate, fancy=fancy, random=random, yave=yave, ystd=ystd, shift=shift, own=own)
    ctx.state('carpet', rotate, fancy, limit is not None and limit < num, random, own, ww is not None)
    fig, ax = plt.subplots()
    if rng.random() < 0.5:
        ax.plot([0, 1], [0, 5])
    nlines = len(ax.lines)
    if not use_ax:
        plt.sca(ax)
    try:
        coll, _ = kale.carpet(given, weights=gw, ax=ax if use_ax else None, **args)
        ctx.check(coll in ax.collections and len(ax.collections) == 1 and len(ax.lines) == nlines, 'carpet-axes')
        verify_carpet(ctx, coll, data, ww, rotate, limit, fancy, own in ('s', 'size'))
        off = np.asarray(coll.get_offsets())
        yy = off[:, 0 if rotate else 1] - (0.0 if shift is None else shift)
        nn = yy.size
        # NaN is not drawn anywhere
        ctx.check(np.all(np.isfinite(yy)) and np.all(np.isfinite(coll.get_sizes())), 'carpet-drawn', fancy=fancy, num=num, bad=int(np.sum(~np.isfinite(yy))))
        if not fancy and (ystd is not None or yave is not None):
            std = ystd if ystd is not None else abs(yave) / 5
            ave = yave if yave is not None else -5 * ystd
            if random in ('uniform', 'Uniform'):
                ok = np.all(np.abs(yy - ave) <= std * (1 + 1e-9))
            else:
                ok = abs(yy.mean() - ave) <= 8 * std / np.sqrt(nn) and np.all(np.abs(yy - ave) < 9 * std)
                ok = ok and (nn < 50 or abs(yy.std() / std - 1) < 8 / np.sqrt(2 * nn))
            ok = ok and (nn < 3 or np.unique(yy).size > 1)
            ctx.check(ok, 'carpet-ordinates', mean=yy.mean(), want=ave, std=yy.std(), spread=std, num=nn)
        if own == 'alpha':
            ctx.check(coll.get_alpha() == 0.37, 'carpet-own-options')
        elif own is None:
            ctx.check(coll.get_alpha() is not None and 0 < coll.get_alpha() <= 1, 'carpet-alpha', alpha=coll.get_alpha())
        if own in ('s', 'size'):
            ctx.check(np.all(coll.get_sizes() == args[own]), 'carpet-own-options', sizes=coll.get_sizes())
    finally:
        plt.close('all')


def verify_carpet(ctx, coll, data, ww, rotate, limit, fancy=False, own_size=False):
    num = data.size
    off = np.asarray(coll.get_offsets())
    pos = off[:, 1 if rotate else 0]
    want = num if limit is None or limit >= num else limit
    ctx.count('marks', pos.size)
    if not ctx.check(pos.size == want, 'carpet-positions', got=pos.size, want=want, limit=limit):
        return
    if want == num:
        ctx.check(np.array_equal(np.sort(pos), np.sort(data)), 'carpet-positions', rotate=rotate)
    else:
        ctx.check(subset(pos[:, None], data[:, None]), 'carpet-subset', limit=limit, num=num)
    if own_size or fancy:
        return
    sizes = np.asarray(coll.get_sizes(), dtype=float)
    ctx.check(np.all(np.isfinite(sizes)) and np.all(sizes > 0) and sizes.size in (1, pos.size), 'carpet-sizes', sizes=sizes.size)
    if ww is None:
        ctx.check(np.unique(sizes).size == 1, 'carpet-sizes')
        return
    if sizes.size == 1 and pos.size > 1:
        # one size for all, only if the weights are equal
        ctx.check(np.ptp(ww) <= 1e-12 * np.max(ww), 'carpet-sizes', sizes=sizes.size)
        return
    # the weight of each mark (of distinct values)
    uniq, first, cnt = np.unique(data, return_index=True, return_counts=True)
    table = {vv: ww[ii] for vv, ii, nn in zip(uniq, first, cnt) if nn == 1}
    pairs = np.array(sorted((table[pp], ss) for pp, ss in zip(pos, sizes) if pp in table)).reshape(-1, 2)
    if len(pairs) < 2:
        return
    wg, sz = pairs.T
    run = np.maximum.accumulate(sz)
    distinct = np.append(True, np.diff(wg) > 1e-12 * wg[1:])
    # never decreasing, and a function of weight
    ctx.check(np.all(sz >= run - 1e-9 * run), 'carpet-sizes', weights=wg, sizes=sz)
    same = ~distinct[1:] & (wg[1:] == wg[:-1])
    ctx.check(np.all(np.abs(np.diff(sz))[same] <= 1e-9 * sz[1:][same]), 'carpet-sizes-same')
    free = (sz > 5.0 * (1 + 1e-9)) & (sz < 100.0 * (1 - 1e-9)) & (wg > 0)
    if np.count_nonzero(free) > 1:
        fw, fs = wg[free], sz[free]
        grow = fw[-1] / max(fw[0], 1e-300) > 1.01
        ctx.check(not grow or fs[-1] > fs[0], 'carpet-sizes-grow', weights=[fw[0], fw[-1]], sizes=[fs[0], fs[-1]])


def case_carpet1d(ctx):
    """Carpets within `dist1d`, of data and of parameters of KDEs."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    num = int(rng.integers(8, 60))
    data = gen.dataset(rng, dim, num)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    use_kde = dim > 1 or rng.random() < 0.5
    param = int(rng.integers(dim))
    rotate = bool(rng.random() < 0.5)
    carpet = gen.pick(rng, [True, True, int(rng.integers(1, num + 5)), 5.0, False, None])
    args = dict(carpet=carpet, rotate=rotate, density=False, hist=bool(rng.random() < 0.3))
    if use_kde:
        src = kale.KDE(data, weights=ww)
        args['param'] = param
    else:
        src = data[0] if rng.random() < 0.7 else data[0].tolist()
        args['weights'] = ww
    ctx.note(dim=dim, num=num, weighted=ww is not None, kde=use_kde, param=param, rotate=rotate, carpet=carpet)
    ctx.state('dist1d', dim, use_kde, rotate, repr(carpet))
    fig, ax = plt.subplots()
    try:
        kale.dist1d(src, ax=ax, **args)
        colls = list(ax.collections)
        if carpet in (False, None) and carpet is not True:
            ctx.check(not colls, 'carpet-absent', got=len(colls))
            return
        if ctx.check(len(colls) == 1, 'carpet-positions', got=len(colls)):
            verify_carpet(ctx, colls[0], data[param], ww, rotate, None if carpet is True else int(carpet))
    finally:
        plt.close('all')


def case_scatter(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3])
    num = int(rng.integers(10, 120))
    data = gen.dataset(rng, dim, num)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    how = gen.pick(rng, ['dist2d', 'dist2d', 'draw_scatter'])
    fig, ax = plt.subplots()
    try:
        if how == 'draw_scatter':
            limit = gen.pick(rng, [None, int(rng.integers(1, num + 5))])
            args = {}
            if rng.random() < 0.3:
                args['alpha'] = 0.2
            if rng.random() < 0.3:
                args['s'] = 9.0
            params = [0, 1]
            use = [dd if rng.random() < 0.6 else dd.tolist() for dd in data[:2]]
            coll = kale.plot.draw_scatter(ax, *use, limit=limit, **args)
            ctx.check(coll in ax.collections, 'scatter-axes')
            ctx.check('alpha' not in args or coll.get_alpha() == 0.2, 'scatter-own-options')
            ctx.check(np.all(np.asarray(coll.get_sizes()) == args.get('s', 4)), 'scatter-own-options')
            want_some = True
        else:
            scatter = gen.pick(rng, [True, True, int(rng.integers(1, num + 5)), 7.0, False, None])
            params = [int(pp) for pp in rng.permutation(dim)[:2]]
            use_kde = rng.random() < 0.6
            src = kale.KDE(data, weights=ww) if use_kde else (data if rng.random() < 0.6 else data.tolist())
            kde_kw = {} if use_kde else dict(weights=ww)
            kale.dist2d(src, ax=ax, params=params, scatter=scatter, contour=bool(rng.random() < 0.3), hist=bool(rng.random() < 0.5), median=bool(rng.random() < 0.5), **kde_kw)
            limit = None if scatter is True else scatter
            if limit is not None:
                limit = int(limit)
            want_some = scatter is True or (scatter is not False and scatter is not None)
        ctx.note(dim=dim, num=num, weighted=ww is not None, how=how, params=params, limit=limit)
        ctx.state('scatter', how, params, limit is not None and limit < num)
        scat = [cc for cc in ax.collections if c28.is_scatter(cc)]
        if not want_some:
            ctx.check(not scat, 'scatter-absent', got=len(scat))
            return
        if not ctx.check(len(scat) == 1, 'scatter-pairs', got=len(scat)):
            return
        off = np.asarray(scat[0].get_offsets())
        pts = data[params].T
        want = num if limit is None or limit >= num else limit
        ctx.count('points', len(off))
        ctx.check(off.shape == (want, 2), 'scatter-pairs', got=off.shape, want=want)
        if want == num:
            ctx.check(rows(off) == rows(pts), 'scatter-pairs', params=params)
        else:
            ctx.check(subset(off, pts), 'scatter-subset', params=params, limit=limit)
    finally:
        plt.close('all')


def case_below(ctx):
    """`mask_below` of histograms: only cells below the threshold are hidden."""
    rng = ctx.rng
    num, style, data, ww, edges, ekind = c20.draw2(ctx)
    how = gen.pick(rng, ['hist2d', 'hist2d', 'dist2d', 'dist2d-true', 'draw'])
    frac = float(rng.uniform(0.02, 0.98))
    fig, ax = plt.subplots()
    ctx.note(num=num, data=style, weighted=ww is not None, edges=ekind, how=how)
    ctx.state('below', how, ekind, 'w' if ww is not None else '')
    try:
        probe = kale.utils.parse_edges(data, edges=edges)
        cnt, dens = c20.expected2(data, ww, probe)
        if cnt.sum() <= 0:
            raise Skip
        # a threshold between the values which occur
        vals = np.unique(dens)
        if vals.size < 2:
            raise Skip
        kk = min(int(frac * vals.size), vals.size - 2)
        thr = float(0.5 * (vals[kk] + vals[kk + 1]))
        if not vals[kk] * (1 + 1e-6) < thr:
            raise Skip
        if how == 'hist2d':
            _, _, quad = kale.hist2d(data, edges=edges, ax=ax, weights=ww, mask_below=thr)
        elif how == 'draw':
            _, _, quad = kale.plot.draw_hist2d(ax, probe, dens, mask_below=thr)
        else:
            qq = np.sort(rng.uniform(0.1, 0.95, size=int(rng.integers(1, 4))))
            below = thr if how == 'dist2d' else True
            args = {} if ww is None else dict(weights=ww)
            kale.dist2d(data, ax=ax, edges=edges, mask_below=below, quantiles=qq, contour=False, scatter=bool(rng.random() < 0.4), median=False, **args)
            quad = [cc for cc in ax.collections if hasattr(cc, 'get_coordinates')]
            if not ctx.check(len(quad) == 1, 'mask-below', got=len(quad)):
                return
            quad = quad[0]
        ex, ey, shown, _ = c20.mesh_of(quad)
        cnt, dens = c20.expected2(data, ww, [ex, ey])
        if shown.shape != dens.shape:
            ctx.check(False, 'mask-below', got=shown.shape, want=dens.shape)
            return
        near = [(np.abs(vv[:, None] - ee[None, :]).min(axis=1) <= 1e-12 * (np.abs(vv) + np.ptp(ee))).sum() for vv, ee in zip(data, (ex, ey))]
        if ekind in ('none', 'int', 'ints') and max(near) > 2:
            raise Skip
        vis = ~np.isnan(shown)
        ctx.count('cells', vis.size)
        ctx.check(np.all(np.abs(shown - dens)[vis] <= 1e-9 * dens.max()), 'mask-below-values')
        if how == 'dist2d-true':
            # visible cells are the densest ones; they hold at least the outermost fraction except for one distinct value
            hid = dens[~vis]
            least = dens[vis].min() if vis.any() else np.inf
            top = hid.max() if hid.size else -np.inf
            ctx.check(top <= least * (1 + 1e-9) or not vis.any(), 'mask-below', hidden=top, shown=least)
            ok, above, upto = c21.level_brackets(dens, top, qq[-1]) if hid.size else (True, 0, 0)
            # cells at the level itself are hidden too: everything above it, with the cells at the level, holds the fraction
            ctx.check(ok or upto >= qq[-1] - 1e-7, 'mask-below', fraction=qq[-1], above=above, upto=upto)
        else:
            ctx.check(np.array_equal(vis, dens > thr), 'mask-below', threshold=thr, shown=vis.sum(), want=(dens > thr).sum(), how=how)
    finally:
        plt.close('all')


def case_dense(ctx):
    """`mask_dense`: what is covered are the regions denser than the outermost contour."""
    rng = ctx.rng
    num = int(rng.integers(30, 200))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, 2, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    qq = np.sort(rng.uniform(0.1, 0.95, size=int(rng.integers(1, 4))))
    base = gen.pick(rng, ['scatter', 'hist', 'contour', 'contour'])
    alpha = float(gen.pick(rng, [0.9, 0.5]))
    edges = [np.linspace(dd.min() - ff * np.ptp(dd), dd.max() + ff * np.ptp(dd), int(rng.integers(6, 20))) for dd, ff in zip(data, rng.uniform(0.0, 0.2, size=2))]
    npts = [int(rng.integers(20, 35)) for _ in range(2)]
    mat = ref.weighted_cov(data, ww) * ref.scott(ref.neff(num, ww), 2)**2
    pts = [np.linspace(dd.min() - 2 * np.sqrt(mat[jj, jj]), dd.max() + 2 * np.sqrt(mat[jj, jj]), npts[jj]) for jj, dd in enumerate(data)]
    explicit = rng.random() < 0.6 or base == 'scatter'
    ctx.note(num=num, data=style, weighted=ww is not None, fractions=qq, base=base, explicit=explicit)
    ctx.state('dense', base, explicit, len(qq))
    kde = kale.KDE(data, weights=ww, points=pts)
    fig, ax = plt.subplots()
    try:
        args = dict(mask_dense=True) if explicit else {}
        if rng.random() < 0.5 or alpha != 0.9:
            args['mask_alpha'] = alpha
        kale.dist2d(kde, ax=ax, edges=edges, quantiles=qq, scatter=True, hist=base == 'hist', contour=base == 'contour', median=False, pad=False, mask_below=False, **args)
        fill = [cc for cc in ax.collections if hasattr(cc, 'levels') and getattr(cc, 'filled', False)]
        if base == 'contour':
            mesh = np.array([mm.ravel() for mm in np.meshgrid(*pts, indexing='ij')])
            vals, _ = ref.kde_density(mesh, data, mat, 'gaussian', ww)
            vals = vals.reshape(npts)
            grid = pts
        else:
            cnt, vals = c20.expected2(data, ww, edges)
            grid = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
        if not ctx.check(len(fill) <= 1, 'mask-dense', got=len(fill)):
            return
        if not fill:
            # nothing to be covered only if the densest cell alone holds the fraction
            srt = np.sort(vals.ravel())[::-1]
            ctx.check(srt[0] / srt.sum() >= qq[-1] - 1e-9 or np.unique(np.round(vals / vals.max(), 9)).size < 3 or c21.level_brackets(vals, srt[0], qq[-1])[0],
                      'mask-dense-absent', fraction=qq[-1], top=srt[0] / srt.sum())
            return
        fill = fill[0]
        ctx.check(fill.get_alpha() == alpha, 'mask-alpha', got=fill.get_alpha(), want=alpha)
        levels = np.asarray(fill.levels, dtype=float)
        scales = [1.0, 1.0 / (num if ww is None else ww.sum())] if base == 'contour' else [1.0]
        okay = [bool(c21.level_brackets(vals * ss, levels[0], qq[-1])[0] and abs(levels[-1] - vals.max() * ss) <= 1e-6 * vals.max() * ss) for ss in scales]
        ctx.check(any(okay), 'mask-dense', fraction=qq[-1], levels=levels, base=base, top=vals.max())
        if not any(okay):
            return
        vals = vals * scales[int(np.argmax(okay))]
        verts = np.concatenate([np.asarray(pa.vertices)[np.asarray(pa.codes) != 79] if pa.codes is not None else np.asarray(pa.vertices) for pa in fill.get_paths()] or [np.zeros((0, 2))])
        if not len(verts):
            return
        # the outline of what is covered: never less dense than the level
        got, _, _ = c21.bilinear(grid[0], grid[1], vals, verts[:, 0], verts[:, 1])
        span = np.ptp(vals)
        frame = np.zeros(len(verts), dtype=bool)
        for axis, gg in enumerate(grid):
            frame |= np.abs(verts[:, axis] - gg[0]) <= 1e-9 * np.ptp(gg)
            frame |= np.abs(verts[:, axis] - gg[-1]) <= 1e-9 * np.ptp(gg)
        ctx.count('vertices', len(verts))
        ctx.check(np.all(got >= levels[0] - 1e-6 * span), 'mask-dense', worst=float((got - levels[0]).min()), base=base)
        ctx.check(np.all(frame | (np.abs(got - levels[0]) <= 1e-6 * span) | (got >= levels[-1] - 1e-6 * span)), 'mask-dense-outline', base=base)
    finally:
        plt.close('all')


KINDS = {'carpet': (case_carpet, 160, 4000), 'carpet1d': (case_carpet1d, 80, 1500), 'scatter': (case_scatter, 100, 2000),
         'below': (case_below, 100, 2500), 'dense': (case_dense, 80, 1500)}
