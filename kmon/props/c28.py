"""C28: the panels of corner plots show their own parameters, with consistent limits."""
import numpy as np
import matplotlib.pyplot as plt
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03, c20, c21

RULE = ("random corner plots (1-4 parameters, data / KDEs / weights, every plotting method, origins, rotation, given or automatic limits, several datasets in one figure, targets); the artists, "
        "labels, positions and limits of every panel are read back and compared with counts, kernel sums and values of the parameters which the panel stands for")
ASSUMPTIONS = ["artist data are observed, not pixels", "data plots fit the limits to the data, KDE plots to the edges at which the KDE is drawn"]
MIN_VERDICTS = {'panel-density': 60, 'panel-hist1d': 40, 'panel-carpet': 40, 'panel-bands': 20, 'panel-hist2d': 40, 'panel-scatter': 40, 'panel-contour': 40, 'panel-median': 60,
                'limits-shared': 150, 'limits-values': 150, 'limits-given': 30, 'layout': 80, 'target-lines': 40, 'target-spans': 40, 'earlier-artists': 30}

METHODS = {
    'plot': (dict(density=True, confidence=True, carpet=True, hist=False), dict(hist=True, scatter=True, contour=True, median=True)),
    'corner': (dict(density=True, confidence=True, carpet=True, hist=False), dict(hist=True, scatter=True, contour=True, median=True)),
    'clean': (dict(density=True, confidence=False, carpet=False, hist=False), dict(hist=False, scatter=False, contour=True, median=True)),
    'hist': (dict(density=False, confidence=False, carpet=False, hist=True), dict(hist=True, scatter=False, contour=False, median=True)),
    'plot_kde': (dict(density=True, confidence=True, carpet=False, hist=False), dict(hist=False, scatter=False, contour=True, median=True)),
    'plot_data': (dict(density=False, confidence=False, carpet=True, hist=True), dict(hist=True, scatter=True, contour=False, median=True)),
}


def is_scatter(coll):
    return hasattr(coll, 'get_sizes') and len(coll.get_sizes()) > 0


class Panel:
    """Artists of one panel, those added since `mark`."""

    def __init__(self, ax):
        self.ax = ax
        self.seen = set(id(aa) for aa in self.all())
        self.keep = list(self.all())

    def all(self):
        return list(self.ax.lines) + list(self.ax.collections) + list(self.ax.patches)

    def lines(self):
        return [aa for aa in self.ax.lines if id(aa) not in self.seen]

    def colls(self):
        return [aa for aa in self.ax.collections if id(aa) not in self.seen]

    def patches(self):
        return [aa for aa in self.ax.patches if id(aa) not in self.seen]


def axis_values(line, rotate=False):
    xx, yy = c20.filled(line.get_xdata(orig=True)), c20.filled(line.get_ydata(orig=True))
    return (yy, xx) if rotate else (xx, yy)


def make_data(rng, dim, num=None, centre=None, spread=None):
    num = num or int(rng.integers(25, 70))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'offset', 'mixed', 'tiny', 'line', 'huge']))
    if centre is None:
        # parameters of clearly different ranges can not be mistaken for each other
        centre = np.zeros(dim) if rng.random() < 0.3 else rng.permutation(dim) * 40.0 * np.ptp(data, axis=1).max()
    if spread is not None:
        # later datasets have spreads comparable to the first one, far from its centre nothing smaller can be resolved
        data = (data - data.mean(axis=1, keepdims=True)) / np.ptp(data, axis=1)[:, None] * spread[:, None] * rng.uniform(0.2, 3)
    data = data + centre[:, None]
    return data, centre


def spec_edges(rng, data):
    how = gen.pick(rng, ['none', 'none', 'int', 'ints', 'arrays'])
    dim = len(data)
    if how == 'none':
        return None, how
    if how == 'int':
        return int(rng.integers(5, 16)), how
    if how == 'ints':
        return [int(vv) for vv in rng.integers(5, 16, size=dim)], how
    out = []
    for dd in data:
        span = np.ptp(dd)
        lo, hi = dd.min() - rng.uniform(-0.05, 0.3) * span, dd.max() + rng.uniform(-0.05, 0.3) * span
        out.append(np.linspace(lo, hi, int(rng.integers(6, 18))))
    return out, how


def check_diag(ctx, panel, rotate, pp, vals, sub, mat, kernel, ww, edges, show, qq, reflect, source):
    """One diagonal panel against its parameter `pp`."""
    num = vals.size
    lines = panel.lines()
    colls = panel.colls()
    patches = panel.patches()
    want = int(show['density']) + int(show['hist']) + int(show['confidence'])
    ctx.check(len(lines) == want and len(colls) == int(show['carpet']) and len(patches) == (len(qq) if show['confidence'] else 0), 'panel-components',
              lines=len(lines), collections=len(colls), patches=len(patches), show=show, source=source)
    if len(lines) != want:
        return
    if show['density']:
        xx, yy = axis_values(lines[0], rotate)
        good = np.ones(xx.size, dtype=bool)
        rr = None if reflect is None else [reflect[pp]]
        dens, good = ref.kde_density(xx[None, :], vals[None, :], mat[pp:pp + 1, pp:pp + 1], kernel, ww, reflect=rr, edge=1e-5)
        if rr is not None and rr[0] is not None:
            for loc in rr[0]:
                if loc is not None:
                    good &= np.abs(xx - loc) > 1e-9 * max(abs(loc), np.sqrt(mat[pp, pp]))
        if kernel not in ('box',) and rr is None:
            good[:] = True
        dens = dens / (num if ww is None else ww.sum())
        ctx.close(yy[good], dens[good], 'panel-density', rtol=1e-7, atol=1e-9 * dens.max() + 1e-300, param=pp, rotate=rotate)
        ctx.check(np.array_equal(xx, edges) if edges is not None else (np.all(np.diff(xx) > 0)), 'panel-density-positions', param=pp)
    if show['hist']:
        hx, hy = axis_values(lines[1 if show['density'] else 0], rotate)
        got = np.append(hx[::2], hx[-1])
        cnt = c20.count1(vals, ww, got)
        dens = cnt / np.diff(got) / (num if ww is None else ww.sum())
        near = np.abs(vals[:, None] - got[None, :]).min(axis=1) <= 1e-12 * (np.abs(vals) + np.ptp(got))
        if near.sum() <= 2:
            ctx.close(hy[::2], dens, 'panel-hist1d', rtol=1e-9, atol=1e-9 * dens.max(), param=pp, weighted=ww is not None)
        else:
            ctx.check(abs(np.sum(hy[::2] * np.diff(got)) - cnt.sum() / (num if ww is None else ww.sum())) < 1e-6, 'panel-hist1d-total')
    if show['confidence']:
        med = [ll for ll in lines if np.unique(axis_values(ll, rotate)[0]).size == 1]
        wone = np.ones(num) if ww is None else ww
        if ctx.check(len(med) >= 1, 'panel-bands', medians=len(med)):
            ok, _ = c21.side(vals, wone, float(axis_values(med[-1], rotate)[0][0]), 0.5)
            ctx.check(ok, 'panel-bands', param=pp, rotate=rotate)
        bands = sorted([c21.band_of(bb, rotate) for bb in patches], key=lambda bb: bb[1] - bb[0])
        for (lo, hi), frac in zip(bands, np.sort(qq)):
            okl, _ = c21.side(vals, wone, lo, 0.5 - frac / 2)
            okh, _ = c21.side(vals, wone, hi, 0.5 + frac / 2)
            ctx.check(okl and okh, 'panel-bands', param=pp, rotate=rotate, fraction=frac)
    if show['carpet'] and len(colls) == 1:
        pos = np.asarray(colls[0].get_offsets())[:, 1 if rotate else 0]
        ctx.check(pos.size == num and np.array_equal(np.sort(pos), np.sort(vals)), 'panel-carpet', param=pp, rotate=rotate, got=pos.size, want=num)


def check_off(ctx, panel, pj, pi, data, mat, kernel, ww, edges, show, reflect, source):
    """One off-diagonal panel: parameter `pj` along x, `pi` along y."""
    vx, vy = data[pj], data[pi]
    num = vx.size
    lines, colls = panel.lines(), panel.colls()
    scat = [cc for cc in colls if is_scatter(cc)]
    mesh = [cc for cc in colls if hasattr(cc, 'get_coordinates')]
    cont = [cc for cc in colls if hasattr(cc, 'levels') and not getattr(cc, 'filled', False)]
    ctx.check(len(scat) == int(show['scatter']) and len(mesh) == int(show['hist']) and len(cont) == int(show['contour']), 'panel-components',
              scatter=len(scat), mesh=len(mesh), contour=len(cont), show=show, source=source)
    if len(scat) == 1:
        off = np.asarray(scat[0].get_offsets())
        want = np.array([vx, vy]).T
        ok = off.shape == want.shape and np.array_equal(off[np.lexsort(off.T)], want[np.lexsort(want.T)])
        ctx.check(ok, 'panel-scatter', panel=[pi, pj], got=off.shape, want=want.shape)
    if len(mesh) == 1:
        ex, ey, vals, _ = c20.mesh_of(mesh[0])
        given = edges is None or (np.allclose(ex, edges[pj], rtol=1e-12, atol=0) and np.allclose(ey, edges[pi], rtol=1e-12, atol=0))
        ctx.check(given, 'panel-hist2d-edges', panel=[pi, pj])
        cnt, want = c20.expected2(np.array([vx, vy]), ww, [ex, ey])
        near = [(np.abs(vv[:, None] - ee[None, :]).min(axis=1) <= 1e-12 * (np.abs(vv) + np.ptp(ee))).sum() for vv, ee in zip((vx, vy), (ex, ey))]
        if max(near) <= 2 and cnt.sum() > 0 and vals.shape == want.shape:
            shown = ~np.isnan(vals)
            # masked cells (below the lowest contour) are those of least density
            okay = np.all(np.abs(vals - want)[shown] <= 1e-9 * want.max())
            hid = want[~shown]
            okay = okay and (not hid.size or not shown.any() or hid.max() <= want[shown].min() * (1 + 1e-9))
            ctx.check(okay, 'panel-hist2d', panel=[pi, pj], weighted=ww is not None, cells=want.size)
        else:
            ctx.check(vals.shape == want.shape, 'panel-hist2d-shape')
    if len(cont) == 1:
        verts = np.concatenate([np.asarray(pa.vertices) for pa in cont[0].get_paths()] or [np.zeros((0, 2))])
        for ax_vals, got, par in ((vx, verts[:, 0], pj), (vy, verts[:, 1], pi)):
            reach = 12 * np.sqrt(mat[par, par]) + 0.8 * np.ptp(ax_vals)
            ctx.check(not got.size or (got.min() >= ax_vals.min() - reach and got.max() <= ax_vals.max() + reach), 'panel-contour', panel=[pi, pj], param=par)
        if verts.shape[0] > 3 and kernel == 'gaussian' and reflect is None:
            # along each line, the joint density of this very pair is (nearly) constant: lines of different levels are in order
            levs, dens = np.asarray(cont[0].levels), []
            sub = np.ix_([pj, pi], [pj, pi])
            for path in cont[0].get_paths():
                vv = np.asarray(path.vertices)
                if len(vv) < 3:
                    dens.append(np.nan)
                    continue
                dd, _ = ref.kde_density(vv.T, np.array([vx, vy]), mat[sub], kernel, ww)
                dens.append(np.median(dd))
            dens = np.array(dens) / (num if ww is None else ww.sum())
            use = np.isfinite(dens)
            if use.sum() > 1:
                ctx.check(np.all(np.diff(dens[use]) > -1e-3 * np.nanmax(dens)), 'panel-contour', panel=[pi, pj], levels=levs, density=dens)
    straight = []
    for ll in lines:
        xx, yy = axis_values(ll)
        if xx.size == 2 and (xx[0] == xx[1]) != (yy[0] == yy[1]):
            straight.append((0, xx[0]) if xx[0] == xx[1] else (1, yy[0]))
    if ctx.check(len(straight) == (2 if show['median'] else 0), 'panel-median', got=len(straight), panel=[pi, pj]) and show['median']:
        for axis, loc in straight:
            vals = (vx, vy)[axis]
            ok, _ = c21.side(vals, np.ones(num) if ww is None else ww, float(loc), 0.5)
            ctx.check(ok, 'panel-median', panel=[pi, pj], axis=axis, loc=loc)
        ctx.check(sorted(aa for aa, _ in straight) == [0, 1], 'panel-median', panel=[pi, pj])


def check_layout(ctx, corner, dim, origin, labels, own_axes):
    axes = corner.axes
    if not ctx.check(np.shape(axes) == (dim, dim), 'layout', got=np.shape(axes)):
        return
    for (ii, jj), ax in np.ndenumerate(axes):
        ctx.check(ax.get_visible() == (jj <= ii), 'layout-visible', panel=[ii, jj])
    if own_axes and dim > 1:
        # the corner (last row, first column) is at the given origin
        box = [[axes[ii, jj].get_position().bounds for jj in range(dim)] for ii in range(dim)]
        x0 = np.array([[bb[0] for bb in row] for row in box])
        y0 = np.array([[bb[1] for bb in row] for row in box])
        okx = np.all(np.diff(x0, axis=1) > 0) if origin[1] == 'l' else np.all(np.diff(x0, axis=1) < 0)
        oky = np.all(np.diff(y0, axis=0) > 0) if origin[0] == 't' else np.all(np.diff(y0, axis=0) < 0)
        ctx.check(okx and oky, 'layout', origin=origin)
    if labels is not None:
        for jj in range(dim):
            last = axes[dim - 1, jj]
            got = last.get_xlabel()
            if jj < dim - 1:
                ctx.check(got == labels[jj], 'layout-labels', panel=[dim - 1, jj], got=got, want=labels[jj])
            ctx.check(got in ('', labels[jj]), 'layout-labels', got=got)
            if jj > 0:
                ctx.check(axes[jj, 0].get_ylabel() == labels[jj], 'layout-labels', panel=[jj, 0], got=axes[jj, 0].get_ylabel(), want=labels[jj])
        for ii in range(dim - 1):
            for jj in range(ii + 1):
                ctx.check(axes[ii, jj].get_xlabel() == '', 'layout-labels', panel=[ii, jj])


def panel_limits(corner, dim, rotate):
    """For each parameter, the limits of every panel showing it."""
    out = [[] for _ in range(dim)]
    for (ii, jj), ax in np.ndenumerate(corner.axes):
        if jj > ii:
            continue
        if ii == jj:
            out[ii].append(ax.get_ylim() if (rotate and ii == dim - 1) else ax.get_xlim())
        else:
            out[jj].append(ax.get_xlim())
            out[ii].append(ax.get_ylim())
    return [np.array(oo, dtype=float) for oo in out]


def check_limits(ctx, corner, dim, rotate, want, key='limits-values', contain=None):
    lims = panel_limits(corner, dim, rotate)
    for pp in range(dim):
        ctx.check(np.all(lims[pp] == lims[pp][0]), 'limits-shared', param=pp, got=lims[pp])
        if want is not None:
            tol = 1e-9 * max(np.ptp(want[pp]), 1e-6 * np.abs(want[pp]).max())
            ctx.check(np.all(np.abs(lims[pp][0] - want[pp]) <= tol), key, param=pp, got=lims[pp][0], want=want[pp])
        if contain is not None and contain[pp] is not None:
            ctx.check(lims[pp][0][0] <= contain[pp][0] and lims[pp][0][1] >= contain[pp][1], 'limits-contain', param=pp, got=lims[pp][0], want=contain[pp])


def stretched(lo, hi, fac=0.05):
    return np.array([lo - fac * (hi - lo), hi + fac * (hi - lo)])


def case_corner(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2, 3, 3, 4])
    rotate = bool(rng.random() < 0.6)
    origin = gen.pick(rng, ['tl', 'tl', 'bl', 'tr', 'br', 'BR'])
    labels = ['p%d' % pp for pp in range(dim)] if rng.random() < 0.6 else None
    own = rng.random() < 0.8
    start = gen.pick(rng, ['int', 'int', 'data', 'kde'])
    rounds = int(rng.integers(1, 4))
    limits = None
    first, centre = make_data(rng, dim)
    if rng.random() < 0.3:
        wid = np.ptp(first, axis=1)
        limits = np.array([first.min(axis=1) + rng.uniform(-0.5, 0.3, size=dim) * wid, first.max(axis=1) + rng.uniform(-0.3, 0.5, size=dim) * wid]).T
        limits = limits.tolist() if rng.random() < 0.5 else limits
    keep_limits = None if limits is None else np.array(limits, dtype=float)
    shared = limits is not None and rng.random() < 0.25
    if shared:
        # a single pair for all of the parameters
        pair = [float(keep_limits[:, 0].min()), float(keep_limits[:, 1].max())]
        keep_limits = np.array([pair] * dim)
        limits = gen.pick(rng, [pair, tuple(pair), np.array(pair)])
    ctx.note(shared=shared, dim=dim, rotate=rotate, origin=origin, labels=labels is not None, own_axes=own, start=start, rounds=rounds, limits=limits is not None)
    ctx.state('corner', dim, rotate, origin, start, rounds, limits is not None, shared)
    corner = None
    made = []
    try:
        span = None if limits is None else keep_limits.copy()
        contain = [None] * dim
        for turn in range(rounds):
            data = first if turn == 0 else make_data(rng, dim, centre=centre, spread=np.ptp(first, axis=1))[0]
            ww = gen.weights(rng, data.shape[1], gen.pick(rng, ['none', 'none', 'uniform', 'heavy', 'ints']))
            if not gen.well_conditioned(data, ww):
                raise Skip
            method = gen.pick(rng, ['plot', 'clean', 'hist', 'plot_kde', 'plot_data'] + (['corner'] if turn == 0 and own and start != 'int' else []))
            as_kde = rng.random() < 0.5 or (start == 'kde' and turn == 0)
            kernel, reflect = 'gaussian', None
            kw, mat, bkind = {}, ref.weighted_cov(data, ww) * ref.scott(ref.neff(data.shape[1], ww), dim)**2, 'default'
            if as_kde:
                kernel = gen.pick(rng, ref.KERNELS)
                kw, mat, bkind = gen.smoothing(rng, dim, data, ww, kinds=['default', 'silverman', 'scalar', 'vector', 'rescale'])
                if rng.random() < 0.25:
                    reflect = c03.bounds_for(rng, data)
            mat = np.atleast_2d(mat)
            src = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw) if as_kde else (data.tolist() if rng.random() < 0.2 else data.copy())
            src_kw = {} if (as_kde or ww is None) else dict(weights=ww)
            edges, ehow = spec_edges(rng, data)
            dist1d, dist2d = {}, {}
            show1, show2 = [dict(dd) for dd in METHODS[method]]
            if rng.random() < 0.4:
                for name in show1:
                    if rng.random() < 0.3:
                        dist1d[name] = show1[name] = bool(rng.random() < 0.5)
                for name in show2:
                    if rng.random() < 0.3:
                        dist2d[name] = show2[name] = bool(rng.random() < 0.5)
            qq = gen.pick(rng, [None, [0.5], [0.3, 0.6, 0.9]])
            args = dict(dist1d=dist1d, dist2d=dist2d)
            if edges is not None:
                args['edges'] = edges
            if qq is not None:
                args['quantiles'] = qq
            if rng.random() < 0.2:
                args['color'] = 'r'
            limit = None
            if limits is not None and rng.random() < 0.4:
                limit = args['limit'] = True
            stored = turn == 0 and start != 'int'
            kwcorner = dict(origin=origin, rotate=rotate)
            if limits is not None:
                kwcorner['limits'] = limits
            if turn == 0:
                init = {'int': dim}.get(start, src)
                if not own:
                    fig, axs = plt.subplots(nrows=dim, ncols=dim, squeeze=False)
                    kwcorner['axes'] = axs
                if stored and not as_kde and ww is not None:
                    kwcorner['weights'] = ww
                if method == 'corner':
                    corner, _ = kale.corner(init, labels=labels, kwcorner=kwcorner, **args)
                    panels = None
                else:
                    corner = kale.Corner(init, labels=labels, **kwcorner)
                    if not own:
                        ctx.check(all(corner.axes[ij] is axs[ij] for ij in np.ndindex(dim, dim)), 'layout-own-axes')
                check_layout(ctx, corner, dim, origin.lower(), labels, own)
                if limits is not None and method != 'corner':
                    check_limits(ctx, corner, dim, rotate, keep_limits, key='limits-given')
            if method != 'corner' or turn > 0:
                panels = {ij: Panel(ax) for ij, ax in np.ndenumerate(corner.axes)}
                if method in ('plot', 'clean', 'hist', 'plot_kde', 'plot_data'):
                    func = getattr(corner, method)
                    if stored:
                        func(**args)
                    else:
                        func(src, **src_kw, **args)
                ctx.count('plots')
                for ij, pan in panels.items():
                    now = pan.all()
                    ctx.check(all(any(aa is bb for bb in now) for aa in pan.keep), 'earlier-artists', panel=list(ij))
                    made.append(len(now))
            else:
                panels = {}
                for ij, ax in np.ndenumerate(corner.axes):
                    panels[ij] = Panel(ax)
                    panels[ij].seen = set()
            # ---- what is shown
            qlev = [0.5] if qq == [0.5] else ([0.3, 0.6, 0.9] if qq else (1 - np.exp(-0.5 * np.array([0.5, 1.0, 1.5, 2.0])**2)).tolist())
            wshow = ww
            for (ii, jj), pan in panels.items():
                source = [method, turn, 'kde' if as_kde else 'data']
                earr = edges if ehow == 'arrays' else None
                if ii == jj:
                    rot = rotate and ii == dim - 1
                    check_diag(ctx, pan, rot, jj, data[jj], data, mat if method not in ('hist', 'plot_data') or not show1['density'] else
                               np.diag([ref.weighted_cov(dd, ww)[0, 0] * ref.scott(ref.neff(dd.size, ww), 1)**2 for dd in data]),
                               kernel if method not in ('hist', 'plot_data') else 'gaussian', wshow, None if earr is None else earr[jj], show1, qlev,
                               reflect if method not in ('hist', 'plot_data') else None, source)
                elif jj < ii:
                    sub_mat = mat
                    skern, srefl = kernel, reflect
                    if method in ('hist', 'plot_data'):
                        sub_mat = ref.weighted_cov(data, ww) * ref.scott(ref.neff(data.shape[1], ww), 2)**2
                        skern, srefl = 'gaussian', None
                    check_off(ctx, pan, jj, ii, data, sub_mat, skern, wshow, earr, show2, srefl, source)
                else:
                    ctx.check(not pan.lines() and not pan.colls() and not pan.patches(), 'panel-empty', panel=[ii, jj])
            # ---- limits
            by_data = method in ('hist', 'plot_data')
            new = None
            if limits is None or limit:
                new = []
                for pp in range(dim):
                    if by_data:
                        lo, hi = data[pp].min(), data[pp].max()
                    elif ehow == 'arrays':
                        lo, hi = edges[pp][0], edges[pp][-1]
                    else:
                        ee = kale.utils.parse_edges(data, edges=edges)[pp]
                        lo, hi = ee[0], ee[-1]
                    new.append(stretched(lo, hi))
                    # data within the range of evaluation
                    inc = (data[pp].min(), data[pp].max()) if (by_data or ehow != 'arrays') else (lo, hi)
                    contain[pp] = inc if contain[pp] is None else (min(contain[pp][0], inc[0]), max(contain[pp][1], inc[1]))
                new = np.array(new)
                span = new if span is None else np.array([np.minimum(span[:, 0], new[:, 0]), np.maximum(span[:, 1], new[:, 1])]).T
            check_limits(ctx, corner, dim, rotate, span, key='limits-given' if new is None else 'limits-values', contain=contain)
            if limits is not None:
                ctx.check(np.array_equal(np.array(limits, dtype=float), keep_limits[0] if shared else keep_limits), 'limits-unchanged')
        targets(ctx, corner, dim, rotate, centre)
    finally:
        plt.close('all')


def targets(ctx, corner, dim, rotate, centre):
    """Target values and limits are marked in every panel of their parameter."""
    rng = ctx.rng
    if rng.random() < 0.35:
        return
    lims = [ll[0] for ll in panel_limits(corner, dim, rotate)]

    def draw():
        return [None if rng.random() < 0.25 else float(ll[0] + rng.uniform(0.1, 0.9) * (ll[1] - ll[0])) for ll in lims]

    val = draw()
    up = draw() if rng.random() < 0.5 else None
    low = draw() if rng.random() < 0.5 else None
    kw = dict(color='b') if rng.random() < 0.3 else {}
    panels = {ij: Panel(ax) for ij, ax in np.ndenumerate(corner.axes)}
    corner.target(np.array(val) if (None not in val and rng.random() < 0.3) else val, upper_limits=up, lower_limits=low, **kw)
    for (ii, jj), pan in panels.items():
        if jj > ii:
            ctx.check(not pan.lines() and not pan.patches(), 'target-lines', panel=[ii, jj])
            continue
        if ii == jj:
            want = [(1 if (rotate and ii == dim - 1) else 0, jj)]
        else:
            want = [(0, jj), (1, ii)]
        lines = []
        for ll in pan.lines():
            xx, yy = axis_values(ll)
            lines.append((0, float(xx[0])) if xx[0] == xx[1] and not (yy[0] == yy[1]) else (1, float(yy[0])))
        expect = sorted((axis, val[pp]) for axis, pp in want if val[pp] is not None)
        ctx.check(sorted(lines) == expect, 'target-lines', panel=[ii, jj], got=sorted(lines), want=expect)
        spans = []
        for patch in pan.patches():
            (x0, x1), (y0, y1) = c21.band_of(patch, False), c21.band_of(patch, True)
            # spans extend over the whole of the other axis (axes coordinates 0 to 1)
            spans.append((0, x0, x1) if (y0, y1) == (0, 1) else (1, y0, y1))
        expect = [(axis, lims[pp][0], up[pp]) for axis, pp in want if up is not None and up[pp] is not None]
        expect += [(axis, low[pp], lims[pp][1]) for axis, pp in want if low is not None and low[pp] is not None]
        ok = len(spans) == len(expect) and all(
            aa[0] == bb[0] and np.allclose(aa[1:], bb[1:], rtol=1e-9, atol=1e-9 * abs(bb[2] - bb[1])) for aa, bb in zip(sorted(spans), sorted(expect)))
        ctx.check(ok, 'target-spans', panel=[ii, jj], got=sorted(spans), want=sorted(expect))
    # marking does not change the limits
    check_limits(ctx, corner, dim, rotate, np.array(lims), key='target-limits')


KINDS = {'corner': (case_corner, 160, 2400)}
