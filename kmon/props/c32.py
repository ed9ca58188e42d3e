"""C32: everything drawn of a dataset has the colour of the dataset, and each dataset has its own."""
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
import kalepy as kale

from .. import gen

RULE = ("random sequences of plotting calls on axes (and Corners) with a colour cycle of their own; the colours of all new artists, of the returned handles and of "
        "legends are read back and compared with the colour given, the midpoint of the colormap given, or the next unused colour of the cycle")
ASSUMPTIONS = ["colours are compared without transparency", "contours of a given colormap may use a part of it, to within 0.06 (it is sampled)",
               "the colormap built for a colour is only required to have its hue, and to be the same each time"]
MIN_VERDICTS = {'artist-colour': 400, 'next-colour': 150, 'given-colormap': 40, 'colormap-of-colour': 40, 'legend-colour': 20, 'handle-colour': 100}

NAMED = ['r', 'b', 'tab:purple', 'forestgreen', '#a01fe4', 'xkcd:teal', 'C3', (0.9, 0.3, 0.1), (0.1, 0.4, 0.9, 0.7), '#f80']


def own_cycle(rng, num):
    """Distinct, saturated colours."""
    hues = (np.arange(num) + rng.uniform(0.1, 0.4)) / num
    return [tuple(mpl.colors.hsv_to_rgb([hh % 1.0, rng.uniform(0.6, 0.95), rng.uniform(0.5, 0.9)])) for hh in rng.permutation(hues)]


def some_cmap(rng):
    """A colormap as it may be given, and what it stands for."""
    name = gen.pick(rng, ['viridis', 'plasma', 'Blues_r', 'coolwarm', 'own', 'object'])
    if name == 'own':
        obj = mpl.colors.LinearSegmentedColormap.from_list('own', [rng.uniform(0, 1, 3) for _ in range(3)])
        return obj, obj
    if name == 'object':
        obj = plt.get_cmap('cividis')
        return obj, obj
    return name, plt.get_cmap(name)


def some_style(rng, both=True):
    """Keyword arguments for the colours, and (colour, colormap) expected; colour None stands for the next one."""
    mode = gen.pick(rng, ['next', 'next', 'color'] + (['cmap', 'both'] if both else []))
    kw, col, cmap = {}, None, None
    if mode in ('color', 'both'):
        kw['color'] = gen.pick(rng, NAMED)
        col = kw['color']
    if mode in ('cmap', 'both'):
        kw['cmap'], cmap = some_cmap(rng)
        if col is None:
            col = cmap(0.5)
    return mode, kw, None if col is None else mpl.colors.to_rgb(col), cmap


def rgb(col):
    return np.asarray(mpl.colors.to_rgba_array(col))[:, :3]


def is_contour(art):
    return hasattr(art, 'levels') and hasattr(art, 'filled')


def colours_of(art):
    """The colours of one artist (without those that are invisible), or None if it shows values with a colormap."""
    if is_contour(art) or type(art).__name__ == 'QuadMesh':
        return None
    if isinstance(art, mpl.lines.Line2D):
        return rgb(art.get_color()) if len(art.get_xdata()) else np.zeros((0, 3))
    if isinstance(art, mpl.collections.PathCollection):
        return rgb(art.get_facecolor())
    if isinstance(art, mpl.patches.Patch):
        return rgb(art.get_facecolor())
    return np.zeros((0, 3))


def drawn(ax):
    return list(ax.lines) + list(ax.collections) + list(ax.patches)


def distance_to(cols, cmap):
    path = cmap(np.linspace(0, 1, 600))[:, :3]
    return np.array([np.sqrt(((path - cc)**2).sum(axis=1)).min() for cc in np.atleast_2d(cols)])


def hue_near(cmap, col):
    """The middle of the colormap has the hue of the colour (of saturated colours)."""
    have, want = mpl.colors.rgb_to_hsv(cmap(0.5)[:3]), mpl.colors.rgb_to_hsv(col)
    if want[1] < 0.3 or want[2] < 0.3:
        return True
    diff = abs(have[0] - want[0])
    return min(diff, 1 - diff) < 0.05


def check_new(ctx, new, col, cmap, made, **detail):
    """`new` artists of one call, for a dataset of colour `col`, given the colormap `cmap`; `made`: colormaps already seen of colours."""
    for art in new:
        kind = type(art).__name__
        cols = colours_of(art)
        if cols is not None:
            if len(cols):
                ctx.check(np.all(np.abs(cols - col) < 2.1 / 255), 'artist-colour', artist=kind, got=cols[0], want=col, **detail)
            continue
        if is_contour(art) and art.filled:
            # a white mask
            continue
        ctx.count('mapped', 1)
        have = art.get_cmap()
        sample = have(np.linspace(0, 1, 23))[:, :3]
        if cmap is None:
            if not is_contour(art):
                ctx.check(hue_near(have, col), 'colormap-of-colour', artist=kind, got=have(0.5), want=col, **detail)
            known = made.setdefault((kind, tuple(np.round(col, 6)), detail.get('call')), sample)
            if is_contour(art):
                lines = rgb(art.get_edgecolor())
                hsv = mpl.colors.rgb_to_hsv(col)
                if hsv[1] > 0.3 and hsv[2] > 0.3:
                    for ll in mpl.colors.rgb_to_hsv(lines):
                        diff = abs(ll[0] - hsv[0])
                        ctx.check(min(diff, 1 - diff) < 0.08 or ll[1] < 0.1 or ll[2] < 0.1, 'colormap-of-colour', artist=kind, got=ll, want=hsv, **detail)
            else:
                ctx.check(np.allclose(known, sample, atol=1e-9), 'colormap-repeats', artist=kind, **detail)
        elif is_contour(art):
            far = distance_to(rgb(art.get_edgecolor()), cmap)
            ctx.check(np.all(far < 0.06), 'given-colormap', artist=kind, far=far.max(), **detail)
        else:
            ctx.check(np.allclose(sample, cmap(np.linspace(0, 1, 23))[:, :3], atol=1e-6), 'given-colormap', artist=kind, got=have.name, want=cmap.name, **detail)


def handle_colour(hh):
    if isinstance(hh, mpl.lines.Line2D):
        return rgb(hh.get_color())[0]
    if isinstance(hh, mpl.patches.Patch) or isinstance(hh, mpl.collections.PathCollection):
        return rgb(hh.get_facecolor())[0]
    return None


def good_data(rng, dim):
    while True:
        data = gen.dataset(rng, dim, int(rng.integers(25, 60)), gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal']))
        ww = gen.weights(rng, data.shape[1], gen.pick(rng, ['none', 'none', 'uniform']))
        if gen.well_conditioned(data, ww):
            return data, ww


ONE = ['dist1d-kde', 'dist1d-data', 'confidence', 'carpet', 'hist1d', 'line']
TWO = ['dist2d-kde', 'dist2d-data', 'contour', 'hist2d']


def draw(rng, what, ax, data, ww, kw):
    """One call; returns the handle (if one is returned)."""
    target = dict(ax=ax)
    if rng.random() < 0.2 and what != 'line':
        plt.sca(ax)
        target = {}
    yes = lambda prob=0.5: bool(rng.random() < prob)     # noqa
    if what == 'dist1d-kde':
        opts = {nn: yes() for nn in ('density', 'confidence', 'hist', 'carpet')}
        return opts, kale.dist1d(kale.KDE(data, weights=ww), param=0, rotate=yes(0.3), **opts, **target, **kw)
    if what == 'dist1d-data':
        opts = {nn: yes() for nn in ('density', 'confidence', 'hist', 'carpet')}
        return opts, kale.dist1d(data[0], weights=ww, rotate=yes(0.3), **opts, **target, **kw)
    if what == 'confidence':
        return {}, kale.confidence(data[0], weights=ww, median=yes(), quantiles=[0.4, 0.8], **target, **kw)
    if what == 'carpet':
        return {}, kale.carpet(data[0], weights=ww, fancy=yes(), **target, **kw)[0]
    if what == 'hist1d':
        return {}, kale.hist1d(data[0], weights=ww, joints=yes(), density=yes(), **target, **kw)[2]
    if what == 'line':
        return {}, ax.plot(np.sort(data[0]), np.arange(data.shape[1]), **kw)[0]
    if what.startswith('dist2d'):
        opts = dict(scatter=yes(), contour=yes(), hist=yes(), median=yes(), outline=yes())
        if what == 'dist2d-kde':
            return opts, kale.dist2d(kale.KDE(data, weights=ww), **opts, **target, **kw)
        return opts, kale.dist2d(data, weights=ww, **opts, **target, **kw)
    if what == 'contour':
        kale.contour(data, weights=ww, **target, **kw)
        return {}, None
    kale.hist2d(data, weights=ww, **target, **kw)
    return {}, None


def case_axes(ctx):
    """Calls on one or two axes; each call without colours uses exactly one colour of the cycle of its axes."""
    rng = ctx.rng
    naxes = int(rng.integers(1, 3))
    fig, axes = plt.subplots(ncols=naxes, squeeze=False)
    cycles, index, made = [], [0] * naxes, {}
    log = []
    try:
        for ax in axes[0]:
            cycles.append(own_cycle(rng, int(rng.integers(4, 8))))
            ax.set_prop_cycle(color=cycles[-1])
        for _ in range(int(rng.integers(4, 8))):
            which = int(rng.integers(naxes))
            ax = axes[0][which]
            two = rng.random() < 0.45
            what = gen.pick(rng, TWO if two else ONE)
            data, ww = good_data(rng, 2)
            mode, kw, col, cmap = some_style(rng, both=two)
            if what == 'hist2d':
                # a histogram has a colormap only
                kw.pop('color', None)
                if cmap is None:
                    kw, mode = {}, 'default'
            log.append((which, what, mode))
            if mode == 'next':
                col = cycles[which][index[which] % len(cycles[which])]
                index[which] += 1
            before = [id(aa) for aa in drawn(ax)]
            others = [len(drawn(oo)) for oo in axes[0]]
            opts, handle = draw(rng, what, ax, data, ww, kw)
            ctx.state(what, mode)
            new = [aa for aa in drawn(ax) if id(aa) not in before]
            detail = dict(call=what, mode=mode, options=opts)
            for ii, oo in enumerate(axes[0]):
                ctx.check(ii == which or len(drawn(oo)) == others[ii], 'right-axes', **detail)
            if mode == 'default':
                continue
            if what == 'hist2d' and cmap is None:
                continue
            if mode == 'next':
                solid = [colours_of(aa) for aa in new]
                solid = [cc for cc in solid if cc is not None and len(cc)]
                for cc in solid:
                    ctx.check(np.all(np.abs(cc - col) < 2.1 / 255), 'next-colour', got=cc[0], want=col, earlier=log[:-1], **detail)
            check_new(ctx, new, np.asarray(col), cmap, made, **detail)
            if handle is not None and not (what.startswith('dist2d') and not opts['scatter']):
                hc = handle_colour(handle)
                if not what.startswith('dist2d'):
                    ctx.check(hc is not None, 'handle-artist', got=type(handle).__name__, **detail)
                if hc is not None:
                    ctx.check(np.all(np.abs(hc - col) < 2.1 / 255), 'handle-colour', got=hc, want=col, **detail)
    finally:
        plt.close('all')
    ctx.note(log=log)


def case_corner(ctx):
    """Datasets drawn on a Corner one after the other, and its legend."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3, 4])
    cycle = own_cycle(rng, int(rng.integers(4, 8)))
    made, log, handles, labels, want = {}, [], [], [], []
    index = 0
    try:
        with plt.rc_context({'axes.prop_cycle': mpl.cycler(color=cycle)}):
            corner = kale.Corner(dim, rotate=bool(rng.random() < 0.5), origin=gen.pick(rng, ['tl', 'bl', 'tr', 'br']))
            for _ in range(int(rng.integers(2, 5))):
                data, ww = good_data(rng, dim)
                if log and rng.random() < 0.25:
                    # marks of targets have a colour of their own, and take none of the cycle
                    before = {pos: [id(aa) for aa in drawn(ax)] for pos, ax in np.ndenumerate(corner.axes)}
                    tkw = gen.pick(rng, [{}, {'color': '0.3'}])
                    corner.target(list(data[:, 0]), **tkw)
                    log.append('target')
                    for pos, ax in np.ndenumerate(corner.axes):
                        new = [aa for aa in drawn(ax) if id(aa) not in before[pos]]
                        check_new(ctx, new, np.asarray(mpl.colors.to_rgb(tkw.get('color', 'red'))), None, made, call='target')
                what = gen.pick(rng, ['plot', 'clean', 'hist', 'plot_kde', 'plot_data'])
                mode, kw, col, cmap = some_style(rng)
                if mode == 'next':
                    col = cycle[index % len(cycle)]
                    index += 1
                if rng.random() < 0.4:
                    kw['dist1d'] = {nn: bool(rng.random() < 0.6) for nn in ('density', 'confidence', 'carpet', 'hist')}
                    kw['dist2d'] = {nn: bool(rng.random() < 0.6) for nn in ('scatter', 'hist', 'contour', 'median')}
                log.append((what, mode))
                ctx.state(what, mode, dim)
                before = {pos: [id(aa) for aa in drawn(ax)] for pos, ax in np.ndenumerate(corner.axes)}
                obj = data if what in ('hist', 'plot_data') or rng.random() < 0.5 else kale.KDE(data, weights=ww)
                if obj is data:
                    kw['weights'] = ww
                handle = getattr(corner, what)(obj, **kw)
                for (ii, jj), ax in np.ndenumerate(corner.axes):
                    new = [aa for aa in drawn(ax) if id(aa) not in before[ii, jj]]
                    detail = dict(call=what, mode=mode, panel='diagonal' if ii == jj else 'pair', options=[kw.get('dist1d'), kw.get('dist2d')])
                    if mode == 'next':
                        for aa in new:
                            cc = colours_of(aa)
                            if cc is not None and len(cc):
                                ctx.check(np.all(np.abs(cc - col) < 2.1 / 255), 'next-colour', got=cc[0], want=col, earlier=log[:-1], **detail)
                    check_new(ctx, new, np.asarray(col), cmap, made, **detail)
                if handle is not None:
                    hc = handle_colour(handle)
                    if ctx.check(hc is not None, 'handle-colour', got=type(handle).__name__):
                        ctx.check(np.all(np.abs(hc - col) < 2.1 / 255), 'handle-colour', got=hc, want=col, call=what, mode=mode)
                        handles.append(handle)
                        labels.append('set {} {}'.format(len(labels), int(rng.integers(1000))))
                        want.append(col)
            if handles:
                leg = corner.legend(handles, labels)
                ctx.check([tt.get_text() for tt in leg.get_texts()] == labels, 'legend-labels', got=[tt.get_text() for tt in leg.get_texts()], want=labels)
                shown = [handle_colour(hh) for hh in getattr(leg, 'legend_handles', getattr(leg, 'legendHandles', []))]
                shown = [cc for cc in shown if cc is not None]
                ctx.check(len(shown) == len(want) and np.all(np.abs(np.array(shown) - np.array(want)) < 2.1 / 255), 'legend-colour', got=shown, want=want)
                ctx.check(leg in corner.fig.legends, 'legend-labels')
    finally:
        plt.close('all')
    ctx.note(log=log, dim=dim)


def case_bar(ctx):
    """Contour levels marked on a colorbar are those drawn, in the colours of the contours."""
    rng = ctx.rng
    data, ww = good_data(rng, 2)
    fig, ax = plt.subplots()
    try:
        edges = [np.linspace(dd.min(), dd.max(), int(rng.integers(8, 14))) for dd in data]
        bar_cmap = plt.get_cmap('Greys')
        orient = gen.pick(rng, ['vertical', 'horizontal'])
        cbar = fig.colorbar(mpl.cm.ScalarMappable(cmap=bar_cmap), ax=ax, orientation=orient)
        before = [id(aa) for aa in cbar.ax.lines]
        gave, cmap = some_cmap(rng)
        qq = np.sort(rng.uniform(0.2, 0.95, size=int(rng.integers(1, 4))))
        ctx.note(orient=orient, fractions=qq)
        ctx.state('bar', orient, len(qq))
        cont = kale.contour(data, edges=edges, weights=ww, ax=ax, cmap=gave, quantiles=qq, cbar=cbar)[-1]
        new = [aa for aa in cbar.ax.lines if id(aa) not in before]
        locs, cols = [], []
        for aa in new:
            use = np.asarray(aa.get_ydata() if orient == 'vertical' else aa.get_xdata(), dtype=float)
            if np.ptp(use) == 0:
                locs.append(use[0])
                cols.append(rgb(aa.get_color())[0])
        want = np.unique(cont.levels)
        if not ctx.check(len(np.unique(locs)) == len(want) and np.allclose(np.unique(locs), want, rtol=1e-9), 'bar-levels', got=locs, want=want):
            return
        lines = rgb(cont.get_edgecolor())
        if len(lines) == len(want) > 1:
            for loc, cc in zip(locs, cols):
                kk = int(np.argmin(np.abs(want - loc)))
                ctx.check(np.all(np.abs(cc - lines[kk]) < 2.1 / 255), 'bar-colours', got=cc, want=lines[kk])
    finally:
        plt.close('all')


KINDS = {
    'axes': (case_axes, 90, 1500),
    'corner': (case_corner, 26, 350),
    'bar': (case_bar, 50, 800),
}
