"""C34: the components of a plot are independent, and options do what they are documented to do, to their components only."""
import collections
import warnings

import matplotlib.colors
import matplotlib.contour
import matplotlib.pyplot as plt
import numpy as np
import kalepy as kale

from .. import gen
from ..core import Skip
from .c22 import props_of, rec

RULE = ("random data and options are drawn with random sets of components switched on; everything drawn (all artists, with data and style) must be the union of what the "
        "components draw alone; each option is varied by itself, and what changed (and how) is compared with its description; equivalent spellings must draw the same picture")
ASSUMPTIONS = ["colours are given (which colour is next is decided by C32); numpy's random stream is reseeded before each call",
               "the limits of the axes are fixed, as the height of carpets follows them"]
MIN_VERDICTS = {'union-1d': 40, 'union-2d': 40, 'option-1d': 150, 'option-2d': 80, 'spelling': 150, 'corner-panels': 60}


def drawn(ax):
    """Everything visible on the axes (not the lines without any points, which are handles for legends)."""
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # (matplotlib splits contours into paths as soon as these are accessed; which looks the same)
        for art in list(ax.collections):
            getattr(art, 'collections', None)
    for art in list(ax.lines) + list(ax.collections) + list(ax.patches) + list(ax.texts):
        if isinstance(art, matplotlib.contour.ContourSet):
            continue
        if hasattr(art, 'get_xdata') and np.size(art.get_xdata()) == 0:
            continue
        out.append(art)
    return out


def picture(ax):
    return collections.Counter(repr(props_of(art)) for art in drawn(ax))


def blank(lims=None):
    fig, ax = plt.subplots()
    if lims is not None:
        ax.set(xlim=lims[0], ylim=lims[1])
    return fig, ax


def setup(rng, dim):
    num = int(rng.integers(10, 200))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'ints', 'offset'])
    while True:
        data = gen.dataset(rng, dim, num, style)
        ww = gen.weights(rng, num, gen.pick(rng, ['none', 'none', 'uniform', 'heavy', 'ints']))
        if gen.well_conditioned(data, ww) and (ww is None or np.count_nonzero(ww > 0) > 4):
            break
        style = 'normal'
    return data, ww, style


def limits(data):
    lims = [[dd.min() - 0.2 * np.ptp(dd), dd.max() + 0.3 * np.ptp(dd)] for dd in data]
    return lims if len(lims) > 1 else [lims[0], [-0.3, 1.7]]


def draw(func, src, lims, seed, **kw):
    """Picture of one call on axes of its own, or what it raised."""
    fig, ax = blank(lims)
    try:
        np.random.seed(seed)
        func(src, ax=ax, **kw)
        return picture(ax)
    finally:
        plt.close(fig)


def source(rng, data, ww, params=None):
    """The data to be plotted: as an estimate, or as they are."""
    if rng.random() < 0.5:
        return kale.KDE(data, weights=ww, bandwidth=float(rng.uniform(0.1, 0.5))), {}, True
    return (data if len(data) > 1 else data[0]), ({} if ww is None else dict(weights=ww)), False


def switch(rng, name, on):
    """Ways to write yes and no."""
    one, zero = ([], []) if name in ('carpet', 'scatter') else ([1], [0])
    return gen.pick(rng, [True, True, np.True_] + one) if on else gen.pick(rng, [False, False, np.False_] + zero)


ONE = ['density', 'hist', 'confidence', 'carpet']


def extras1(rng, kde):
    opts = {}
    if rng.random() < 0.4:
        opts['rotate'] = True
    if rng.random() < 0.3:
        opts['quantiles'] = gen.pick(rng, [[0.3], [0.2, 0.7], np.array([0.5, 0.9])])
    if rng.random() < 0.3:
        opts['probability'] = False
    if rng.random() < 0.3:
        opts['edges'] = int(rng.integers(3, 12))
    if rng.random() < 0.4:
        opts['lw'] = float(rng.uniform(0.5, 4))
    if rng.random() < 0.2:
        opts['zorder'] = int(rng.integers(1, 40))
    return opts


def case_union1(ctx):
    """One dimension: components add up."""
    rng = ctx.rng
    data, ww, style = setup(rng, 1)
    src, wkw, kde = source(rng, data, ww)
    base = dict(wkw, color=gen.pick(rng, ['r', '#123456', (0.1, 0.5, 0.3)]), ls=gen.pick(rng, ['-', ':', '--']), alpha=float(rng.uniform(0.2, 0.9)), **extras1(rng, kde))
    lims = limits(data)
    seed = int(rng.integers(1000))
    which = [nn for nn in ONE if rng.random() < 0.65] or ['hist']
    ctx.note(num=data.size, data=style, weighted=ww is not None, kde=kde, which=which, opts={kk: vv for kk, vv in base.items() if kk != 'weights'}, first=float(data[0, 0]))
    ctx.state(*which, kde, *sorted(kk for kk in base if kk != 'weights'))

    def call(names):
        return draw(kale.dist1d, src, lims, seed, **base, **{nn: switch(rng, nn, nn in names) for nn in ONE})
    parts = {nn: call([nn]) for nn in which}
    want = sum(parts.values(), collections.Counter())
    ctx.check(call(which) == want, 'union-1d', which=which)
    ctx.check(not call([]), 'nothing-1d')
    for nn in which:
        ctx.check(len(parts[nn]) >= 1, 'component-1d', name=nn)


TWO = ['median', 'scatter', 'contour', 'hist']


def extras2(rng):
    opts = {}
    for name, vals in dict(smooth=[0.7, 1.5], upsample=[2], pad=[False, True, 2], outline=[False], ls=[':', '--'], quantiles=[[0.3], [0.2, 0.8]], sigmas=[[1.0], [0.5, 2.0]],
                           mask_below=[False, 0.01], edges=[5, [4, 7]]).items():
        if rng.random() < 0.25 and not (name == 'sigmas' and 'quantiles' in opts):
            opts[name] = gen.pick(rng, vals)
    return opts


def case_union2(ctx):
    """Two dimensions: components add up."""
    rng = ctx.rng
    dim = int(gen.pick(rng, [2, 2, 3]))
    data, ww, style = setup(rng, dim)
    src, wkw, kde = source(rng, data, ww)
    params = [int(pp) for pp in rng.permutation(dim)[:2]]
    base = dict(wkw, color=gen.pick(rng, ['r', '#123456', (0.1, 0.5, 0.3)]), params=params, mask_dense=False, **extras2(rng))
    if rng.random() < 0.3:
        base['cmap'] = gen.pick(rng, ['viridis', 'Blues'])
    lims = limits(data[params])
    seed = int(rng.integers(1000))
    which = [nn for nn in TWO if rng.random() < 0.65] or ['contour']
    ctx.note(num=data.shape[1], data=style, weighted=ww is not None, kde=kde, which=which, opts={kk: vv for kk, vv in base.items() if kk != 'weights'}, first=float(data[0, 0]))
    ctx.state(*which, kde, *sorted(kk for kk in base if kk != 'weights'))

    def call(names):
        return draw(kale.dist2d, src, lims, seed, **base, **{nn: switch(rng, nn, nn in names) for nn in TWO})
    parts = {nn: call([nn]) for nn in which}
    want = sum(parts.values(), collections.Counter())
    got = call(which)
    ctx.check(got == want, 'union-2d', which=which)
    ctx.check(not call([]), 'nothing-2d')
    for nn in which:
        ctx.check(len(parts[nn]) >= 1, 'component-2d', name=nn)
    # masks lie between the points and the rest, and are there only when asked for (or points are drawn beneath something else)
    base.pop('mask_dense')
    auto = call(which)
    if 'scatter' not in which or not ({'contour', 'hist'} & set(which)):
        ctx.check(auto == want, 'mask-default', which=which)
    else:
        ctx.check(not (want - auto), 'mask-keeps-others', which=which)
        ctx.check(sum((auto - want).values()) <= 1, 'mask-only', which=which)
        ctx.check(auto == draw(kale.dist2d, src, lims, seed, mask_dense=True, **base, **{nn: nn in which for nn in TWO}), 'mask-default', which=which)


# ---- options: what they change

def style_of(art, name):
    if name == 'alpha':
        return art.get_alpha()
    if name == 'lw':
        return sorted(set(np.round(np.ravel(art.get_linewidth()), 9)))
    if name == 'ls':
        ls = art.get_linestyle()
        return ls if isinstance(ls, str) else repr(ls)
    if name == 'zorder':
        return art.get_zorder()
    if name == 'label':
        return art.get_label()
    return None


VALUES = {'alpha': [0.11, 0.37, 0.93, 1.0], 'lw': [0.3, 2.25, 7.0], 'ls': [':', '--', '-.', '-'], 'zorder': [1, 7, 33], 'label': ['this', 'a b'],
          'linewidth': [0.4, 3.25], 'marker': ['x', '^']}


def parts_of(ax):
    """Lines by their role: curves (many points) and straight ones."""
    lines = [ll for ll in ax.lines if np.size(ll.get_xdata()) > 2]
    return lines


def case_option1(ctx):
    """Curves, histograms, bands, contours and points take the style given."""
    rng = ctx.rng
    data, ww, style = setup(rng, 2)
    name = gen.pick(rng, ['alpha', 'lw', 'ls', 'zorder', 'label', 'linewidth'])
    val = gen.pick(rng, VALUES[name])
    what = gen.pick(rng, ['density', 'density', 'density+hist', 'density+hist', 'hist', 'hist1d', 'confidence', 'carpet', 'contour'])
    if what == 'contour' and name in ('linewidth', 'label'):
        raise Skip      # (not options of contours in matplotlib)
    num = data.shape[1]
    rotate = bool(rng.random() < 0.4)
    wkw = {} if ww is None else dict(weights=ww)
    opts = {name: val}
    ctx.note(num=num, data=style, weighted=ww is not None, what=what, name=name, value=val, rotate=rotate, first=float(data[0, 0]))
    ctx.state('option', what, name, val)
    fig, ax = plt.subplots()
    try:
        np.random.seed(3)
        if what in ('density', 'density+hist', 'hist'):
            src, kw = (kale.KDE(data[0], weights=ww), {}) if rng.random() < 0.5 else (data[0], wkw)
            ret = kale.dist1d(src, ax=ax, density='density' in what, hist='hist' in what, carpet=False, rotate=rotate, color='g', **kw, **opts)
            arts = list(ax.lines)
            ctx.check(len(arts) == 1 + ('+' in what), 'option-1d', lines=len(arts), what=what)
            ctx.check(ret is arts[0], 'option-1d', what=what, handle=True)
        elif what == 'hist1d':
            _, _, ret = kale.hist1d(data[0], ax=ax, rotate=rotate, joints=bool(rng.random() < 0.6), color='g', **wkw, **opts)
            arts = [ret]
        elif what == 'confidence':
            kale.confidence(data[0], ax=ax, rotate=rotate, median=bool(rng.random() < 0.5), color='g', **wkw, **opts)
            arts = list(ax.patches) + list(ax.collections)
            ctx.check(len(arts) > 0, 'option-1d', what=what)
        elif what == 'carpet':
            art, _ = kale.carpet(data[0], ax=ax, rotate=rotate, color='g', **wkw, **opts)
            arts = [art]
        else:
            kale.contour(data, ax=ax, outline=bool(rng.random() < 0.5), color='g', **wkw, **opts)
            arts = [cc for cc in ax.collections]
        key = {'linewidth': 'lw'}.get(name, name)
        plain, rax = plt.subplots()
        ref, = rax.plot([0, 1], [0, 1], **opts)
        rsc = rax.scatter([0, 1], [0, 1], **opts)
        rsp = rax.axvspan(0, 1, **opts)
        for art in arts:
            got = style_of(art, key)
            if key == 'lw':
                ctx.close(got, [val], 'option-1d', rtol=1e-9, what=what, name=name)
                continue
            if key == 'ls' and not hasattr(art, 'get_xdata'):
                if what == 'carpet':
                    want = style_of(rsc, key)
                elif what == 'confidence':
                    want = style_of(rsp, key)
                else:
                    # (patterns are scaled by line widths)
                    dashes = [pat for _, pat in art.get_linestyle()]
                    ctx.check(all((pat is None) == (val == '-') for pat in dashes), 'option-1d', what=what, name=name, got=repr(dashes))
                    continue
            else:
                want = style_of(ref, key) if hasattr(art, 'get_xdata') else val
            ctx.check(got == want, 'option-1d', what=what, name=name, got=got, want=want)
    finally:
        plt.close('all')


def case_option2(ctx):
    """Two-dimensional options change only their own component."""
    rng = ctx.rng
    data, ww, style = setup(rng, 2)
    src, wkw, kde = source(rng, data, ww)
    owner = {'smooth': 'contour', 'upsample': 'contour', 'pad': 'contour', 'outline': 'contour median', 'ls': 'contour median', 'mask_below': 'hist',
             'quantiles': 'contour hist', 'sigmas': 'contour hist', 'mask_alpha': 'mask', 'scatter': 'scatter', 'edges': 'hist'}
    name = gen.pick(rng, sorted(owner))
    val = gen.pick(rng, {'smooth': [0.8, 2.0], 'upsample': [2, 3], 'pad': [False, 3], 'outline': [False], 'ls': [':', '--'], 'mask_below': [False, 1e9],
                         'quantiles': [[0.45], [0.15, 0.35, 0.85]], 'sigmas': [[0.7], [0.4, 1.3]], 'mask_alpha': [0.21], 'scatter': [4], 'edges': [3, [4, 9]]}[name])
    base = dict(wkw, color='r', cmap='viridis')
    lims = limits(data)
    seed = int(rng.integers(1000))
    ctx.note(num=data.shape[1], data=style, weighted=ww is not None, kde=kde, name=name, value=val, first=float(data[0, 0]))
    ctx.state('option', name, str(val), kde)
    changed = []
    for comp in TWO + ['mask']:
        on = {nn: nn == comp for nn in TWO}
        if comp == 'mask':
            # (the mask without points, histogram or contours on view)
            if name in ('edges', 'quantiles', 'sigmas', 'smooth', 'upsample', 'pad'):
                continue
            on['mask_dense'] = True
        else:
            on['mask_dense'] = False
        old = draw(kale.dist2d, src, lims, seed, **base, **on)
        opt = dict(on)
        if name != 'scatter' or comp == 'scatter':
            opt[name] = val
        new = draw(kale.dist2d, src, lims, seed, **base, **opt)
        own = comp in owner[name].split()
        if not own:
            ctx.check(old == new, 'option-2d', component=comp, name=name, value=val)
        elif name == 'scatter':
            ctx.check(old != new, 'option-2d', component=comp, name=name, value=val, own=True)
        elif comp == owner[name].split()[0] and name not in ('mask_below', 'pad', 'mask_alpha', 'smooth'):
            changed.append(old != new)
    if changed:
        ctx.check(all(changed), 'option-2d', name=name, value=val, own=True)


# ---- spellings of the same

SAME1 = {
    'quantiles': [[[0.2, 0.7], (0.2, 0.7), np.array([0.2, 0.7]), np.array([0.2, 0.7])[::-1], [0.7, 0.2]], [[0.4], 0.4, np.array([0.4]), np.float32(0.4) * 0 + 0.4]],
    'rotate': [[True, 1, np.True_], [False, 0, np.False_]],
    'edges': [[5, np.int64(5)], [None]],
    'color': [['r', 'red', '#ff0000', (1.0, 0.0, 0.0), np.array([1.0, 0.0, 0.0]), 'xkcd:pure red'[:0] or 'r']],
    'ls': [['-', 'solid'], ['--', 'dashed'], [':', 'dotted'], [None]],
    'alpha': [[0.5, np.float64(0.5)]],
    'carpet': [[True, 10**9, np.True_], [False, None, np.False_]],
    'probability': [[True, 1], [False, 0]],
    'param': [[0, np.int64(0)]],
}

SAME2 = {
    'quantiles': [[[0.2, 0.7], (0.2, 0.7), np.array([0.2, 0.7]), [0.7, 0.2]]],
    'sigmas': [[[1.0, 2.0], (1.0, 2.0), np.array([1, 2]), [2, 1]]],
    'params': [[[0, 1], (0, 1), np.array([0, 1])], [[1, 0], (1, 0), np.array([1, 0])]],
    'smooth': [[None, False], [1.0, 1, np.float64(1)]],
    'upsample': [[None, False], [2, np.int64(2), True, np.True_]],
    'pad': [[True, np.True_], [None, False, np.False_, 0], [2, np.int64(2)]],
    'scatter': [[True, 10**9, np.True_], [False, None, np.False_], [7, np.int64(7), 7.0]],
    'edges': [[5, [5, 5], (5, 5), np.array([5, 5]), np.int64(5)]],
    'color': [['r', 'red', '#ff0000', (1.0, 0.0, 0.0), np.array([1.0, 0.0, 0.0])]],
    'cmap': [['viridis', plt.get_cmap('viridis')]],
    'outline': [[True, np.True_], [False, np.False_]],
    'mask_below': [[True, np.True_], [False, np.False_]],
    'ls': [['-', 'solid'], [':', 'dotted']],
}


def case_spelling(ctx):
    """Options written in different ways."""
    rng = ctx.rng
    two = bool(rng.random() < 0.5)
    data, ww, style = setup(rng, 2 if two else 1)
    src, wkw, kde = source(rng, data, ww)
    menu = SAME2 if two else SAME1
    name = gen.pick(rng, sorted(menu))
    group = menu[name][int(rng.integers(len(menu[name])))]
    base = dict(wkw, color='b')
    if two:
        base.update({nn: True for nn in TWO if nn != name and rng.random() < 0.8})
        if name == 'outline':
            base['contour'] = base['median'] = True
    else:
        base.update({nn: bool(rng.random() < 0.6) for nn in ONE if nn != name})
    base.pop(name, None)
    lims = limits(data)
    seed = int(rng.integers(1000))
    ctx.note(two=two, num=data.shape[1], data=style, weighted=ww is not None, kde=kde, name=name, group=repr(group), first=float(data[0, 0]))
    ctx.state('spelling', two, name, repr(group[0]), kde)
    func = kale.dist2d if two else kale.dist1d
    want = None
    # (the same style may be stored in other words)
    deep = name in ('color', 'ls')
    for val in group:
        got = shown(draw_axes(func, src, lims, seed, **base, **{name: val})) if deep else draw(func, src, lims, seed, **base, **{name: val})
        if want is None:
            want = got
        else:
            ctx.check(got == want, 'spelling', name=name, value=repr(val), like=repr(group[0]))
    # defaults
    default = dict(dist1=dict(rotate=False, edges=None, probability=True, ls=None, alpha=None, quantiles=None, density=None, hist=None, confidence=False, carpet=True, param=0),
                   dist2=dict(params=[0, 1], quantiles=None, sigmas=None, smooth=None, upsample=None, pad=True, ls='-', outline=True, median=True, scatter=True, contour=True,
                              hist=True, mask_dense=None, mask_below=True, mask_alpha=0.9, edges=None))['dist2' if two else 'dist1']
    pick = {kk: default[kk] for kk in default if rng.random() < 0.4}
    start = dict(wkw, color='b')
    ctx.check(draw(func, src, lims, seed, **start) == draw(func, src, lims, seed, **start, **pick), 'spelling', default=sorted(pick))


def draw_axes(func, src, lims, seed, **kw):
    fig, ax = blank(lims)
    try:
        np.random.seed(seed)
        func(src, ax=ax, **kw)
        out = []
        for art in drawn(ax):
            one = [type(art).__name__]
            for get in ('get_color', 'get_facecolor', 'get_edgecolor'):
                if hasattr(art, get):
                    try:
                        col = getattr(art, get)()
                        one.append(rec(np.round(matplotlib.colors.to_rgba_array(col), 6)))
                    except Exception as err:    # noqa
                        one.append(type(err).__name__)
            for get in ('get_xdata', 'get_ydata', 'get_offsets', 'get_xy'):
                if hasattr(art, get):
                    one.append(rec(np.asarray(getattr(art, get)())))
            ls = art.get_linestyle() if hasattr(art, 'get_linestyle') else None
            one.append({'solid': '-', 'dashed': '--', 'dotted': ':', 'dashdot': '-.'}.get(ls, ls) if isinstance(ls, str) else repr(ls))
            one.append((art.get_alpha(), art.get_zorder(), art.get_visible()))
            out.append(repr(one))
        return out
    finally:
        plt.close(fig)


def shown(lst):
    return collections.Counter(lst)


# ---- panels of corner plots

def case_corner(ctx):
    """Each panel of a corner plot shows what the corresponding function draws on its own."""
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    data, ww, style = setup(rng, dim)
    kde = kale.KDE(data, weights=ww, bandwidth=float(rng.uniform(0.2, 0.5)))
    method = gen.pick(rng, ['plot_kde', 'plot_data', 'plot'])
    opt1 = {nn: bool(rng.random() < 0.6) for nn in ONE if nn != 'carpet' and not (method == 'plot_data' and nn == 'density')}
    opt2 = {nn: bool(rng.random() < 0.6) for nn in TWO if not (method == 'plot_data' and nn == 'contour') and nn != 'scatter'}
    opt1['carpet'] = opt2['scatter'] = False
    opt2['mask_dense'] = False
    if method == 'plot_data':
        opt1['density'] = opt2['contour'] = False
    for kk, vals in dict(alpha=[0.3], lw=[2.5], ls=[':', '-']).items():
        if rng.random() < 0.3:
            opt1[kk] = gen.pick(rng, vals)
    for kk, vals in dict(ls=[':', '-'], outline=[False], pad=[False, 2], smooth=[1.0], upsample=[2], mask_below=[False]).items():
        if rng.random() < 0.3:
            opt2[kk] = gen.pick(rng, vals)
    # (line styles of all panels, solid for estimates if none is given)
    styles = {}
    if method == 'plot_kde' and rng.random() < 0.5:
        styles['ls'] = gen.pick(rng, [':', '--'])
    qq = gen.pick(rng, [[0.3], [0.2, 0.7]])
    edges = [int(rng.integers(3, 9))] * dim
    rotate = bool(rng.random() < 0.6)
    ctx.note(dim=dim, num=data.shape[1], data=style, weighted=ww is not None, method=method, dist1d=opt1, dist2d=opt2, rotate=rotate, **styles, first=float(data[0, 0]))
    ctx.state('corner', method, dim, sorted(kk for kk in opt1 if opt1[kk]), sorted(kk for kk in opt2 if opt2[kk]))
    from kalepy import utils
    edges = utils.parse_edges(data, edges=edges)
    cor = kale.Corner(dim, rotate=rotate)
    try:
        kw = dict(dist1d=dict(opt1), dist2d=dict(opt2), quantiles=qq, edges=edges, color='g', cmap='viridis', **styles)
        full = {} if method == 'plot_data' else dict(dict(ls='-'), **styles)
        opt1, opt2 = dict(full, **opt1), dict(full, **opt2)
        if method == 'plot_data':
            cor.plot_data(data, weights=ww, **kw)
        else:
            getattr(cor, method)(kde, **kw)
        for (ii, jj), ax in np.ndenumerate(cor.axes):
            if jj > ii:
                continue
            got = picture(ax)
            fig, one = plt.subplots()
            if ii == jj:
                turned = rotate and dim > 1 and ii == dim - 1
                if method == 'plot_data':
                    kale.dist1d(data[ii], weights=ww, ax=one, edges=edges[ii], quantiles=qq, color='g', rotate=turned, **opt1)
                else:
                    kale.dist1d(kde, param=ii, ax=one, edges=edges[ii], quantiles=qq, color='g', rotate=turned, **opt1)
            else:
                src, wkw = (data, dict(weights=ww)) if method == 'plot_data' else (kde, {})
                kale.dist2d(src, params=[jj, ii], ax=one, edges=[edges[jj], edges[ii]], quantiles=qq, color='g', cmap='viridis', **wkw, **opt2)
            want = picture(one)
            plt.close(fig)
            ctx.check(got == want, 'corner-panels', panel=[ii, jj], method=method, more=sum((got - want).values()), fewer=sum((want - got).values()))
    finally:
        plt.close('all')


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'union1': (case_union1, 120, 1500),
    'union2': (case_union2, 80, 900),
    'option1': (case_option1, 160, 2000),
    'option2': (case_option2, 60, 600),
    'spelling': (case_spelling, 160, 2000),
    'corner': (case_corner, 40, 500),
}
