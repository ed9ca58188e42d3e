"""C22: plotting calls are independent of each other."""
import copy
import os
import pickle
import signal
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import kalepy as kale

from .. import gen
from ..core import Infra, Skip

RULE = ("random programs of plotting calls; the complete set of artists of the observed call (types, data, colors, styles, limits) is recorded after the history in one "
        "forked process and without the history in another one, and must be identical; dictionaries and lists of options are compared before and after")
ASSUMPTIONS = ["numpy's random stream is reseeded before each call (carpet and scatter points are drawn at random)"]
MIN_VERDICTS = {'history-independent': 30, 'figures-independent': 20, 'global-settings': 30, 'calls-independent': 15, 'options-unchanged': 60, 'elsewhere-others': 60, 'elsewhere-picture': 30}


# ---- Recording of artists

def rec(xx):
    if isinstance(xx, (str, bool, int, float, type(None))):
        return repr(xx)
    if isinstance(xx, np.ma.MaskedArray):
        return ('m', xx.shape, np.ma.getmaskarray(xx).tobytes(), np.ma.filled(xx, 0).tobytes())
    if isinstance(xx, np.ndarray):
        return ('a', xx.shape, str(xx.dtype), xx.tobytes()) if xx.dtype != object else tuple(rec(vv) for vv in xx.ravel())
    if isinstance(xx, (list, tuple)):
        return tuple(rec(vv) for vv in xx)
    if isinstance(xx, dict):
        return tuple((kk, rec(xx[kk])) for kk in sorted(xx))
    return repr(xx)


def props_of(art):
    """Everything which is visible of one artist."""
    out = [type(art).__name__]
    for name in ('get_xdata', 'get_ydata', 'get_offsets', 'get_sizes', 'get_array', 'get_facecolor', 'get_edgecolor', 'get_color', 'get_alpha',
                 'get_linewidth', 'get_linestyle', 'get_zorder', 'get_visible', 'get_marker', 'get_text', 'get_clim', 'get_xy', 'get_hatch'):
        func = getattr(art, name, None)
        if func is None:
            continue
        try:
            out.append((name, rec(func())))
        except Exception as err:    # noqa -- not applicable to this artist
            out.append((name, type(err).__name__))
    if hasattr(art, 'get_paths'):
        out.append(('paths', tuple(rec(np.asarray(pp.vertices)) for pp in art.get_paths())))
    if hasattr(art, 'get_coordinates'):
        out.append(('coords', rec(np.asarray(art.get_coordinates()))))
    if hasattr(art, 'levels'):
        out.append(('levels', rec(np.asarray(art.levels))))
    if hasattr(art, 'get_cmap') and art.get_cmap() is not None:
        out.append(('cmap', rec(np.asarray(art.get_cmap()(np.linspace(0, 1, 7))))))
    out.append(('effects', len(art.get_path_effects() or [])))
    return tuple(out)


def artists(ax):
    return [props_of(art) for art in list(ax.lines) + list(ax.collections) + list(ax.patches) + list(ax.texts)]


def frame(ax):
    return (ax.get_visible(), rec(np.array(ax.get_xlim())), rec(np.array(ax.get_ylim())), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
            rec(np.asarray(ax.get_xticks())), rec(np.asarray(ax.get_yticks())), rec(ax.get_position().bounds))


def picture(fig):
    return [(frame(ax), artists(ax)) for ax in fig.axes]


# ---- Plotting calls, as a pure function of a specification

def options1(rng):
    out = {}
    for name, vals in dict(density=[True, False], confidence=[True, False], carpet=[True, False, 10], hist=[True, False], ls=['-', ':'], alpha=[0.3, 0.9],
                           quantiles=[[0.5], [0.2, 0.8]], lw=[1.0, 3.0]).items():
        if rng.random() < 0.25:
            out[name] = gen.pick(rng, vals)
    return out


def options2(rng):
    out = {}
    for name, vals in dict(median=[True, False], scatter=[True, False, 12], contour=[True, False], hist=[True, False], mask_dense=[True, False],
                           mask_below=[True, False], mask_alpha=[0.5], smooth=[0.7, None], pad=[True, 2], outline=[True, False], ls=['-', ':'],
                           quantiles=[[0.5], [0.2, 0.8]], upsample=[2, None]).items():
        if rng.random() < 0.2:
            out[name] = gen.pick(rng, vals)
    return out


CORNER = ['plot', 'clean', 'hist', 'plot_kde', 'plot_data', 'corner']
SINGLE = ['hist1d', 'hist2d', 'dist1d', 'dist1d-data', 'dist2d', 'carpet', 'confidence', 'contour']


def spec_for(rng, menu=None, plain=0.3):
    what = gen.pick(rng, menu or (CORNER + SINGLE))
    opts = {}
    if rng.random() > plain:
        if what in CORNER:
            if rng.random() < 0.6:
                opts['dist1d'] = options1(rng)
            if rng.random() < 0.6:
                opts['dist2d'] = options2(rng)
            if rng.random() < 0.4:
                opts['quantiles'] = gen.pick(rng, [[0.4], [0.3, 0.6, 0.9]])
            if rng.random() < 0.3:
                opts['color'] = gen.pick(rng, ['r', 'purple'])
            if rng.random() < 0.2:
                opts['cmap'] = gen.pick(rng, ['Blues', 'viridis'])
            if rng.random() < 0.2:
                opts['limit'] = bool(rng.random() < 0.5)
            if rng.random() < 0.2:
                opts['edges'] = int(rng.integers(4, 9))
        elif what in ('dist1d', 'dist1d-data'):
            opts = options1(rng)
            opts['rotate'] = bool(rng.random() < 0.4)
        elif what == 'dist2d':
            opts = options2(rng)
            if rng.random() < 0.4:
                opts['params'] = [1, 0]
        elif what == 'hist1d':
            opts = dict(density=bool(rng.random() < 0.5), renormalize=bool(rng.random() < 0.5), joints=bool(rng.random() < 0.5), color=gen.pick(rng, ['k', None]))
        elif what == 'hist2d':
            opts = dict(mask_below=bool(rng.random() < 0.5), cmap=gen.pick(rng, ['viridis', 'Greys']))
        elif what == 'carpet':
            opts = dict(fancy=bool(rng.random() < 0.5), limit=gen.pick(rng, [None, 9]), shift=gen.pick(rng, [0.0, 1.0]), marker=gen.pick(rng, ['.', 'x']))
        elif what == 'confidence':
            opts = dict(quantiles=[0.3, 0.6], median=bool(rng.random() < 0.5), alpha=0.4)
        elif what == 'contour':
            opts = dict(quantiles=[0.3, 0.6], smooth=gen.pick(rng, [None, 1.5]), upsample=gen.pick(rng, [None, 2]), color=gen.pick(rng, ['r', None]))
    if rng.random() < 0.4:
        opts = as_arrays(opts)
    corner = {}
    if what in CORNER and rng.random() < 0.5:
        if rng.random() < 0.5:
            corner['rotate'] = bool(rng.random() < 0.5)
        if rng.random() < 0.4:
            corner['origin'] = gen.pick(rng, ['tl', 'bl', 'tr', 'br'])
        if rng.random() < 0.4:
            corner['limits'] = [[-4.0, 4.0]] * 3
        if rng.random() < 0.4:
            corner['labels'] = ['a', 'b', 'c']
    return dict(what=what, seed=int(rng.integers(2**31)), opts=opts, corner=corner, weighted=bool(rng.random() < 0.5), dim=int(rng.integers(2, 4)))


def values_for(spec):
    rng = np.random.default_rng(spec['seed'])
    num = int(rng.integers(20, 45))
    data = gen.dataset(rng, spec['dim'], num, gen.pick(rng, ['normal', 'clusters', 'lognormal', 'uniform']))
    return data, (rng.uniform(0.2, 2.0, size=num) if spec['weighted'] else None)


def corner_of(spec):
    data, ww = values_for(spec)
    kw = dict(spec['corner'])
    if 'labels' in kw:
        kw['labels'] = kw['labels'][:spec['dim']]
    if 'limits' in kw:
        kw['limits'] = [list(ll) for ll in kw['limits'][:spec['dim']]]
    return kale.Corner(data, weights=ww, **kw)


def act(spec, cor=None, opts=None, ax=None):
    """One plotting call; returns its figure."""
    what = spec['what']
    data, ww = values_for(spec)
    opts = spec['opts'] if opts is None else opts
    np.random.seed(spec['seed'] % 2**31)
    if what in CORNER:
        if what == 'corner' and cor is None:
            kw = dict(spec['corner'])
            if 'limits' in kw:
                kw['limits'] = kw['limits'][:spec['dim']]
            kw.pop('labels', None)
            cor, _ = kale.corner(kale.KDE(data, weights=ww), kwcorner=kw, **opts)
            return cor.fig
        if cor is None:
            cor = corner_of(spec)
        func = getattr(cor, 'plot' if what == 'corner' else what)
        if what == 'plot_data':
            func(data, weights=ww, **opts)
        else:
            func(kale.KDE(data, weights=ww), **opts)
        return cor.fig
    if ax is None:
        _, ax = plt.subplots()
    fig = ax.figure
    if what == 'hist1d':
        kale.hist1d(data[0], ax=ax, weights=ww, **opts)
    elif what == 'hist2d':
        kale.hist2d(data[:2], ax=ax, weights=ww, **opts)
    elif what == 'dist1d':
        kale.dist1d(kale.KDE(data, weights=ww), ax=ax, **opts)
    elif what == 'dist1d-data':
        kale.dist1d(data[0], ax=ax, weights=ww, **opts)
    elif what == 'dist2d':
        kale.dist2d(kale.KDE(data, weights=ww), ax=ax, **opts)
    elif what == 'carpet':
        kale.carpet(data[0], ax=ax, weights=ww, **opts)
    elif what == 'confidence':
        kale.confidence(data[0], ax=ax, weights=ww, **opts)
    elif what == 'contour':
        kale.contour(data[:2], ax=ax, weights=ww, **opts)
    return fig


def globals_now():
    rc = {kk: repr(vv) for kk, vv in dict.items(matplotlib.rcParams) if kk not in ('backend', 'interactive')}
    return rc, dict(np.geterr()), repr(np.get_printoptions()), len(warnings.filters)


def apart(ctx, func, *args):
    """`func(*args)` in a forked process, whose module state starts out as that of a program which has not plotted anything."""
    base = dict(ctx.counts)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.alarm(0)
            try:
                res = ('ok', func(*args))
            except Exception as err:    # noqa
                import traceback
                res = ('raised', repr(err)[:300] + traceback.format_exc()[-1500:])
            with os.fdopen(wfd, 'wb') as out:
                pickle.dump(res + ({kk: vv for kk, vv in ctx.counts.items() if kk.startswith('event:')},), out)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as inp:
        blob = inp.read()
    _, status = os.waitpid(pid, 0)
    if not blob:
        raise Infra('forked plotting process ended with status {}'.format(status))
    state, value, events = pickle.loads(blob)
    for name, num in events.items():
        ctx.count(name, num - base.get(name, 0))
    return state, value


def diff(aa, bb):
    """Where two recorded pictures first differ."""
    if len(aa) != len(bb):
        return 'axes: {} {}'.format(len(aa), len(bb))
    for ii, (xx, yy) in enumerate(zip(aa, bb)):
        if xx[0] != yy[0]:
            return 'axes {}: frame {}'.format(ii, [kk for kk, (u, v) in enumerate(zip(xx[0], yy[0])) if u != v])
        if len(xx[1]) != len(yy[1]):
            return 'axes {}: {} {} artists'.format(ii, len(xx[1]), len(yy[1]))
        for u, v in zip(xx[1], yy[1]):
            if u != v:
                return 'axes {}: {} {}'.format(ii, u[0], [(m[0], str(m[1])[:60], str(n[1])[:60]) for m, n in zip(u[1:], v[1:]) if m != n][:2])
    return None


def compare(ctx, key, one, two, **kw):
    if one[0] == 'raised' and two[0] == 'raised':
        # a combination of options which cannot be drawn at all, alone or not
        ctx.check(False, 'exception:draw', error=one[1], **kw)
        return False
    if one[0] != two[0]:
        return ctx.check(False, key, raised=[one[1] if one[0] == 'raised' else '', two[1] if two[0] == 'raised' else ''], **kw)
    same = diff(one[1], two[1])
    ctx.count('artists', sum(len(xx[1]) for xx in one[1]))
    return ctx.check(same is None, key, difference=same, **kw)


def copy_opts(opts):
    return copy.deepcopy(opts)


def as_arrays(opts):
    """The same options, with lists of numbers given as arrays."""
    out = {}
    for kk, vv in opts.items():
        if isinstance(vv, dict):
            vv = as_arrays(vv)
        elif isinstance(vv, list) and kk in ('quantiles', 'limits'):
            vv = np.array(vv, dtype=float)
        out[kk] = vv
    return out


def run_history(specs, final, pool):
    """Calls sharing dictionaries of options, then the observed call."""
    for spec in specs:
        try:
            act(spec, opts=merge(spec['opts'], pool, spec))
        except Exception:   # noqa -- judged where this call is the observed one
            pass
    return picture(act(final, opts=merge(final['opts'], pool, final)))


def merge(opts, pool, spec):
    """Use the shared dictionaries for corner plots that ask for them."""
    out = dict(opts)
    if spec['what'] in CORNER:
        for name in ('dist1d', 'dist2d'):
            if name in pool and spec.get('share'):
                out[name] = pool[name]
    return out


def alone(final, pool):
    return picture(act(copy_opts(final), opts=merge(final['opts'], copy_opts(pool), final)))


def case_history(ctx):
    rng = ctx.rng
    final = spec_for(rng, plain=0.5)
    same = rng.random() < 0.6
    menu = None
    if same:
        menu = CORNER if final['what'] in CORNER else [final['what']] + ([] if rng.random() < 0.5 else SINGLE)
    specs = [spec_for(rng, menu=menu, plain=0.15) for _ in range(int(rng.integers(1, 5)))]
    pool = {}
    if rng.random() < 0.4:
        pool = dict(dist1d=options1(rng), dist2d=options2(rng))
        if rng.random() < 0.5:
            pool = as_arrays(pool)
        for spec in specs + [final]:
            spec['share'] = bool(rng.random() < 0.7)
    ctx.note(final=final['what'], options=sorted(final['opts']), before=[ss['what'] for ss in specs], shared=bool(pool))
    ctx.state(final['what'], specs[-1]['what'])
    one = apart(ctx, run_history, specs, final, pool)
    two = apart(ctx, alone, final, pool)
    ctx.count('calls', len(specs) + 2)
    compare(ctx, 'history-independent', one, two, final=final['what'], options=final['opts'], before=[ss['what'] for ss in specs], shared=sorted(pool))


def run_settings(specs):
    out = []
    before = globals_now()
    figs = 0
    for spec in specs:
        opts = copy_opts(spec['opts'])
        orig = copy_opts(opts)
        kept = plt.figure()
        num = len(plt.get_fignums())
        act(spec, opts=opts)
        now = globals_now()
        out.append((spec['what'], now[0] == before[0], now[1:] == before[1:], rec(opts) == rec(orig), len(plt.get_fignums()) - num))
        before = now
        plt.close('all')
    return out


def case_settings(ctx):
    """Global settings, and dictionaries of options, stay as they were."""
    rng = ctx.rng
    specs = [spec_for(rng, plain=0.1) for _ in range(4)]
    ctx.note(calls=[ss['what'] for ss in specs])
    for ss in specs:
        ctx.state(ss['what'], len(ss['opts']))
    got = apart(ctx, run_settings, specs)
    if got[0] == 'raised':
        ctx.check(False, 'exception:draw', error=got[1])
        return
    for what, rc, other, opts, figs in got[1]:
        ctx.check(rc and other, 'global-settings', what=what, rc=rc, other=other)
        ctx.check(opts, 'options-unchanged', what=what)
        ctx.check(figs == 1, 'figures-opened', what=what, got=figs)


def run_figures(first, ops, only):
    """Interleaved calls on two corners; `only` restricts to those on the first."""
    cors = [corner_of(ss) for ss in (first[:1] if only else first)]
    for which, spec in ops:
        if only and which:
            continue
        act(spec, cor=cors[which])
    return picture(cors[0].fig)


def case_figures(ctx):
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    first = [spec_for(rng, menu=CORNER) for _ in range(2)]
    ops = [(int(rng.integers(2)), spec_for(rng, menu=CORNER[:5], plain=0.3)) for _ in range(int(rng.integers(2, 5)))]
    ops[int(rng.integers(len(ops)))] = (0, ops[0][1])
    for ss in first + [oo[1] for oo in ops]:
        ss['dim'] = dim
    ctx.note(dim=dim, calls=[[ww, ss['what']] for ww, ss in ops], corners=[ss['corner'] for ss in first])
    ctx.state('figures', dim, tuple(ww for ww, _ in ops))
    one = apart(ctx, run_figures, first, ops, False)
    two = apart(ctx, run_figures, first, ops, True)
    ctx.count('calls', 2 * len(ops))
    compare(ctx, 'figures-independent', one, two, calls=[[ww, ss['what']] for ww, ss in ops])


def run_same(first, spec, second):
    cor = corner_of(first)
    act(spec, cor=cor)
    before = [set(map(id, ax.get_children())) for ax in cor.fig.axes]
    act(second, cor=cor)
    out = []
    for old, ax in zip(before, cor.fig.axes):
        out.append(((), [props_of(art) for art in ax.get_children()
                         if id(art) not in old and art in list(ax.lines) + list(ax.collections) + list(ax.patches)]))
    return out


def case_calls(ctx):
    """What a second call draws in the same figure does not depend on the options of the first one."""
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    first = spec_for(rng, menu=CORNER)
    second = spec_for(rng, menu=CORNER[:5], plain=0.0)
    specs = [spec_for(rng, menu=[second['what']] if rng.random() < 0.5 else CORNER[:5], plain=0.0) for _ in range(2)]
    second['opts']['color'] = 'b'
    second['opts'].setdefault('dist1d', {})['carpet'] = False
    for ss in [first, second] + specs:
        ss['dim'] = dim
    ctx.note(dim=dim, second=second['what'], first=[ss['what'] for ss in specs])
    ctx.state('calls', second['what'], specs[0]['what'], specs[1]['what'])
    one = apart(ctx, run_same, first, specs[0], second)
    two = apart(ctx, run_same, first, specs[1], second)
    ctx.count('calls', 4)
    compare(ctx, 'calls-independent', one, two, second=second['what'], first=[[ss['what'], ss['opts']] for ss in specs])


def layout_of(fig):
    pars = fig.subplotpars
    return tuple(float(getattr(pars, kk)) for kk in ('left', 'bottom', 'right', 'top', 'wspace', 'hspace'))


def gridded(cor):
    """Distinct appearances of the grid lines in the panels of a corner plot."""
    out = set()
    for (ii, jj), ax in np.ndenumerate(cor.axes):
        if not ax.get_visible():
            continue
        for axis in (ax.xaxis, ax.yaxis):
            for gl in axis.get_gridlines():
                out.add((gl.get_visible(), float(gl.get_linewidth())) if gl.get_visible() else (False, None))
    return sorted(out, key=str)


def run_elsewhere(spec, mode, where, lay):
    """A call given a figure, a grid of axes or an axes: `where` is whether that is the current one, another one, or not known to pyplot."""
    around = []
    for _ in range(2):
        fig, axs = plt.subplots(1, 2)
        axs[0].plot([0, 1], [2, 3])
        axs[1].scatter([0.1, 0.4], [3.0, 9.0])
        around.append(fig)
    bare = matplotlib.figure.Figure()
    bare.subplots(2, 2)[0, 1].plot([3, 4], [5, 7])
    around.append(bare)
    size = (6, 6)
    target = matplotlib.figure.Figure(figsize=size) if where == 'bare' else plt.figure(figsize=size)
    dim = spec['dim']
    grid = ax = None
    if mode == 'axes':
        grid = target.subplots(dim, dim, squeeze=False)
    elif mode == 'ax':
        ax, beside = target.subplots(1, 2)
        beside.plot([1, 2], [1, 3])
    if where != 'current':
        plt.sca(around[0].axes[1])
    fig_before, ax_before = plt.gcf(), plt.gca() if (where != 'current') else None
    before = [(picture(ff), layout_of(ff)) for ff in around]
    side = (frame(beside), artists(beside)) if mode == 'ax' else None
    numbers = plt.get_fignums()
    own = layout_of(target)
    wantgrid = {'True': (True, 0.5), 'False': (False, None)}.get(str(lay.get('grid', True))) or (True, float(lay['grid']['lw']))
    if mode == 'ax':
        act(spec, ax=ax)
    else:
        data, ww = values_for(spec)
        kw = dict(spec['corner'])
        for key in ('labels', 'limits'):
            if key in kw:
                kw[key] = kw[key][:dim]
        cor = kale.Corner(data, weights=ww, axes=grid, **kw) if mode == 'axes' else kale.Corner(data, weights=ww, fig=target, **lay, **kw)
        act(spec, cor=cor)
        if spec['seed'] % 2:
            cor.legend([target.axes[0].lines[0]] if target.axes[0].lines else [], ['x'])
            cor.target([0.0] * dim)
    obs = dict(others=[(picture(ff), layout_of(ff)) for ff in around] == before, numbers=plt.get_fignums() == numbers, figure=plt.gcf() is fig_before,
               axes=(where == 'current') or (plt.gca() is ax_before), beside=(mode != 'ax') or ((frame(beside), artists(beside)) == side),
               layout=(layout_of(target) == own) if mode != 'fig' else all(abs(getattr(target.subplotpars, kk) - vv) < 1e-12 for kk, vv in lay.items() if kk != 'grid'),
               gridlines=mode != 'fig' or gridded(cor) == [wantgrid],
               panels=len(target.axes) == (2 if mode == 'ax' else dim * dim), drawn=sum(len(artists(aa)) for aa in target.axes))
    return obs, picture(target)


def case_elsewhere(ctx):
    """Calls which are given a figure or axes draw there, and nothing else is touched; it does not matter whether those are the current ones."""
    rng = ctx.rng
    mode = gen.pick(rng, ['fig', 'fig', 'axes', 'ax'])
    where = gen.pick(rng, ['other', 'bare'])
    spec = spec_for(rng, menu=SINGLE if mode == 'ax' else CORNER[:5])
    lay = {}
    for key, lo, hi in [('left', 0.05, 0.4), ('right', 0.6, 0.95), ('bottom', 0.05, 0.4), ('top', 0.6, 0.95), ('hspace', 0.0, 0.5), ('wspace', 0.0, 0.5)]:
        if rng.random() < 0.4:
            lay[key] = float(rng.uniform(lo, hi))
    if rng.random() < 0.6:
        lay['grid'] = gen.pick(rng, [True, False, dict(lw=1.5), dict(lw=0.25, color='r')])
    ctx.note(mode=mode, where=where, what=spec['what'], layout=lay, corner=spec['corner'])
    ctx.state('elsewhere', mode, where, spec['what'])
    got = [apart(ctx, run_elsewhere, spec, mode, ww, lay) for ww in (where, 'current')]
    ctx.count('calls', 2)
    for ww, (state, val) in zip((where, 'current'), got):
        if state == 'raised':
            ctx.check(False, 'exception:draw', error=val, where=ww)
            return
        for key, good in val[0].items():
            if key == 'drawn':
                ctx.count('artists', good)
            else:
                ctx.check(good, 'elsewhere-' + key, what=spec['what'], mode=mode, where=ww)
    one, two = got[0][1][1], got[1][1][1]
    ctx.check(one == two, 'elsewhere-picture', diff=diff(one, two), what=spec['what'], mode=mode, where=where)


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'history': (case_history, 70, 1000),
    'settings': (case_settings, 24, 300),
    'figures': (case_figures, 40, 500),
    'calls': (case_calls, 40, 500),
    'elsewhere': (case_elsewhere, 60, 800),
}
