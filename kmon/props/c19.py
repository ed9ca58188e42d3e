"""C19: arguments are never modified, and results do not depend on earlier calls."""
import numpy as np
import matplotlib.pyplot as plt
import kalepy as kale
from kalepy import utils

from .. import borrow, gen, ref
from ..core import Skip
from . import c03, c13

RULE = ("random programs of public calls over shared arrays, lists, dictionaries and KDEs; a monitor compares every argument (bytes) before and after "
        "every top-level call, and the state of numpy's random stream around deterministic calls; every value computed within a history is recomputed with "
        "fresh objects made from pristine copies")
ASSUMPTIONS = ["agreement of replayed values is exact (the same arithmetic on the same numbers)",
               "plots with scatter or carpet points draw random numbers (documented)"]
MIN_VERDICTS = {'argument-unchanged': 600, 'stream-untouched': 300, 'history-independent': 200, 'reproducible': 80}

RANDOM = ('resample', 'sample', 'sample_grid', 'sample_grid_proportional', 'sample_outliers', 'carpet', 'dist1d', 'dist2d', 'corner',
          'plot', 'clean', 'hist', 'plot_kde', 'plot_data')


def digest(xx, depth=0):
    if isinstance(xx, np.ndarray):
        if xx.dtype == object:
            return ('o', xx.shape, tuple(digest(vv, depth + 1) for vv in xx.ravel().tolist()))
        return ('a', xx.shape, str(xx.dtype), np.ascontiguousarray(xx).tobytes())
    if isinstance(xx, (list, tuple)):
        return (type(xx).__name__,) + tuple(digest(vv, depth + 1) for vv in xx)
    if isinstance(xx, dict):
        return ('d',) + tuple((str(kk), digest(vv, depth + 1)) for kk, vv in xx.items())
    if isinstance(xx, (str, bytes, bool, int, float, complex, type(None), np.generic)):
        return (type(xx).__name__, repr(xx))
    if isinstance(xx, kale.KDE) and depth < 3:
        return ('kde', digest(xx.dataset), digest(xx.weights), digest(xx.bandwidth), digest(xx.covariance), digest(xx.reflect),
                digest(xx.extrema), repr(xx.neff))
    return ('other', type(xx).__name__)


def frozen(ctx, event):
    """Online monitor: no argument changes, and only sampling uses the random stream."""
    before = [digest(aa) for aa in event['args']]
    kwbefore = {kk: digest(vv) for kk, vv in event['kwargs'].items()}
    self_before = digest(event['obj']) if isinstance(event['obj'], kale.KDE) and not event['name'].endswith('__init__') else None
    state = np.random.get_state()

    def end(ev):
        for jj, (old, arg) in enumerate(zip(before, ev['args'])):
            ctx.check(digest(arg) == old, 'argument-unchanged', call=ev['name'], argument=jj, now=arg)
        for kk, old in kwbefore.items():
            ctx.check(digest(ev['kwargs'][kk]) == old, 'argument-unchanged', call=ev['name'], argument=kk, now=ev['kwargs'][kk])
        if self_before is not None:
            ctx.check(digest(ev['obj']) == self_before, 'object-unchanged', call=ev['name'])
        if ev['name'].split('.')[-1] not in RANDOM:
            new = np.random.get_state()
            same = new[2] == state[2] and new[3:] == state[3:] and np.array_equal(new[1], state[1])
            ctx.check(same, 'stream-untouched', call=ev['name'])
    return end


def shared_pool(ctx, dims=(1, 2, 2, 3)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(12, 70))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    return dim, num, style, data, ww


def make_spec(rng, dim, num, data, ww):
    """Arguments of a KDE; every mutable one is a fresh object on each `build`."""
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    kernel = gen.pick(rng, ref.KERNELS)
    reflect = c03.bounds_for(rng, data) if rng.random() < 0.4 else None
    use_w = ww is not None and rng.random() < 0.8
    points = None if rng.random() < 0.7 else int(rng.integers(3, 15))
    return dict(kw=kw, kernel=kernel, reflect=reflect, weighted=use_w, points=points, kind=bkind)


def deep(xx):
    if isinstance(xx, np.ndarray):
        return xx.copy()
    if isinstance(xx, list):
        return [deep(vv) for vv in xx]
    if isinstance(xx, tuple):
        return tuple(deep(vv) for vv in xx)
    if isinstance(xx, dict):
        return {kk: deep(vv) for kk, vv in xx.items()}
    return xx


def build(spec, data, ww):
    return kale.KDE(data, kernel=spec['kernel'], reflect=spec['reflect'], weights=ww if spec['weighted'] else None,
                    points=spec['points'], **spec['kw'])


def flatten_result(res):
    """Comparable form of a result (points and values)."""
    if isinstance(res, tuple):
        out = []
        for rr in res:
            out += flatten_result(rr)
        return out
    if isinstance(res, list):
        return [np.asarray(rr, dtype=float) for rr in res]
    return [np.asarray(res, dtype=float)]


def same_result(aa, bb):
    fa, fb = flatten_result(aa), flatten_result(bb)
    return len(fa) == len(fb) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(fa, fb))


def query(rng, dim, data, reflect):
    """A random request, as (name, function of a kde); mutable arguments are created on each call from pristine values."""
    num = int(rng.integers(1, 25))
    span = np.ptp(data, axis=1, keepdims=True)
    pts = data.min(axis=1, keepdims=True) + span * rng.uniform(-0.3, 1.3, size=(dim, num))
    params = None
    if dim > 1 and rng.random() < 0.5:
        params = [int(pp) for pp in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]
    what = gen.pick(rng, ['density', 'pdf', 'grid', 'default', 'cdf', 'resample', 'keep', 'override', 'points'])
    seed = int(rng.integers(2**31))
    size = int(rng.integers(1, 200))
    if what in ('density', 'pdf'):
        sub = pts if params is None else pts[params]
        return what, lambda kde: getattr(kde, what)(sub.copy(), params=deep(params))
    if what == 'grid':
        edges = [np.sort(pp[:6]) for pp in (pts if params is None else pts[params])]
        return what, lambda kde: kde.density(deep(edges), params=deep(params), grid=True)
    if what == 'default':
        if dim > 1:
            params = [int(rng.integers(dim))] if rng.random() < 0.7 else [int(pp) for pp in rng.permutation(dim)[:2]]
        return what, lambda kde: kde.density(params=deep(params), probability=True)
    if what == 'cdf':
        if dim > 2:
            return 'density', lambda kde: kde.density(pts.copy())
        return what, lambda kde: kde.cdf(pts.copy())
    if what == 'points':
        return what, lambda kde: [np.array(pp) for pp in np.atleast_1d(kde.points)] if dim == 1 else [np.array(pp) for pp in kde.points]
    if what == 'override' and reflect is None:
        bounds = c03.bounds_for(rng, data)
        return what, lambda kde: kde.density(pts.copy(), reflect=deep(bounds))
    if what == 'override':
        return what, lambda kde: kde.density(pts.copy(), reflect=False)
    keep = int(rng.integers(dim)) if (what == 'keep' and dim > 1) else None

    def draw(kde):
        np.random.seed(seed)
        if keep is None:
            return kde.resample(size)
        return kde.resample(size, keep=keep, reflect=False)
    return 'resample', draw


def case_history(ctx):
    """A history of calls on several KDEs sharing their data; every result is recomputed with a fresh KDE."""
    rng = ctx.rng
    dim, num, style, data, ww = shared_pool(ctx)
    pristine, wpristine = data.copy(), deep(ww)
    specs = [make_spec(rng, dim, num, data, ww) for _ in range(int(rng.integers(1, 4)))]
    steps = int(rng.integers(4, 10))
    ctx.note(dim=dim, num=num, data=style, kdes=len(specs), steps=steps)
    ctx.tap.watch(frozen)
    shared = [deep(ss) for ss in specs]
    kdes = [build(ss, data, ww) for ss in shared]
    log = []
    for _ in range(steps):
        jj = int(rng.integers(len(kdes)))
        name, func = query(rng, dim, pristine, specs[jj]['reflect'])
        log.append((jj, name, func, deep(func(kdes[jj]))))
        ctx.state(name, log[-2][1] if len(log) > 1 else '-')
    ctx.check(np.array_equal(data, pristine), 'data-unchanged')
    if ww is not None:
        ctx.check(np.array_equal(ww, wpristine), 'data-unchanged')
    for jj, spec in enumerate(specs):
        ctx.check(digest(shared[jj]) == digest(spec), 'specification-unchanged', spec=spec)
    for pos, (jj, name, func, got) in enumerate(log):
        fresh = build(deep(specs[jj]), pristine.copy(), deep(wpristine))
        want = func(fresh)
        ctx.check(same_result(got, want), 'history-independent', what=name, position=pos, before=[ll[1] for ll in log[:pos]])
    # and once more on the used objects, in reverse order
    for jj, name, func, got in log[::-1]:
        ctx.check(same_result(func(kdes[jj]), got), 'repeatable', what=name)


def case_reproducible(ctx):
    """Sampling is a function of the arguments and numpy's seed."""
    rng = ctx.rng
    seed = int(rng.integers(2**31))
    what = gen.pick(rng, ['resample', 'resample', 'reflect', 'function', 'keep', 'grid', 'grid-scalar', 'proportional', 'outliers', 'carpet'])
    ctx.note(what=what, stream=seed)
    ctx.state(what)
    ctx.tap.watch(frozen)
    dim, num, style, data, ww = shared_pool(ctx, dims=(2, 2, 3) if what == 'keep' else (1, 2, 3))
    if what in ('resample', 'reflect', 'function', 'keep'):
        spec = make_spec(rng, dim, num, data, ww)
        spec['reflect'] = c03.bounds_for(rng, data) if what == 'reflect' else None
        kde = build(spec, data, ww)
        size = int(rng.integers(1, 500))
        if what == 'function':
            def func():
                return kale.resample(data, size=size, weights=ww if spec['weighted'] else None, kernel=spec['kernel'])
        else:
            keep = int(rng.integers(dim)) if what == 'keep' else None

            def func():
                if keep is None:
                    return kde.resample(size)
                return kde.resample(size, keep=keep, reflect=False)

        def other():
            kde.density(data[:, :3])
            kale.KDE(data).pdf(data[:, :2])
    elif what == 'carpet':
        def func():
            fig, ax = plt.subplots()
            return np.array(kale.carpet(data[0], ax=ax)[0].get_offsets())

        def other():
            kale.KDE(data[0]).density(data[0, :3])
    else:
        gdim = int(rng.integers(1, 4))
        edges = c13.make_edges(rng, gdim, most=6, least=3)
        dens = rng.uniform(0.1, 2, size=[ee.size for ee in edges])
        port = rng.uniform(0.1, 2, size=dens.shape)
        size = int(rng.integers(20, 400))

        def func():
            if what == 'grid':
                return kale.sample_grid(edges, dens, size)
            if what == 'grid-scalar':
                return kale.sample_grid(edges, dens, size, scalar_dens=port)
            if what == 'proportional':
                return kale.sample_grid_proportional(edges, dens, port, size)
            return kale.sample_outliers(edges, dens * 20, 5.0)

        def other():
            utils.trapz_nd(dens, edges)
            utils.centroids(edges, dens)
    np.random.seed(seed)
    first = deep(func())
    other()
    np.random.seed(seed)
    other()
    second = deep(func())
    ctx.check(same_result(first, second), 'reproducible', what=what)
    third = func()
    if what not in ('outliers',) and np.size(flatten_result(third)[0]) > 4:
        ctx.check(not same_result(third, first), 'fresh-numbers', what=what)
    plt.close('all')


def utils_calls(rng):
    """Menu of helper calls on arguments that a careless implementation would modify."""
    num = int(rng.integers(5, 40))
    vals = rng.normal(size=num)
    ww = rng.uniform(0.1, 2, size=num)
    mat = rng.normal(size=(2, num))
    cov = np.cov(mat)
    edges = [np.sort(rng.uniform(size=5)), np.sort(rng.uniform(size=4))]
    grid = rng.uniform(0.1, 1, size=(5, 4))
    pos = np.abs(vals) + 0.1
    prev = [0.0, 0.1]
    percs, sigmas = np.array([0.9, 0.1, 0.5]), np.array([-1.0, 2.0])
    return [
        ('add_cov', lambda: utils.add_cov(mat, cov)),
        ('rem_cov', lambda: utils.rem_cov(mat, cov)),
        ('rem_cov-auto', lambda: utils.rem_cov(mat)),
        ('bound_indices', lambda: utils.bound_indices(mat, [[-1, 1], [None, 0.5]])),
        ('bound_indices-outside', lambda: utils.bound_indices(mat, [[-1, 1], None], outside=True)),
        ('centroids', lambda: utils.centroids(edges, grid)),
        ('cov_keep_vars', lambda: utils.cov_keep_vars(cov, [0])),
        ('cumsum', lambda: utils.cumsum(grid)),
        ('cumsum-axis', lambda: utils.cumsum(grid, axis=1)),
        ('cumtrapz', lambda: utils.cumtrapz(grid, edges)),
        ('cumtrapz-axis', lambda: utils.cumtrapz(grid, edges, axis=0)),
        ('histogram', lambda: utils.histogram(vals, weights=ww, density=True)),
        ('meshgrid', lambda: utils.meshgrid(*edges)),
        ('midpoints', lambda: utils.midpoints(vals)),
        ('midpoints-log', lambda: utils.midpoints(pos, log=True)),
        ('midpoints-axis', lambda: utils.midpoints(grid, axis=0)),
        ('minmax', lambda: utils.minmax(vals, prev=prev, stretch=0.1, limit=[-1, 1])),
        ('minmax-positive', lambda: utils.minmax(vals, positive=True, log_stretch=0.1)),
        ('parse_edges', lambda: utils.parse_edges(mat, extrema=[[None, 3.0], None], weights=ww)),
        ('parse_edges-edges', lambda: utils.parse_edges(mat, edges=edges)),
        ('quantiles', lambda: utils.quantiles(vals, percs=[0.9, 0.1], weights=ww)),
        ('quantiles-arrays', lambda: utils.quantiles(vals, percs=percs, weights=ww)),
        ('quantiles-sigmas', lambda: utils.quantiles(vals, sigmas=sigmas, weights=ww)),
        ('quantiles-axis', lambda: utils.quantiles(mat, percs=[0.9, 0.1], axis=1)),
        ('iqrange', lambda: utils.iqrange(pos, log=True)),
        ('stats_str', lambda: utils.stats_str(vals, weights=ww) and 0.0),
        ('array_str', lambda: utils.array_str(vals) and 0.0),
        ('spacing', lambda: utils.spacing(pos, 'log', 10)),
        ('subdivide', lambda: utils.subdivide(np.sort(pos), 3)),
        ('subdivide-log', lambda: utils.subdivide(np.sort(pos), 2, log=True)),
        ('trapz_nd', lambda: utils.trapz_nd(grid, edges)),
        ('trapz_dens_to_mass', lambda: utils.trapz_dens_to_mass(grid, edges)),
        ('trapz_dens_to_mass-axis', lambda: utils.trapz_dens_to_mass(grid, edges, axis=[1])),
        ('flatten', lambda: utils.flatten([edges, vals])),
    ]


def case_utils(ctx):
    rng = ctx.rng
    menu = utils_calls(rng)
    order = rng.permutation(len(menu))
    ctx.note(order=[int(oo) for oo in order[:8]], calls=len(menu))
    ctx.tap.watch(frozen)
    first = {}
    for oo in order:
        name, func = menu[oo]
        first[name] = deep(func())
        ctx.state(name)
    for oo in rng.permutation(len(menu)):
        name, func = menu[oo]
        ctx.check(same_result(func(), first[name]), 'repeatable', what=name)


def case_grids(ctx):
    """Samplers of grids: arguments intact, and the sampler object repeatable."""
    rng = ctx.rng
    gdim = int(rng.integers(1, 4))
    edges = c13.make_edges(rng, gdim, most=6, least=3)
    dens = rng.uniform(0.1, 2, size=[ee.size for ee in edges])
    if rng.random() < 0.3:
        dens.ravel()[rng.integers(dens.size)] = 0.0
    scal = rng.normal(size=dens.shape)
    shape = [ee.size - 1 for ee in edges]
    mass = rng.uniform(0.1, 3, size=shape) if rng.random() < 0.6 else None
    smass = rng.normal(size=shape) if rng.random() < 0.4 else None
    thr = float(np.median(utils.trapz_dens_to_mass(dens, edges) if mass is None else mass))
    copies = deep([edges, dens, scal, mass, smass])
    ctx.note(dim=gdim, shape=list(dens.shape), mass=mass is not None, scalar_mass=smass is not None)
    ctx.state('mass' if mass is not None else '', 'scalar' if smass is not None else '', gdim)
    ctx.tap.watch(frozen)

    def build(which, ee, dd, ss, mm, sm):
        if which == 0:
            return kale.sample.Sample_Grid(ee, dd, mass=mm, scalar_dens=ss, scalar_mass=sm)
        return kale.sample.Sample_Outliers(ee, dd, threshold=thr, mass=mm)

    def module(which, size, ee, dd, ss, mm, sm):
        if which == 2:
            return kale.sample.sample_grid(ee, dd, size, mass=mm, scalar_dens=ss, scalar_mass=sm)
        return kale.sample.sample_outliers(ee, dd, thr, mass=mm, poisson_inside=bool(size % 2), poisson_outside=bool(size % 3))

    mine = [edges, dens, scal, mass, smass]
    samplers = [build(0, *mine), build(1, *mine)]

    def ask(which, size, args, objs=None):
        if which > 1:
            return module(which, size, *args)
        obj = build(which, *args) if objs is None else objs[which]
        return obj.sample(size) if which == 0 else obj.sample(poisson_inside=bool(size % 2), poisson_outside=bool(size % 3))

    log = []
    for _ in range(5):
        seed = int(rng.integers(2**31))
        which = int(rng.integers(4))
        size = int(rng.integers(5, 100))
        np.random.seed(seed)
        log.append((seed, which, size, deep(ask(which, size, mine, samplers))))
        ctx.check(digest(mine) == digest(copies), 'data-unchanged', after=which)
    for seed, which, size, got in log[::-1]:
        np.random.seed(seed)
        ctx.check(same_result(ask(which, size, mine, samplers), got), 'repeatable', which=which)
        np.random.seed(seed)
        ctx.check(same_result(ask(which, size, deep(copies)), got), 'history-independent', which=which)
    ctx.check(digest(mine) == digest(copies), 'data-unchanged')


def case_plots(ctx):
    """Plotting leaves its arguments alone (data, weights, edges, and dictionaries of options)."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3])
    num = int(rng.integers(30, 80))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'heavy']))
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform', 'heavy']))
    edges = [np.linspace(dd.min(), dd.max(), 8) for dd in data]
    kde = kale.KDE(data, weights=ww)
    copies = deep([data, ww, edges])
    d1, d2 = dict(hist=True), dict(scatter=False, hist=bool(rng.random() < 0.5))
    qnts = [0.3, 0.8]
    limits = [[dd.min() - 1, dd.max() + 1] for dd in data]
    marks, tops = [0.5] * dim, [None] + [1.0] * (dim - 1)
    arrays = rng.random() < 0.5
    if arrays:
        qnts, limits, marks = np.array(qnts), np.array(limits), np.array(marks)
    settings = deep([qnts, limits, marks, tops])
    probe = data[:, :5].copy()
    before = deep(kde.density(probe))
    ctx.tap.watch(frozen)
    what = gen.pick(rng, ['hist1d', 'hist2d', 'dist1d', 'dist2d', 'carpet', 'confidence', 'contour', 'corner', 'clean', 'hist', 'plot_data', 'target'])
    ctx.note(what=what, dim=dim, weighted=ww is not None)
    ctx.state(what, 'w' if ww is not None else '', 'arrays' if arrays else '')
    fig, ax = plt.subplots()
    try:
        if what == 'hist1d':
            kale.hist1d(data[0], edges=edges[0], weights=ww, ax=ax, renormalize=True, joints=False)
        elif what == 'hist2d':
            kale.hist2d(data[:2], edges=edges[:2], weights=ww, ax=ax, mask_below=True)
        elif what == 'dist1d':
            kale.dist1d(kde, edges=edges[0], ax=ax, quantiles=qnts, hist=True, density=True, confidence=True)
        elif what == 'dist2d':
            kale.dist2d(kde, edges=edges[:2], ax=ax, quantiles=qnts, params=[1, 0], smooth=1.0)
        elif what == 'carpet':
            kale.carpet(data[0], weights=ww, ax=ax, fancy=bool(rng.random() < 0.5), limit=None if rng.random() < 0.5 else 10)
        elif what == 'confidence':
            kale.confidence(data[0], weights=ww, ax=ax, quantiles=qnts)
        elif what == 'contour':
            kale.contour(data[:2], edges=edges[:2], weights=ww, ax=ax, quantiles=qnts)
        elif what == 'corner':
            kale.corner(kde, dist1d=d1, dist2d=d2, quantiles=qnts, kwcorner=dict(limits=limits), limit=True)
        elif what == 'target':
            cor = kale.Corner(data, weights=ww, limits=limits)
            cor.target(marks, upper_limits=tops)
        else:
            cor = kale.Corner(data, weights=ww, limits=limits)
            func = getattr(cor, what)
            func(dist1d=d1, dist2d=d2, quantiles=qnts, limit=True)
    finally:
        plt.close('all')
    ctx.check(digest([data, ww, edges]) == digest(copies), 'data-unchanged', what=what)
    ctx.check(d1 == dict(hist=True) and set(d2) == {'scatter', 'hist'}, 'options-unchanged', what=what, d1=d1, d2=d2)
    ctx.check(digest([qnts, limits, marks, tops]) == digest(settings), 'options-unchanged', what=what, arrays=arrays)
    ctx.check(same_result(kde.density(probe), before), 'history-independent', what=what)


def case_borrowed(ctx):
    """The inputs of any other check."""
    ctx.tap.watch(frozen)
    borrow.run(ctx, borrow.MODULES + ['c24'])


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'borrowed': (case_borrowed, 1200, 16000),
    'history': (case_history, 160, 3500),
    'reproducible': (case_reproducible, 110, 2500),
    'utils': (case_utils, 50, 1200),
    'grids': (case_grids, 50, 1000),
    'plots': (case_plots, 72, 1200),
}
