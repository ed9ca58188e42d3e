"""C35: memory in proportion to inputs and results, and none kept by repetition."""
import gc
import resource
import tracemalloc
import weakref

import matplotlib.pyplot as plt
import numpy as np
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("calls with thousands of data and points are made while allocations (tracemalloc) and the resident set of the process are watched: peaks are bounded by a multiple of the sizes of inputs and results, "
        "which the product of any two of them exceeds many times; values must be those of the same call made in pieces. The same calls are repeated, and nothing may remain: neither memory, nor objects")
ASSUMPTIONS = ["grids of D parameters have the product of the numbers of points along each of them (they are results)", "memory of compiled code is seen in the resident set only",
               "constant overheads of 48 MB (120 MB for plots) are allowed"]
MIN_VERDICTS = {'peak': 40, 'resident': 40, 'pieces': 15, 'repeated': 30, 'released': 30}

MB = 2**20


def resident_reset():
    try:
        with open('/proc/self/clear_refs', 'w') as out:
            out.write('5')
    except OSError:
        pass


def resident_peak():
    try:
        for line in open('/proc/self/status'):
            if line.startswith('VmHWM'):
                return int(line.split()[1]) * 1024
    except OSError:
        pass
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024


def measured(func):
    """Result of a call; peak of the memory it allocated; growth of the resident set."""
    gc.collect()
    resident_reset()
    start = resident_peak()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        res = func()
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    return res, peak, resident_peak() - start


def sizes(rng, prod=(4e7, 1e8)):
    """Two numbers with a large product."""
    total = rng.uniform(*prod)
    one = int(np.sqrt(total) * 10**rng.uniform(-0.4, 0.4))
    return one, int(total / one)


def bounded(ctx, peak, grown, linear, allow=48, **kw):
    """`linear` is the number of values of inputs and results."""
    limit = allow * MB + 30 * 8 * linear
    ctx.check(peak <= limit, 'peak', peak_mb=peak / MB, limit_mb=limit / MB, values=linear, **kw)
    ctx.check(grown <= limit, 'resident', grown_mb=grown / MB, limit_mb=limit / MB, values=linear, **kw)


def estimate(rng, num, dim, **kw):
    data = np.array([rng.normal(size=num) if rng.random() < 0.5 else rng.uniform(-2, 2, size=num) for _ in range(dim)])
    ww = rng.uniform(0.1, 2, size=num) if rng.random() < 0.5 else None
    reflect = None
    if rng.random() < 0.4:
        reflect = [[float(dd.min()) - 0.05, None if rng.random() < 0.5 else float(dd.max()) + 0.05] if rng.random() < 0.6 else None for dd in data]
    return kale.KDE(data, weights=ww, reflect=reflect, kernel=gen.pick(rng, ref.KERNELS), bandwidth=float(rng.uniform(0.1, 0.6)), **kw), data, ww, reflect


def warm():
    """Compiled functions and imports are not what is measured."""
    for kern in ref.KERNELS:
        kde = kale.KDE(np.random.RandomState(1).normal(size=(2, 30)), kernel=kern)
        kde.density(np.zeros((2, 3)))
        kde.cdf(np.zeros((2, 3)))
        kde.resample(10)
    data = np.random.RandomState(1).normal(size=(2, 50))
    for func, src in ((kale.dist1d, data[0]), (kale.dist2d, data)):
        fig, ax = plt.subplots()
        func(src, ax=ax)
        plt.close(fig)


_WARM = []


def ready():
    if not _WARM:
        warm()
        _WARM.append(1)


def case_density(ctx):
    """Many points of many data."""
    rng = ctx.rng
    ready()
    dim = int(rng.integers(1, 4))
    num, pts = sizes(rng)
    what = gen.pick(rng, ['points', 'points', 'params', 'grid', 'cdf'])
    if what == 'cdf':
        num, dim = int(rng.integers(4000, 8000)), int(rng.integers(1, 3))
    state = rng.bit_generator.state

    def make():
        rng.bit_generator.state = state
        return estimate(rng, num, dim)
    (kde, data, ww, reflect), peak, grown = measured(make)
    ctx.note(dim=dim, num=num, points=pts, what=what, weighted=ww is not None, reflect=reflect)
    ctx.state(what, dim, ww is not None, reflect is not None)
    bounded(ctx, peak, grown, data.size, what='construction')
    images = 1 if reflect is None else int(np.prod([1 if rr is None else 1 + sum(ll is not None for ll in rr) for rr in reflect]))
    where = rng.uniform(-2, 2, size=(dim, pts))
    kw = dict(probability=bool(rng.random() < 0.5))
    linear = data.size + images * where.size
    pick = None
    if what == 'params' and dim > 1:
        pick = [int(pp) for pp in rng.permutation(dim)[:int(rng.integers(1, dim))]]
        kw['params'] = pick
        where = where[:len(pick)]
    if what == 'grid':
        side = int(round(pts**(1.0 / dim)))
        grid = [np.linspace(-2, 2, side) for _ in range(dim)]
        res, peak, grown = measured(lambda: kde.density(grid, grid=True, **kw)[1])
        where = np.array([gg.flatten() for gg in np.meshgrid(*grid, indexing='ij')])
        res = res.flatten()
    elif what == 'cdf':
        pts = 2000
        where = where[:, :pts]
        res, peak, grown = measured(lambda: kde.cdf(where))
        linear = data.size + where.size + images * dim * int(np.prod([len(pp) for pp in (kde.points if dim > 1 else [np.ravel(kde.points)])]))
    else:
        res, peak, grown = measured(lambda: kde.density(where, **kw)[1])
    bounded(ctx, peak, grown, linear, what=what, num=num, points=pts)
    # the same in pieces
    some = rng.choice(where.shape[1], size=min(300, where.shape[1]), replace=False)
    if what == 'cdf':
        again = np.concatenate([kde.cdf(where[:, part]) for part in np.array_split(some, 3)])
    else:
        again = np.concatenate([kde.density(where[:, part], **kw)[1] for part in np.array_split(some, 3)])
    ctx.close(np.asarray(res)[some], again, 'pieces', rtol=1e-9, atol=1e-12 * float(np.max(np.abs(res))), what=what)


def case_other(ctx):
    """Draws, grids, quantiles, edges, histograms."""
    rng = ctx.rng
    ready()
    num, size = sizes(rng)
    what = gen.pick(rng, ['resample', 'resample', 'keep', 'grid', 'grid', 'outliers', 'quantiles', 'edges', 'from_hist', 'arrays'])
    ctx.note(num=num, size=size, what=what)
    ctx.state(what)
    if what in ('resample', 'keep'):
        dim = int(rng.integers(1, 4))
        kde, data, ww, reflect = estimate(rng, num, dim)
        keep = None
        if what == 'keep':
            keep = [dd for dd in range(dim) if reflect is None or reflect[dd] is None][:1] or None
        res, peak, grown = measured(lambda: kde.resample(size, keep=keep))
        ctx.check(np.size(res) == dim * size, 'draws', got=np.shape(res))
        # (candidates of reflected draws are drawn in chunks)
        linear = data.size + np.size(res) + 2**dim * min(size, 100000) * dim
    elif what in ('grid', 'outliers'):
        dim = int(rng.integers(1, 4))
        side = int(round(num**(1.0 / dim))) + 1
        edges = [np.sort(rng.uniform(size=side)) for _ in range(dim)]
        dens = rng.uniform(size=[side] * dim)
        if what == 'grid':
            kw = dict(scalar_dens=rng.uniform(size=[side] * dim)) if rng.random() < 0.5 else {}
            res, peak, grown = measured(lambda: kale.sample_grid(edges, dens, nsamp=size, **kw))
            got = res[0] if kw else res
        else:
            mass = utils.trapz_dens_to_mass(dens, edges)
            dens = dens * size / mass.sum()
            res, peak, grown = measured(lambda: kale.sample_outliers(edges, dens, threshold=2.0 * size / mass.size))
            got = res[1]
        ctx.check(np.size(got) > 0, 'draws', got=np.shape(got))
        linear = (2**dim + 2) * dens.size + (dim + 1) * size
    elif what == 'quantiles':
        vals = rng.normal(size=num)
        percs = np.sort(rng.uniform(size=size))
        ww = rng.uniform(size=num) if rng.random() < 0.5 else None
        res, peak, grown = measured(lambda: utils.quantiles(vals, percs=percs, weights=ww))
        some = rng.choice(size, size=200, replace=False)
        ctx.close(res[some], utils.quantiles(vals, percs=percs[some], weights=ww), 'pieces', rtol=1e-12, what=what)
        linear = num + size
    elif what == 'edges':
        dim = int(rng.integers(1, 4))
        data = rng.normal(size=(dim, num))
        ww = rng.uniform(size=num) if rng.random() < 0.5 else None
        res, peak, grown = measured(lambda: utils.parse_edges(data, weights=ww))
        linear = data.size + 3000
    elif what == 'from_hist':
        dim = int(rng.integers(1, 3))
        side = int(round(num**(1.0 / dim))) + 1
        bins = [np.linspace(0, 1, side + 1)] * dim
        hist = rng.integers(0, 20, size=[side] * dim)
        res, peak, grown = measured(lambda: kale.KDE.from_hist(bins if dim > 1 else bins[0], hist))
        linear = hist.size * (dim + 1)
    else:
        data = rng.normal(size=num)
        edges = np.linspace(-4, 4, 200)

        def calls():
            utils.histogram(data, bins=edges, density=True)
            utils.minmax(data, stretch=0.1)
            utils.bound_indices(data[np.newaxis, :], [[-1, 1]])
            utils.midpoints(data)
            utils.cumsum(data)
            utils.rem_cov(np.array([data, data[::-1]]))
            utils.stats_str(data)
            utils.iqrange(data)
        res, peak, grown = measured(calls)
        linear = num
    bounded(ctx, peak, grown, linear, what=what, num=num, size=size)


def case_plots(ctx):
    """Plots of many data."""
    rng = ctx.rng
    ready()
    num = int(rng.integers(9000, 15000))
    what = gen.pick(rng, ['dist1d', 'dist2d', 'confidence', 'carpet', 'contour', 'hist2d', 'corner'])
    data = rng.normal(size=(2, num))
    ww = rng.uniform(size=num) if rng.random() < 0.4 else None
    ctx.note(num=num, what=what, weighted=ww is not None)
    ctx.state('plot', what, ww is not None)

    def call():
        fig, ax = plt.subplots()
        try:
            if what == 'dist1d':
                kale.dist1d(data[0], ax=ax, weights=ww, density=True, hist=True, confidence=True, carpet=True)
            elif what == 'dist2d':
                kale.dist2d(data, ax=ax, weights=ww, hist=bool(rng.random() < 0.5))
            elif what == 'corner':
                plt.close(fig)
                fig = kale.Corner(data, weights=ww)
                fig.plot_data()
                fig = fig.fig
            elif what in ('confidence', 'carpet'):
                getattr(kale, what)(data[0], ax=ax, weights=ww)
            else:
                getattr(kale, what)(data, ax=ax, weights=ww)
        finally:
            plt.close(fig)
    _, peak, grown = measured(call)
    bounded(ctx, peak, grown, data.size, allow=120, what=what, num=num)


class _Thing:
    pass


def case_repeat(ctx):
    """Nothing remains of calls made again and again, and estimates are gone when nobody uses them any more."""
    rng = ctx.rng
    ready()
    num, dim = int(rng.integers(1200, 3000)), int(rng.integers(1, 3))
    what = gen.pick(rng, ['density', 'grid', 'resample', 'cdf', 'points', 'construct', 'construct', 'sample_grid', 'quantiles', 'functions', 'plot', 'rejected', 'from_hist'])
    kde, data, ww, reflect = estimate(rng, num, dim)
    ctx.note(what=what, num=num, dim=dim, weighted=ww is not None, reflect=reflect)
    ctx.state('repeat', what, dim, reflect is not None)
    edges = [np.linspace(-2, 2, 20)] * dim
    dens = rng.uniform(size=[20] * dim)
    count = [0]
    died = []

    def call():
        count[0] += 1
        kk = 1e-3 * count[0]      # (each call is a new one)
        if what == 'density':
            kde.density(data[:, :900] + kk, reflect=None if reflect is None else reflect)
        elif what == 'grid':
            kde.density([ee + kk for ee in edges], grid=True)
        elif what == 'resample':
            kde.resample(1500)
        elif what == 'cdf':
            kde.cdf(data[:, :900] + kk)
        elif what == 'points':
            kde.density(params=int(rng.integers(dim)))
        elif what == 'construct':
            new = kale.KDE(data + kk, weights=ww, bandwidth=0.3 + kk)
            new.density(data[:, :800])
            new.resample(900)
            if dim == 1:
                new.cdf(data[:, :5])
            died.append(weakref.ref(new))
        elif what == 'sample_grid':
            samp = kale.sample.Sample_Grid(edges, dens + kk)
            samp.sample(1500)
            died.append(weakref.ref(samp))
        elif what == 'quantiles':
            utils.quantiles(data[0] + kk, percs=[0.1, 0.5], weights=ww)
            utils.parse_edges(data + kk, weights=ww)
        elif what == 'functions':
            kale.density(data + kk, data[:, :800], weights=ww)
            kale.resample(data + kk, size=800, weights=ww)
        elif what == 'from_hist':
            new = kale.KDE.from_hist(edges if dim > 1 else edges[0], 1.0 + kk + np.ones([19] * dim))
            died.append(weakref.ref(new))
        elif what == 'rejected':
            try:
                kale.KDE(data + kk, weights=np.ones(3))
            except ValueError:
                pass
            try:
                kde.density(np.zeros((dim + 1, 500)) + kk)
            except ValueError:
                pass
        else:
            fig, ax = plt.subplots()
            kale.dist1d(data[0] + kk, ax=ax, weights=ww, density=True)
            if dim > 1:
                fig2, ax = plt.subplots()
                kale.dist2d(data[:, :300] + kk, ax=ax)
                plt.close(fig2)
            plt.close(fig)
            died.append(weakref.ref(fig))
    reps = 8 if what == 'plot' else 25
    for _ in range(4):
        call()
    gc.collect()
    tracemalloc.start()
    try:
        for _ in range(2):
            call()
        gc.collect()
        base = tracemalloc.get_traced_memory()[0]
        for _ in range(reps):
            call()
        gc.collect()
        more = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
    # (numpy keeps small pieces of memory for itself; one array of the data for each of the calls would be more)
    limit = 120000 if what == 'plot' else 50000 + 600 * reps
    ctx.check(more <= limit, 'repeated', grown=more, limit=limit, calls=reps, what=what)
    if died:
        left = sum(rr() is not None for rr in died)
        # (matplotlib may hold on to the figure closed last)
        ctx.check(left <= (1 if what == 'plot' else 0), 'released', left=left, of=len(died), what=what)
    # the estimate itself
    ref_ = weakref.ref(kde)
    kern = weakref.ref(kde.kernel)
    del kde
    call = None     # noqa
    gc.collect()
    ctx.check(ref_() is None and kern() is None, 'released', what=what, estimate=ref_() is None, kernel=kern() is None)


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'density': (case_density, 24, 500),
    'other': (case_other, 40, 1200),
    'plots': (case_plots, 14, 250),
    'repeat': (case_repeat, 60, 1500),
}
