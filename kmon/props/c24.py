"""C24: unusable inputs are rejected, and neither rejected nor interrupted calls leave a trace."""
import os
import sys

import numpy as np
import matplotlib.pyplot as plt
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip
from . import c03, c13, c19

RULE = ("valid objects, then random malformed calls (drawn from menus of unusable data, weights, kernels, bandwidths, covariances, boundaries, points, parameters, grids "
        "and options, each at random positions and sizes); every one must raise, leave arguments and objects unchanged (bytes), and later valid requests must equal those of fresh "
        "objects; likewise after an exception is injected at a random line in the middle of a valid call")
ASSUMPTIONS = ["any exception type counts as a rejection", "negative parameter indices count from the end, as in numpy (not malformed)",
               "data outside of the boundaries are warned about, as documented"]
MIN_VERDICTS = {'rejected-data': 60, 'rejected-weights': 60, 'rejected-kernel': 15, 'rejected-bandwidth': 30, 'rejected-covariance': 20, 'rejected-boundaries': 40,
                'rejected-points': 60, 'rejected-params': 30, 'rejected-resample': 30, 'rejected-grid': 60, 'rejected-utils': 60, 'rejected-plot': 30,
                'argument-unchanged': 500, 'object-unchanged': 400, 'later-calls': 150, 'after-interruption': 100}


def refuse(ctx, group, name, func, given=()):
    """One malformed call: it must raise, and leave what it was given."""
    before = c19.digest(list(given))
    ctx.state(group, name)
    ctx.count('malformed_calls')
    ctx.raises(func, 'rejected-' + group, what=name)
    if given:
        ctx.check(c19.digest(list(given)) == before, 'argument-unchanged', what=name)


def spoil(rng, arr, values):
    """A copy with one element replaced."""
    arr = np.array(arr, dtype=float)
    pos = tuple(int(rng.integers(ss)) for ss in arr.shape)
    arr[pos] = gen.pick(rng, values)
    return arr


def setup(ctx, dims=(1, 1, 2, 2, 3)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(max(8, 4 * dim), 50))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'mixed', 'offset', 'ints'])
    data = gen.dataset(rng, dim, num, style)
    if not gen.well_conditioned(data, None):
        raise Skip
    return dim, num, data, style


def wrong_size(rng, right, *more):
    return int(gen.pick(rng, [ss for ss in (right - 1, right + 1, right + 5, 2 * right, *more) if ss != right and ss > 0]))


def menu_construct(rng, dim, num, data):
    """(group, name, keyword arguments, dataset) of unusable KDEs."""
    flat = data if (dim > 1 or rng.random() < 0.5) else data[0]
    ww = rng.uniform(0.1, 2, size=num)
    cov = np.atleast_2d(np.cov(data))
    other = wrong_size(rng, dim)
    out = []

    def add(group, name, dataset=flat, **kw):
        out.append((group, name, dataset, kw))

    bad = [np.nan, np.inf, -np.inf]
    add('data', 'non-finite', spoil(rng, flat, bad))
    add('data', 'non-finite+cov', spoil(rng, flat, bad), covariance=cov)
    add('data', 'non-finite+bw', spoil(rng, flat, bad), bandwidth=0.4, weights=ww)
    add('data', 'non-finite+bw list', spoil(rng, flat, bad).tolist(), bandwidth=0.4)
    add('data', 'empty', np.zeros((dim, 0)) if rng.random() < 0.5 else [])
    add('data', 'text', [['a', 'b', 'c']] * dim)
    add('data', 'three-dimensional', rng.normal(size=(dim, num, 2)))
    add('data', 'jagged', [[1.0, 2.0, 3.0], [1.0, 2.0]])
    add('data', 'complex', flat + 1j)
    # weights
    add('weights', 'length', weights=rng.uniform(0.1, 2, size=wrong_size(rng, num, 1)))
    add('weights', 'length list', weights=[1.0] * wrong_size(rng, num))
    add('weights', 'empty', weights=np.ones(0))
    add('weights', 'shape (1,N)', weights=ww[np.newaxis, :])
    add('weights', 'shape (N,1)', weights=ww[:, np.newaxis])
    add('weights', 'shape (D,N)', weights=np.ones((dim + 1, num)))
    add('weights', 'scalar', weights=1.0)
    add('weights', 'zeros', weights=np.zeros(num))
    add('weights', 'text', weights='a' * num)
    add('weights', 'negative', weights=spoil(rng, ww, [-1.0, -1e-6, -np.inf]))
    add('weights', 'all negative', weights=-ww)
    add('weights', 'nan', weights=spoil(rng, ww, [np.nan]))
    add('weights', 'inf', weights=spoil(rng, ww, [np.inf]))
    add('weights', 'nan+cov', weights=spoil(rng, ww, [np.nan, np.inf, -0.5]), covariance=cov, neff=20)
    # kernels
    add('kernel', 'name', kernel=gen.pick(rng, ['gauss1an', 'boxcar', 'foo', 'tri', 'uniform_', '?']))
    add('kernel', 'object', kernel=gen.pick(rng, [3, 2.5, dict, {}, [], ('gaussian',)]))
    add('kernel', 'unknown keyword', **{gen.pick(rng, ['bandwith', 'kernal', 'weight', 'foo']): 1})
    # bandwidths
    add('bandwidth', 'name', bandwidth=gen.pick(rng, ['scot', 'silver', 'foo', 'auto', '', 'bin width']))
    add('bandwidth', 'zero', bandwidth=0.0)
    add('bandwidth', 'nan', bandwidth=gen.pick(rng, [np.nan, [np.nan]]))
    add('bandwidth', 'dict', bandwidth={'a': 1})
    add('bandwidth', 'vector length', bandwidth=rng.uniform(0.1, 1, size=wrong_size(rng, dim) if dim > 2 else dim + 1 + int(rng.integers(3))))
    nn = dim + 1 + int(rng.integers(2))
    add('bandwidth', 'matrix shape', bandwidth=np.eye(nn) * 0.5)
    add('bandwidth', 'matrix shape', bandwidth=np.ones((dim, nn)))
    add('bandwidth', 'rescale zero', bw_rescale=0.0)
    add('bandwidth', 'rescale nan', bw_rescale=np.nan)
    if dim > 1:
        vec = rng.uniform(0.2, 1, size=dim)
        jj = int(rng.integers(dim))
        add('bandwidth', 'vector zero', bandwidth=np.where(np.arange(dim) == jj, 0.0, vec))
        add('bandwidth', 'vector nan', bandwidth=np.where(np.arange(dim) == jj, np.nan, vec))
        names = ['scott'] * dim
        names[jj] = 'foo'
        add('bandwidth', 'vector name', bandwidth=names)
        mat = np.full((dim, dim), 0.9)
        mat[range(dim), range(dim)] = 0.1
        add('bandwidth', 'indefinite', bandwidth=mat, covariance=np.full((dim, dim), 0.99) + 0.01 * np.eye(dim))
    add('bandwidth', 'neff', neff=gen.pick(rng, [0, 0.0, -3, np.nan]))
    # covariances
    add('covariance', 'shape', covariance=np.eye(other))
    add('covariance', 'shape', covariance=np.eye(dim + 1)[:dim])
    add('covariance', 'vector', covariance=rng.uniform(0.5, 2, size=dim + 1 if dim == 1 else dim))
    add('covariance', 'nan', covariance=np.where(np.eye(dim) > 0, np.nan, cov))
    add('covariance', 'inf', covariance=np.where(np.eye(dim) > 0, np.inf, cov))
    if dim % 2:
        add('covariance', 'negative', covariance=-cov)
    if dim > 1:
        ind = np.eye(dim)
        ind[0, 1] = ind[1, 0] = 2.0
        add('covariance', 'indefinite', covariance=ind)
        add('covariance', 'scalar', covariance=2.0)
        add('covariance', 'negative', covariance=-np.diag(np.diag(cov)))
    # boundaries
    for name, refl in menu_reflect(rng, dim, data):
        add('boundaries', name, reflect=refl)
    # evaluation points
    add('points', 'specification', points=gen.pick(rng, ['foo', [np.linspace(0, 1, 5)] * (dim + 1 if dim > 1 else 3)]))
    return out


def menu_reflect(rng, dim, data):
    jj = int(rng.integers(dim))
    lo, hi = data[jj].min() - 1.0, data[jj].max() + 1.0

    def at(val):
        refl = [None] * dim
        refl[jj] = val
        return refl

    out = [('reversed', at([hi, lo])), ('equal', at([hi, hi])), ('nan', at([np.nan, None])), ('nan', at([lo, np.nan])),
           ('one value', at([lo])), ('three values', at([lo, 0.5 * (lo + hi), hi])), ('text', at(['x', None])),
           ('text', 'ab'), ('number', 5.0)]
    out.append(('too many', [[lo, hi]] * (dim + 1 + (dim == 1))))
    if dim > 1:
        out.append(('too few', [[lo, hi]] * (dim - 1)))
        out.append(('number inside', at(lo)))
    return out


def use(dataset, kw, pts):
    """Construct and use: the numbers must never come out."""
    kde = kale.KDE(dataset, **kw)
    if 'points' in kw:
        return kde.density()
    return kde.density(pts)


def case_construct(ctx):
    rng = ctx.rng
    dim, num, data, style = setup(ctx)
    kde = kale.KDE(data, bandwidth=0.5)
    pts = data[:, :4].copy()
    base = kde.density(pts)[1].copy()
    menu = menu_construct(rng, dim, num, data)
    use_items = [menu[ii] for ii in rng.permutation(len(menu))[:14]]
    kernel = gen.pick(rng, ref.KERNELS)
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, items=[it[0] + ':' + it[1] for it in use_items])
    keep = data.copy()
    for group, name, dataset, kw in use_items:
        kw.setdefault('kernel', kernel)
        refuse(ctx, group, name, lambda: use(dataset, kw, pts), given=[dataset, kw])
        ctx.check(np.array_equal(data, keep), 'argument-unchanged', what=name)
        # the same arguments without what was wrong work as before
        ctx.check(np.array_equal(kde.density(pts)[1], base), 'object-unchanged', what=name)
    fresh = kale.KDE(data.copy(), bandwidth=0.5)
    ctx.check(np.array_equal(fresh.density(pts.copy())[1], base), 'later-calls')


def menu_calls(rng, kde, dim, data):
    """(group, name, function, mutable arguments) of malformed requests to a valid KDE."""
    num = int(rng.integers(2, 7))
    good = data[:, rng.integers(data.shape[1], size=num)].copy()
    out = []

    def add(group, name, func, *given):
        out.append((group, name, func, given))

    what = gen.pick(rng, ['density', 'pdf'])
    ask = getattr(kde, what)
    many = np.zeros((dim + 1 + int(rng.integers(2)), num))
    add('points', 'too many rows', lambda: ask(many), many)
    few = np.zeros((dim - 1, num))
    if dim > 1:
        add('points', 'too few rows', lambda: ask(few), few)
        flat = np.zeros(num)
        add('points', 'flat', lambda: ask(flat), flat)
        add('points', 'scalar', lambda: ask(1.0))
        tall = np.zeros((dim + 2, dim))
        add('points', 'transposed', lambda: ask(tall), tall)
        add('points', 'jagged', lambda: ask([[1.0, 2.0], [1.0]] + [[1.0]] * (dim - 2)))
    add('points', 'three-dimensional', lambda: ask(np.zeros((dim, num, 2))))
    add('points', 'text', lambda: ask('ab'))
    add('points', 'text', lambda: ask([['a', 'b']] * dim))
    axes = [np.linspace(0, 1, 3)] * (dim + 1)
    add('points', 'grid axes', lambda: ask(axes, grid=True), axes)
    if dim > 1:
        less = [np.linspace(0, 1, 3)] * (dim - 1)
        add('points', 'grid axes', lambda: ask(less, grid=True), less)
    add('points', 'cdf', lambda: kde.cdf(many), many)
    if dim > 1:
        add('points', 'cdf', lambda: kde.cdf(np.zeros(dim + 1)))
    add('params', 'cdf', lambda: kde.cdf(good, params=[0]), good)
    add('boundaries', 'cdf', lambda: kde.cdf(good, reflect=[[-99, 99]] * dim), good)
    # parameters
    one = np.zeros((1, num))
    add('params', 'out of range', lambda: ask(one, params=[dim]), one)
    add('params', 'out of range', lambda: ask(np.zeros(num), params=dim + int(rng.integers(0, 3))))
    if dim > 1:
        two = np.zeros((2, num))
        jj = int(rng.integers(dim))
        add('params', 'repeated', lambda: ask(two, params=[jj, jj]), two)
        three = np.zeros((3, num))
        add('params', 'repeated', lambda: ask(three, params=[0, 1, 0]), three)
        # (the same parameter, counted from either end)
        add('params', 'repeated', lambda: ask(two, params=[jj, jj - dim]), two)
        add('params', 'repeated', lambda: ask(three, params=gen.pick(rng, [[0, 1, -dim], [-1, 0, dim - 1], [-dim, 1, 0]])), three)
        add('params', 'mismatch', lambda: ask(two, params=[jj]), two)
        add('params', 'mismatch', lambda: ask(one, params=[0, 1]), one)
        add('params', 'text', lambda: ask(one, params='a'), one)
        add('params', 'fraction', lambda: ask(one, params=0.5), one)
        add('params', 'mixed', lambda: ask(two, params=[0, dim]), two)
        add('params', 'grid', lambda: ask([np.linspace(0, 1, 3)] * 2, params=[0], grid=True))
    # boundaries for one call
    for name, refl in menu_reflect(rng, dim, data):
        add('boundaries', 'call ' + name, lambda refl=refl: ask(good, reflect=refl), good, refl)
        if rng.random() < 0.5:
            add('boundaries', 'draw ' + name, lambda refl=refl: kde.resample(7, reflect=refl), refl)
    # draws
    add('resample', 'negative', lambda: kde.resample(-int(rng.integers(1, 9))))
    add('resample', 'nan', lambda: kde.resample(np.nan))
    add('resample', 'text', lambda: kde.resample('many'))
    add('resample', 'list', lambda: kde.resample([3, 4]))
    add('resample', 'keep', lambda: kde.resample(5, keep=dim))
    add('resample', 'keep', lambda: kde.resample(5, keep=list(range(dim + 1))))
    add('resample', 'keep text', lambda: kde.resample(5, keep='foo'))
    far = [[data[jj].max() + 1e3 * (1 + np.ptp(data[jj])), data[jj].max() + 1e3 * (1 + np.ptp(data[jj])) + 1e-3] for jj in range(dim)]
    add('resample', 'unreachable boundaries', lambda: kde.resample(40, reflect=far), far)
    both = [None] * dim
    jj = int(rng.integers(dim))
    both[jj] = [data[jj].min() - 1, None]
    add('resample', 'keep and reflect', lambda: kde.resample(5, keep=[jj], reflect=both), both)
    # convenience functions
    ww = np.ones(data.shape[1])
    add('weights', 'convenience', lambda: kale.density(data, points=good, weights=ww[:-1]), good, ww)
    add('kernel', 'convenience', lambda: kale.pdf(data, points=good, kernel='foo'), good)
    add('points', 'convenience', lambda: kale.density(data, points=many), many)
    add('kernel', 'unknown keyword', lambda: ask(good, foo=3), good)
    return out


def requests(rng, dim, data, reflect):
    """Valid requests, to be repeated on used and fresh objects."""
    out = []
    for _ in range(5):
        out.append(c19.query(rng, dim, data, reflect))
    return out


def pool(ctx):
    rng = ctx.rng
    dim, num, style, data, ww = c19.shared_pool(ctx, dims=(1, 1, 2, 2, 3))
    spec = c19.make_spec(rng, dim, num, data, ww)
    if dim > 2:
        spec['points'] = int(rng.integers(4, 9))        # (keep the default grids small)
    return dim, num, style, data, ww, spec


def agree(ctx, key, reqs, kde, fresh, **kw):
    for name, func in reqs:
        got = c19.deep(func(kde))
        want = c19.deep(func(fresh))
        ctx.check(c19.same_result(got, want), key, request=name, **kw)


def case_calls(ctx):
    rng = ctx.rng
    dim, num, style, data, ww, spec = pool(ctx)
    pristine, wpristine = data.copy(), None if ww is None else ww.copy()
    kde = c19.build(c19.deep(spec), data, ww)
    reqs = requests(rng, dim, data, spec['reflect'])
    if rng.random() < 0.5:
        agree(ctx, 'later-calls', reqs[:2], kde, c19.build(c19.deep(spec), pristine.copy(), c19.deep(wpristine)), before=[])
    menu = menu_calls(rng, kde, dim, data)
    items = [menu[ii] for ii in rng.permutation(len(menu))[:14]]
    ctx.note(dim=dim, num=num, data=style, kernel=spec['kernel'], weighted=spec['weighted'], reflect=spec['reflect'],
             items=[it[0] + ':' + it[1] for it in items])
    done = []
    for group, name, func, given in items:
        before = c19.digest(kde)
        refuse(ctx, group, name, func, given)
        ctx.check(c19.digest(kde) == before, 'object-unchanged', what=name)
        done.append(name)
        if rng.random() < 0.25:
            agree(ctx, 'later-calls', [gen.pick(rng, reqs)], kde, c19.build(c19.deep(spec), pristine.copy(), c19.deep(wpristine)), before=done)
    ctx.check(np.array_equal(data, pristine), 'argument-unchanged', what='data')
    agree(ctx, 'later-calls', reqs, kde, c19.build(c19.deep(spec), pristine.copy(), c19.deep(wpristine)), before=done)


# ---- interruptions

class Injected(Exception):
    pass


class Interrupter:
    """Raises at the n-th executed line of kalepy's own code."""

    def __init__(self, at):
        self.at, self.seen, self.where = at, 0, None
        self.root = os.path.dirname(os.path.abspath(kale.__file__))

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.seen += 1
            if self.at is not None and self.seen == self.at:
                self.where = '{}:{}'.format(frame.f_code.co_name, frame.f_lineno)
                raise Injected(self.where)
        return self._line

    def run(self, func):
        sys.settrace(self._call)
        try:
            func()
        except Exception:       # (handlers in the code under test may replace the injected error)
            if self.where is None:
                raise
        finally:
            sys.settrace(None)
        return self.where is not None


def case_interrupt(ctx):
    """An exception in the middle of a valid call (e.g. an interrupt, or lack of memory)."""
    rng = ctx.rng
    dim, num, style, data, ww, spec = pool(ctx)
    if spec['points'] is None and dim > 1:
        spec['points'] = int(rng.integers(4, 9))
    pristine, wpristine = data.copy(), None if ww is None else ww.copy()
    reqs = requests(rng, dim, data, spec['reflect'])
    probe = data[:, :3].copy()
    reqs += [('cdf', lambda kde: kde.cdf(probe.copy() if dim > 1 else probe[0].copy())), ('points', lambda kde: tuple(np.asarray(pp) for pp in np.atleast_1d(kde.points)) if dim == 1 else list(kde.points)),
             ('density', lambda kde: kde.density(probe.copy()))]
    ctx.note(dim=dim, num=num, data=style, kernel=spec['kernel'], weighted=spec['weighted'], reflect=spec['reflect'], requests=[rr[0] for rr in reqs])
    fresh = c19.build(c19.deep(spec), pristine.copy(), c19.deep(wpristine))
    kde = c19.build(c19.deep(spec), data, ww)
    order = [reqs[ii] for ii in rng.permutation(len(reqs))]
    wheres = []
    for name, func in order[:4]:
        # how many lines does this call execute on an object in the same state?
        twin = c19.build(c19.deep(spec), pristine.copy(), c19.deep(wpristine))
        count = Interrupter(None)
        count.run(lambda: func(twin))
        ctx.count('lines_traced', count.seen)
        for _ in range(3):
            inter = Interrupter(int(rng.integers(1, max(count.seen, 1) + 1)))
            before = c19.digest(kde)
            if inter.run(lambda: func(kde)):
                ctx.count('interruptions')
                wheres.append(inter.where)
                ctx.state('interrupted', name, inter.where.split(':')[0])
            ctx.check(c19.digest(kde) == before, 'object-unchanged', what=name, where=inter.where)
            if rng.random() < 0.5:
                agree(ctx, 'after-interruption', [gen.pick(rng, reqs)], kde, fresh, where=wheres)
    ctx.check(np.array_equal(data, pristine), 'argument-unchanged', what='data')
    agree(ctx, 'after-interruption', reqs, kde, fresh, where=wheres)


# ---- grids

def case_grid(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    edges = c13.make_edges(rng, dim, most=6, least=3)
    dens = rng.uniform(0.1, 2, size=[ee.size for ee in edges])
    sh = list(dens.shape)
    jj = int(rng.integers(dim))
    off = gen.pick(rng, [-1, 1])
    wrong = np.ones([ss + off * (ii == jj) for ii, ss in enumerate(sh)])
    ctx.note(shape=sh, axis=jj, off=off)
    copies = c19.deep([edges, dens])
    smp = kale.sample.Sample_Grid(edges, dens)
    np.random.seed(3)
    base = smp.sample(9)
    out = kale.sample.Sample_Outliers(edges, dens, threshold=1.0)
    more = edges + [edges[0]]
    same = c13.make_edges(rng, 2, most=4, least=4)      # as many bins in each dimension
    square = rng.uniform(0.1, 2, size=(4, 4))
    bins = np.ones([ss - 1 for ss in sh])
    badm = np.ones([ss - 1 + (ii == jj) for ii, ss in enumerate(sh)])
    calls = [
        ('density shape', lambda: kale.sample_grid(edges, wrong, 10)),
        ('density shape', lambda: kale.sample.Sample_Grid(edges, wrong)),
        ('density shape', lambda: kale.sample_outliers(edges, wrong, 1.0)),
        ('edges number', lambda: kale.sample_grid(more, dens, 10)),
        ('mass shape', lambda: kale.sample_grid(edges, dens, 10, mass=badm)),
        ('mass shape', lambda: kale.sample_outliers(edges, dens, 1.0, mass=dens)),
        ('mass dimensions', lambda: kale.sample_grid(same, square, 10, mass=np.ones(3))),
        ('integral dimensions', lambda: utils.trapz_nd(square, same[:1])),
        ('integral dimensions', lambda: utils.trapz_dens_to_mass(square, same[:1])),
        ('negative number', lambda: kale.sample_grid(edges, dens, -int(rng.integers(1, 5)))),
        ('text number', lambda: kale.sample_grid(edges, dens, 'many')),
        ('nan number', lambda: kale.sample_grid(edges, dens, np.nan)),
        ('negative number', lambda: smp.sample(-3)),
        ('no mass', lambda: kale.sample_grid(edges, dens * 0.0, 10)),
        ('proportional shape', lambda: kale.sample_grid_proportional(edges, dens, np.ones([ss + 1 for ss in sh]), 10)),
        ('threshold', lambda: kale.sample_outliers(edges, dens, None)),
        ('scalars of outliers', lambda: out.sample(return_scalar=True)),
        ('unknown option', lambda: kale.sample_grid(edges, dens, 10, foo=3)),
        ('scalar shape', lambda: kale.sample_grid(edges, dens, 10, scalar_dens=np.ones([ss + 2 for ss in sh] + [2]))),
        ('histogram shape', lambda: kale.KDE.from_hist(edges, dens)),
        ('histogram shape', lambda: kale.KDE.from_hist(edges, badm)),
        ('histogram empty', lambda: kale.KDE.from_hist(edges, bins * 0.0)),
        ('histogram nan', lambda: kale.KDE.from_hist(edges, spoil(rng, bins, [np.nan, np.inf]))),
        ('histogram negative', lambda: kale.KDE.from_hist(edges, spoil(rng, bins * 9, [-1.0]))),
        ('integral shape', lambda: utils.trapz_nd(wrong, edges)),
        ('integral shape', lambda: utils.trapz_dens_to_mass(wrong, edges)),
        ('integral shape', lambda: utils.cumtrapz(wrong, edges)),
        ('centroid shape', lambda: utils.centroids(edges, wrong)),
    ]
    if dim > 1:
        calls += [('edges number', lambda: kale.sample_grid(edges[:-1], dens, 10)),
                  ('integral axes', lambda: utils.trapz_nd(dens, more)),
                  ('integral axes', lambda: utils.trapz_nd(dens, edges[:-1]))]
    for ii in rng.permutation(len(calls)):
        name, func = calls[ii]
        refuse(ctx, 'grid', name, func, given=[edges, dens, wrong, bins, badm])
    ctx.check(c19.digest([edges, dens]) == c19.digest(copies), 'argument-unchanged')
    np.random.seed(3)
    ctx.check(c19.same_result(smp.sample(9), base), 'later-calls', what='sampler')
    np.random.seed(3)
    ctx.check(c19.same_result(kale.sample.Sample_Grid(*c19.deep(copies)).sample(9), base), 'later-calls', what='fresh sampler')


def case_utils(ctx):
    rng = ctx.rng
    num = int(rng.integers(6, 30))
    vals = rng.normal(size=num)
    mat = rng.normal(size=(2, num))
    ww = rng.uniform(0.1, 1, size=num)
    ctx.note(num=num)
    short = ww[:-1] if rng.random() < 0.5 else np.append(ww, 1.0)
    calls = [
        ('quantiles percs', lambda: utils.quantiles(vals, percs=[0.5, gen.pick(rng, [1.5, -0.1, 1.0001])])),
        ('quantiles percs', lambda: utils.quantiles(vals, percs=[gen.pick(rng, [1.5, -0.1])], weights=ww)),
        ('quantiles weights', lambda: utils.quantiles(vals, percs=[0.5], weights=short)),
        ('quantiles none', lambda: utils.quantiles(vals, percs=None, sigmas=None, weights=short)),
        ('bounds number', lambda: utils.bound_indices(mat, [[0, 1]] * 3)),
        ('histogram weights', lambda: utils.histogram(vals, weights=short)),
        ('spacing scale', lambda: utils.spacing([1, 2], gen.pick(rng, ['foo', 'cubic', '']), 5)),
        ('midpoints single', lambda: utils.midpoints([1.0])),
        ('midpoints scalar', lambda: utils.midpoints(1.0)),
        ('edges negative', lambda: utils.parse_edges(mat, edges=-int(rng.integers(2, 9)))),
        ('edges extrema', lambda: utils.parse_edges(mat, extrema=[[0, 1]] * 3)),
        ('edges weights', lambda: utils.parse_edges(mat, weights=short)),
        ('edges text', lambda: utils.parse_edges(mat, edges='abc')),
        ('edges list', lambda: utils.parse_edges(mat, edges=[np.linspace(0, 1, 4)] * 3)),
        ('covariance shape', lambda: utils.add_cov(mat, np.eye(3))),
        ('covariance indefinite', lambda: utils.add_cov(mat, -np.eye(2))),
        ('keep and reflect', lambda: utils.cov_keep_vars(np.eye(2), [1], reflect=[None, [0, 1]])),
        ('keep range', lambda: utils.cov_keep_vars(np.eye(2), [2])),
    ]
    for ii in rng.permutation(len(calls)):
        name, func = calls[ii]
        refuse(ctx, 'utils', name, func, given=[vals, mat, ww, short])


def case_plots(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [2, 3])
    num = int(rng.integers(20, 50))
    data = rng.normal(size=(dim, num))
    ww = rng.uniform(0.2, 1, size=num)
    kde = kale.KDE(data)
    probe = data[:, :3].copy()
    base = kde.density(probe)[1].copy()
    lims = [[dd.min() - 1, dd.max() + 1] for dd in data]
    ctx.note(dim=dim, num=num)
    params = dict(plt.rcParams)
    fig, ax = plt.subplots()
    short = ww[:-1]
    calls = [
        ('corner size', lambda: kale.Corner(gen.pick(rng, [2.5, 'foo', None]))),
        ('corner dimension', lambda: kale.Corner(dim + 1).clean(data)),
        ('corner dimension', lambda: kale.Corner(dim + 1).plot(kde)),
        ('corner without data', lambda: kale.Corner(dim).plot()),
        ('corner weights', lambda: kale.Corner(kde, weights=ww)),
        ('corner weights', lambda: kale.corner(kde, weights=ww)),
        ('corner weights length', lambda: kale.Corner(data, weights=short).clean()),
        ('corner limits', lambda: kale.Corner(data, limits=lims + lims[:1])),
        ('corner origin', lambda: kale.Corner(dim, origin='xx')),
        ('corner target', lambda: kale.Corner(data, limits=lims).target([1.0] * (dim - 1))),
        ('dist1d weights', lambda: kale.dist1d(kale.KDE(data[0]), weights=ww, ax=ax)),
        ('dist1d weights length', lambda: kale.dist1d(data[0], weights=short, ax=ax)),
        ('dist1d dimension', lambda: kale.dist1d(data, ax=ax)),
        ('dist2d params', lambda: kale.dist2d(data, params=[0], ax=ax)),
        ('dist2d weights', lambda: kale.dist2d(kde, weights=ww, ax=ax)),
        ('carpet random', lambda: kale.carpet(data[0], random='foo', ax=ax)),
        ('hist1d weights', lambda: kale.hist1d(data[0], weights=short, ax=ax)),
        ('hist2d weights', lambda: kale.hist2d(data[:2], weights=short, ax=ax)),
        ('confidence weights', lambda: kale.confidence(data[0], weights=short, ax=ax)),
        ('contour weights', lambda: kale.contour(data[:2], weights=short, ax=ax)),
    ]
    try:
        for ii in rng.permutation(len(calls))[:9]:
            name, func = calls[ii]
            refuse(ctx, 'plot', name, func, given=[data, ww, short, lims])
    finally:
        plt.close('all')
    ctx.check(dict(plt.rcParams) == params, 'object-unchanged', what='rcParams')
    ctx.check(np.array_equal(kde.density(probe)[1], base), 'object-unchanged', what='kde')


KINDS = {
    'construct': (case_construct, 90, 14000),
    'calls': (case_calls, 70, 10000),
    'interrupt': (case_interrupt, 50, 6000),
    'grid': (case_grid, 25, 2500),
    'utils': (case_utils, 25, 2000),
    'plots': (case_plots, 12, 1000),
}
