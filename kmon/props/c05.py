"""C05: how a density is asked for does not change it (grid, order, batches, wrappers, shapes)."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c01, c03

RULE = ("random KDEs (reflected, weighted, projected) queried in equivalent ways: grid / mesh, permuted, split, repeated, one at a "
        "time, as lists, through the wrappers; results must agree to rounding, and shapes must follow the request")
ASSUMPTIONS = ["agreement to 1e-11 relative (the same arithmetic on the same numbers)"]
MIN_VERDICTS = {'walk': 60, 'auto-params-points': 15, 'grid': 60, 'permuted': 60, 'split': 60}


def same(ctx, got, want, key, **kw):
    want = np.asarray(want, dtype=float)
    top = np.max(np.abs(want)) if want.size else 1.0
    return ctx.close(got, want, key, rtol=1e-10, atol=1e-14 * top, **kw)


def setup(ctx, dims=(1, 1, 2, 2, 3)):
    dim, num, data, ww, kernel, kw, mat, reflect = c03.make(ctx, dims)
    if ctx.rng.random() < 0.5:
        reflect = None
    flat = dim == 1 and ctx.rng.random() < 0.7
    opts = dict(weights=ww, kernel=kernel, reflect=reflect, **kw)
    given = data[0] if flat else data
    return dim, data, given, flat, opts, mat, kale.KDE(given, **opts)


def case_query(ctx):
    rng = ctx.rng
    dim, data, given, flat, opts, mat, kde = setup(ctx)
    refl = opts['reflect'] or [None] * dim
    num = int(rng.integers(1, 40))
    pts = c03.points_around(rng, data, mat, refl, num)
    func = kde.pdf if rng.random() < 0.5 else kde.density
    echo, base = func(pts)
    base = np.array(base)
    ctx.check(base.shape == (num,), 'shape', got=base.shape, num=num)
    ctx.check(np.array_equal(np.asarray(echo), pts), 'points-echo')
    # order of points
    perm = rng.permutation(num)
    same(ctx, func(pts[:, perm])[1], base[perm], 'permuted')
    # splitting
    cut = int(rng.integers(0, num + 1))
    parts = [func(pp)[1] for pp in (pts[:, :cut], pts[:, cut:]) if pp.shape[1]]
    same(ctx, np.concatenate(parts), base, 'split')
    # repeated points, repeated calls
    dup = rng.integers(num, size=2 * num)
    same(ctx, func(pts[:, dup])[1], base[dup], 'repeated')
    same(ctx, func(pts)[1], base, 'again')
    # one at a time
    jj = int(rng.integers(num))
    one = func(pts[:, jj:jj + 1])[1]
    same(ctx, one, base[jj:jj + 1], 'single')
    if dim == 1:
        same(ctx, np.ravel(func(pts[0])[1]), base, 'flat')
        ctx.check(np.shape(func(pts[0])[1]) == (num,), 'flat-shape')
        ctx.check(np.shape(func(pts[0][:1])[1]) == (1,), 'flat-shape', got=np.shape(func(pts[0][:1])[1]))
        same(ctx, np.ravel(func(list(pts[0]))[1]), base, 'list')
        same(ctx, np.ravel(func(float(pts[0][jj]))[1]), base[jj:jj + 1], 'scalar')
    else:
        same(ctx, func([list(pp) for pp in pts])[1], base, 'list')
        same(ctx, func(tuple(pts))[1], base, 'list')
    same(ctx, func(np.asfortranarray(pts))[1], base, 'layout')
    # wrappers
    name = 'pdf' if func == kde.pdf else 'density'
    same(ctx, np.ravel(getattr(kale, name)(given, pts, **opts)[1]), base, 'wrapper')
    same(ctx, np.ravel(kde.density(pts, probability=(name == 'pdf'))[1]), base, 'probability')
    tot = data.shape[1] if opts['weights'] is None else opts['weights'].sum()
    ratio = np.ravel(kde.density(pts)[1])
    same(ctx, np.ravel(kde.pdf(pts)[1]) * tot, ratio, 'pdf-is-density-over-total')


def case_walk(ctx):
    """Each point shares some coordinates (or whitened ones) with the one before; what came before does not matter."""
    rng = ctx.rng
    dim = int(gen.pick(rng, [2, 3, 3, 4, 5]))
    num = int(rng.integers(4 * dim, 40))
    data = gen.dataset(rng, dim, num, 'normal')
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform']))
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kind = gen.pick(rng, ['plain', 'diagonal', 'matrix'])
    mat = ref.weighted_cov(data, ww) * rng.uniform(0.3, 1.0)**2
    wid = np.sqrt(np.diag(mat))
    kw = dict(plain=dict(), diagonal=dict(bandwidth=float(rng.uniform(0.3, 1)), diagonal=True), matrix=dict(bandwidth=np.diag(wid)))[kind]
    kde = kale.KDE(data, weights=ww, kernel=kernel, **kw)
    steps = int(rng.integers(10, 60))
    ctx.note(dim=dim, num=num, kernel=kernel, matrix=kind, first=float(data[0, 0]))
    ctx.state('walk', dim, kernel, kind)
    levels = np.array([np.sort(rng.choice(dd, size=3, replace=False)) + 0.05 * ss for dd, ss in zip(data, wid)])
    pos = np.array([int(rng.integers(3)) for _ in range(dim)])
    pts = []
    for _ in range(steps):
        many = 1 if rng.random() < 0.6 else int(rng.integers(0, dim + 1))
        for dd in rng.permutation(dim)[:many]:
            pos[dd] = int(rng.integers(3))
        pts.append(levels[np.arange(dim), pos])
    pts = np.array(pts).T
    func = kde.pdf if rng.random() < 0.5 else kde.density
    base = np.array(func(pts)[1])
    alone = np.array([np.ravel(func(pts[:, jj:jj + 1])[1])[0] for jj in range(steps)])
    same(ctx, base, alone, 'walk', dim=dim, kind=kind)
    same(ctx, func(pts[:, ::-1])[1], alone[::-1], 'walk', dim=dim, kind=kind, back=True)
    # grids with axes of a single value
    axes = [ll[:int(gen.pick(rng, [1, 1, 2, 3]))] for ll in levels]
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*axes, indexing='ij')])
    alone = np.array([np.ravel(func(mesh[:, jj:jj + 1])[1])[0] for jj in range(mesh.shape[1])])
    same(ctx, np.ravel(func(axes, grid=True)[1]), alone, 'grid', dim=dim, kind=kind, single=[len(aa) for aa in axes])


def case_grid(ctx):
    rng = ctx.rng
    dim, data, given, flat, opts, mat, kde = setup(ctx, dims=(1, 2, 2, 3))
    func = kde.pdf if rng.random() < 0.5 else kde.density
    sizes = [int(rng.integers(1, 8)) for _ in range(dim)]
    if dim == 1:
        sizes[0] = max(2, sizes[0])
    while len(set(sizes)) < len(sizes):
        sizes = [int(rng.integers(2, 12)) for _ in range(dim)]
    lo, hi = data.min(axis=1), data.max(axis=1)
    edges = [np.sort(rng.uniform(ll - 0.2 * (hh - ll), hh + 0.2 * (hh - ll), size=ss)) for ll, hh, ss in zip(lo, hi, sizes)]
    ctx.state('grid', dim)
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*edges, indexing='ij')])
    base = np.ravel(func(mesh)[1])
    arg = edges if rng.random() < 0.5 else [list(ee) for ee in edges]
    if rng.random() < 0.3:
        arg = tuple(arg)
    echo, vals = func(arg, grid=True)
    if ctx.check(np.shape(vals) == tuple(sizes), 'grid-shape', got=np.shape(vals), want=sizes):
        same(ctx, np.ravel(vals), base, 'grid')
    if dim > 1:
        ctx.check(len(echo) == dim and all(np.array_equal(aa, bb) for aa, bb in zip(echo, edges)), 'grid-echo')
    # element by element
    idx = tuple(int(rng.integers(ss)) for ss in sizes)
    pnt = np.array([[ee[ii]] for ee, ii in zip(edges, idx)])
    if np.shape(vals) == tuple(sizes):
        same(ctx, np.ravel(func(pnt)[1]), [vals[idx]], 'grid-element')
    name = 'pdf' if func == kde.pdf else 'density'
    same(ctx, np.ravel(getattr(kale, name)(given, edges, grid=True, **opts)[1]), base, 'grid-wrapper')
    # projection on a grid
    if dim > 1:
        params = rng.permutation(dim)[:2]
        sub = [edges[pp] for pp in params]
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*sub, indexing='ij')])
        base = np.ravel(func(mesh, params=params)[1])
        vals = func(sub, params=params, grid=True)[1]
        if ctx.check(np.shape(vals) == tuple(sizes[pp] for pp in params), 'grid-shape', got=np.shape(vals), params=params):
            same(ctx, np.ravel(vals), base, 'grid-params')
        pp = int(params[0])
        base = np.ravel(func(edges[pp], params=pp)[1])
        for form in (pp, [pp]):
            same(ctx, np.ravel(func(edges[pp][None, :], params=form)[1]), base, 'params-spelling')


def auto_params(ctx, kde, dim):
    """Automatic points for some of the parameters, in any order: the points of those parameters."""
    rng = ctx.rng
    many = int(rng.integers(1, dim + 1))
    pars = [int(pp) for pp in rng.permutation(dim)[:many]]
    form = gen.pick(rng, ['list', 'tuple', 'array'] + ['int'] * (many == 1))
    given = {'list': pars, 'tuple': tuple(pars), 'array': np.array(pars), 'int': pars[0]}[form]
    func = kde.pdf if rng.random() < 0.5 else kde.density
    pts, vals = func(params=given)
    own = [np.asarray(pp) for pp in kde.points]
    want = [own[pp] for pp in pars]
    got = [np.ravel(pts)] if many == 1 else [np.asarray(pp) for pp in pts]
    ctx.state('auto-params', dim, many, form)
    same_points = len(got) == many and all(aa.shape == bb.shape and np.array_equal(aa, bb) for aa, bb in zip(got, want))
    ctx.check(same_points, 'auto-params-points', params=pars, form=form)
    if ctx.check(np.shape(np.squeeze(vals)) == tuple(ww.size for ww in want), 'auto-params-shape', got=np.shape(vals), params=pars):
        mesh = np.array([mm.ravel() for mm in np.meshgrid(*want, indexing='ij')])
        same(ctx, np.ravel(vals), np.ravel(func(mesh, params=pars)[1]), 'auto-params-values', params=pars)


def case_auto(ctx):
    """Automatic points: the same values as asking for those points."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 2, 3])
    num = int(rng.integers(5 * dim, 40))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'uniform', 'clusters', 'offset', 'ints']))
    if not gen.well_conditioned(data):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    reflect = c03.bounds_for(rng, data) if rng.random() < 0.4 else None
    flat = dim == 1 and rng.random() < 0.6
    how = gen.pick(rng, [None, 'num', 'edges'] if dim < 3 else ['num', 'edges'])
    spec = None
    if how == 'num':
        spec = int(rng.integers(5, 40 if dim < 3 else 12))
    elif how == 'edges':
        spec = [np.linspace(dd.min() - 1, dd.max() + 1, int(rng.integers(5, 30)) + 7 * ii) for ii, dd in enumerate(data)]
        if dim == 1:
            spec = spec[0]
    ctx.note(dim=dim, kernel=kernel, reflect=reflect, points=how, first=float(data[0, 0]))
    ctx.state('auto', dim, kernel, how, reflect is not None)
    kde = kale.KDE(data[0] if flat else data, kernel=kernel, reflect=reflect, points=spec)
    pts, vals = kde.pdf()
    grid = [np.ravel(pts)] if dim == 1 else [np.asarray(pp) for pp in pts]
    if how == 'edges':
        wanted = [spec] if dim == 1 else spec
        ctx.check(all(np.array_equal(aa, bb) for aa, bb in zip(grid, wanted)), 'auto-points-given')
    elif how == 'num':
        ctx.check(all(gg.size == spec + 1 for gg in grid), 'auto-points-number', got=[gg.size for gg in grid], want=spec + 1)
    ctx.check(np.shape(np.squeeze(vals)) == tuple(gg.size for gg in grid), 'auto-shape', got=np.shape(vals))
    mesh = np.array([mm.ravel() for mm in np.meshgrid(*grid, indexing='ij')])
    same(ctx, np.ravel(vals), np.ravel(kde.pdf(mesh)[1]), 'auto-values')
    again = kde.pdf()
    same(ctx, np.ravel(again[1]), np.ravel(vals), 'auto-again')
    if dim > 1:
        auto_params(ctx, kde, dim)
    if flat:
        ctx.check(np.ndim(pts) == 1 and np.ndim(vals) == 1, 'auto-flat', ndim=[np.ndim(pts), np.ndim(vals)])
        ctx.check(np.array_equal(np.ravel(kde.points), grid[0]), 'auto-points-same')


KINDS = {
    'query': (case_query, 260, 5000),
    'grid': (case_grid, 160, 3000),
    'walk': (case_walk, 100, 1500),
    'auto': (case_auto, 80, 1200),
}
