"""C04: projections (params) are the marginal densities, in the given order of parameters."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c01, c03

RULE = ("random multi-dimensional KDEs projected onto every kind of parameter subset and order, with and without boundaries; "
        "compared with the kernel sum over the selected parameters, and (gaussian) with numerical integration of the full density")
ASSUMPTIONS = ["for finite kernels the projection is the same kernel in the selected parameters (documented behaviour of the density), "
               "exact marginals are only compared for the gaussian"]
MIN_VERDICTS = {'projected-density': 150, 'marginal-integral': 15}


def case_subset(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [2, 3, 4])
    num = int(rng.integers(4 * dim, 70))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    npar = int(rng.integers(1, dim + 1))
    params = rng.permutation(dim)[:npar]
    refl = rng.random() < 0.4
    reflect = c03.bounds_for(rng, data) if refl else [None] * dim
    sub, smat, sref = data[params], mat[np.ix_(params, params)], [reflect[pp] for pp in params]
    pts = c03.points_around(rng, sub, smat, sref, num=50)
    # parameters may also be counted from the last one
    asked = np.where(rng.random(npar) < 0.5, params - dim, params) if rng.random() < 0.4 else params
    given = gen.pick(rng, [asked.tolist(), tuple(asked.tolist()), asked.copy()])
    where = gen.pick(rng, ['init', 'call', 'override']) if refl else gen.pick(rng, ['none', 'none', 'disabled'])
    own = reflect if where == 'init' else None
    if where in ('override', 'disabled'):
        own = c03.bounds_for(rng, data)
    ctx.note(dim=dim, params=asked.tolist(), kernel=kernel, data=style, bandwidth=bkind, reflect=reflect if refl else None)
    ctx.state(kernel, dim, tuple(params.tolist()), where)
    kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=own, **kw)
    opts = {'call': dict(reflect=sref), 'override': dict(reflect=sref), 'disabled': dict(reflect=False)}.get(where, {})
    _, got = kde.density(pts, params=given, **opts)
    tot = num if ww is None else ww.sum()
    c03.compare(ctx, got, pts, sub, smat, kernel, ww, sref, 'projected-density')
    if npar == 1:
        _, got = kde.pdf(pts[0], params=int(asked[0]), **opts)
    else:
        _, got = kde.pdf(pts, params=given, **opts)
    c03.compare(ctx, got, pts, sub, smat, kernel, ww, sref, 'projected-density', norm=tot)
    if where in ('init', 'none'):
        _, got = kale.pdf(data, pts, weights=ww, kernel=kernel, params=given, reflect=reflect if where == 'init' else None, **kw)
        c03.compare(ctx, got, pts, sub, smat, kernel, ww, sref, 'projected-density', norm=tot)


def case_order(ctx):
    """Reordering the parameters reorders the arguments, and nothing else."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 3])
    data = gen.dataset(rng, dim, 40, gen.pick(rng, ['normal', 'mixed', 'line', 'clusters']))
    ww = gen.weights(rng, 40)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, _ = gen.smoothing(rng, dim, data, ww, ['default', 'scalar', 'vector', 'matrix', 'cov'])
    kde = kale.KDE(data, weights=ww, kernel=kernel, **kw)
    perm = rng.permutation(dim)
    ctx.note(dim=dim, perm=perm.tolist(), kernel=kernel, first=float(data[0, 0]))
    ctx.state('order', kernel, tuple(perm.tolist()))
    pts = gen.probe_points(rng, data, mat, 60)
    near = np.zeros(60, dtype=bool)
    if kernel != 'gaussian':
        near = (np.abs(ref.mahalanobis2(pts, data, mat) - 1) < 1e-5).any(axis=1)
    _, full = kde.density(pts)
    _, other = kde.density(pts[perm], params=perm)
    ctx.close(np.asarray(other)[~near], np.asarray(full)[~near], 'order-independent', rtol=1e-6, atol=1e-10 * np.max(full))


def case_marginal(ctx):
    """Integrating the full gaussian density over the other parameter gives the projection."""
    rng = ctx.rng
    data = gen.dataset(rng, 2, int(rng.integers(8, 30)), gen.pick(rng, ['normal', 'uniform', 'line', 'clusters']))
    num = data.shape[1]
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww, 30):
        raise Skip
    bw = float(rng.uniform(0.25, 1.0))
    mat = ref.weighted_cov(data, ww) * bw**2
    keep = int(rng.integers(2))
    drop = 1 - keep
    # boundaries, if any, wide compared to the kernels
    reflect = None
    if rng.random() < 0.5:
        reflect = [None, None]
        for dd in (0, 1):
            if rng.random() < 0.7:
                lo = data[dd].min() - rng.uniform(0, 0.3) * np.ptp(data[dd])
                reflect[dd] = [lo, None] if rng.random() < 0.5 else [None, 2 * data[dd].max() - data[dd].min() + 1 - (lo - data[dd].min())]
                if rng.random() < 0.5:
                    reflect[dd] = [lo, None]
    kde = kale.KDE(data, weights=ww, bandwidth=bw, reflect=reflect)
    ctx.note(num=num, keep=keep, reflect=reflect, bw=bw)
    ctx.state('marginal', reflect is not None)
    sig = np.sqrt(1.0 / np.diag(np.linalg.inv(mat)))
    reach = 9 * np.sqrt(np.diag(mat))
    lo, hi = data[drop].min() - reach[drop], data[drop].max() + reach[drop]
    if reflect is not None and reflect[drop] is not None:
        lo = lo if reflect[drop][0] is None else reflect[drop][0]
        hi = hi if reflect[drop][1] is None else reflect[drop][1]
    ny = int(np.clip((hi - lo) / (0.02 * sig[drop]), 50, 3000))
    yy = np.linspace(lo, hi, ny)
    xx = np.linspace(data[keep].min() - 2 * np.sqrt(mat[keep, keep]), data[keep].max() + 2 * np.sqrt(mat[keep, keep]), 11)
    if reflect is not None and reflect[keep] is not None:
        r0, r1 = reflect[keep]
        xx = xx[(xx > (-np.inf if r0 is None else r0)) & (xx < (np.inf if r1 is None else r1))]
    grid = [None, None]
    grid[keep], grid[drop] = xx, yy
    _, full = kde.pdf(grid, grid=True)
    full = np.asarray(full)
    want = np.trapz(full if keep == 0 else full.T, yy, axis=1)
    _, got = kde.pdf(xx, params=keep)
    ctx.close(got, want, 'marginal-integral', rtol=2e-3, atol=1e-3 * want.max())


def case_one(ctx):
    """One-dimensional data: parameter 0 is the density itself, anything else is refused."""
    rng = ctx.rng
    data = gen.dataset(rng, 1, 30)[0]
    kernel = gen.pick(rng, ref.KERNELS)
    kde = kale.KDE(data, kernel=kernel)
    ctx.note(kernel=kernel, first=float(data[0]))
    pts = np.linspace(data.min(), data.max(), 20)
    _, want = kde.density(pts)
    for params in (0, [0], (0,), np.array([0])):
        _, got = kde.density(pts, params=params)
        ctx.close(np.ravel(got), np.ravel(want), 'one-dimensional', rtol=1e-12)
    for params in (1, [1], [0, 1]):
        ctx.raises(lambda: kde.density(pts, params=params), 'one-dimensional-invalid', (ValueError,))


def case_autopoints(ctx):
    """Without points, the projection is evaluated on the automatic grid of the selected parameters."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 3])
    data = gen.dataset(rng, dim, 40, gen.pick(rng, ['normal', 'mixed', 'uniform']))
    kernel = gen.pick(rng, ref.KERNELS)
    kde = kale.KDE(data, kernel=kernel, bandwidth=0.5)
    mat = ref.weighted_cov(data) * 0.25
    npar = int(rng.integers(1, 3))
    params = rng.permutation(dim)[:npar]
    ctx.note(dim=dim, params=params.tolist(), kernel=kernel)
    ctx.state('auto', npar)
    pts, vals = kde.pdf(params=int(params[0]) if npar == 1 else params.tolist())
    pts = [np.asarray(pts)] if npar == 1 else [np.asarray(pp) for pp in pts]
    for pp, dd in zip(pts, params):
        ctx.check(np.all(np.diff(pp) > 0) and pp[0] < data[dd].min() and pp[-1] > data[dd].max(), 'auto-points-cover', param=int(dd))
    ctx.check(np.shape(vals) == tuple(pp.size for pp in pts), 'auto-points-shape', got=np.shape(vals))
    sel = rng.integers(np.size(vals), size=40)
    mesh = np.array([mm.ravel()[sel] for mm in np.meshgrid(*pts, indexing='ij')])
    want, good = ref.kde_density(mesh, data[params], mat[np.ix_(params, params)], kernel, edge=1e-5)
    ctx.close(np.ravel(vals)[sel][good], want[good] / 40, 'auto-points-density', rtol=1e-6, atol=1e-10 * want.max() / 40)


KINDS = {
    'subset': (case_subset, 360, 6000),
    'order': (case_order, 80, 1500),
    'marginal': (case_marginal, 60, 900),
    'one': (case_one, 16, 100),
    'autopoints': (case_autopoints, 40, 500),
}
