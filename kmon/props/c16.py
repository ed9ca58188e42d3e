"""C16: integration on grids -- masses, cumulative sums, midpoints and centroids agree with their definitions."""
import itertools

import numpy as np
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from . import c13, c15

RULE = ("random N-dimensional gridded functions (1-4 dimensions, uneven edges, int / list / strided input) integrated along every subset of axes; "
        "compared with explicit sums over cells, exact integrals of multilinear functions, and each other (conservation laws)")
ASSUMPTIONS = ["agreement to 1e-9 relative to the magnitude of the summed terms"]
MIN_VERDICTS = {'cell-mass': 150, 'total': 150, 'cumulative': 150, 'centroid': 80}


def setup(ctx, dims=(1, 1, 2, 2, 3, 4)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    edges = c13.make_edges(rng, dim, most={1: 25, 2: 9, 3: 6, 4: 4}[dim], least=2)
    shape = tuple(ee.size for ee in edges)
    what = gen.pick(rng, ['random', 'signed', 'linear', 'ints', 'zeros', 'scaled'])
    if what == 'random':
        vals = rng.uniform(size=shape)
    elif what == 'signed':
        vals = rng.normal(size=shape)
    elif what == 'linear':
        mesh = np.meshgrid(*edges, indexing='ij')
        vals = 0.7 + np.zeros(shape)
        for cc, mm in zip(rng.normal(size=dim), mesh):
            vals = vals * (1 + cc * mm)
    elif what == 'ints':
        vals = rng.integers(-4, 9, size=shape)
    elif what == 'zeros':
        vals = rng.uniform(size=shape) * (rng.random(shape) < 0.4)
    else:
        vals = rng.uniform(size=shape) * 10.0**rng.uniform(-20, 20)
    ctx.note(shape=shape, what=what, first=float(edges[0][0]), vals=float(vals.flat[0]))
    ctx.state(dim, what)
    return dim, edges, vals, what


def axis_weights(ee):
    wt = np.zeros(ee.size)
    wid = np.diff(ee)
    wt[:-1] += 0.5 * wid
    wt[1:] += 0.5 * wid
    return wt


def cell_mass(vals, edges, axes):
    """Explicit loops over the corners of each cell."""
    vals = np.asarray(vals, dtype=float)
    out = vals
    for ax in axes:
        nn = out.shape[ax]
        lo, hi = np.take(out, range(nn - 1), axis=ax), np.take(out, range(1, nn), axis=ax)
        shp = [1] * out.ndim
        shp[ax] = nn - 1
        out = (lo + hi) / 2 * np.diff(edges[ax]).reshape(shp)
    return out


def spell_axis(rng, axes, dim):
    if len(axes) == dim and rng.random() < 0.6:
        return None
    given = [int(aa) - (dim if rng.random() < 0.3 else 0) for aa in axes]
    if len(given) == 1 and rng.random() < 0.6:
        return given[0]
    rng.shuffle(given)
    return gen.pick(rng, [given, tuple(given), np.array(given)])


def case_integrate(ctx):
    rng = ctx.rng
    dim, edges, vals, what = setup(ctx)
    before, ebefore = np.array(vals), [ee.copy() for ee in edges]
    naxes = int(rng.integers(1, dim + 1))
    axes = sorted(int(aa) for aa in rng.permutation(dim)[:naxes])
    axis = spell_axis(rng, axes, dim)
    gvals, lay = gen.represent(rng, vals, kinds=('c', 'c', 'f', 'strided', 'list', 'neg', 'ro'))
    gedges = edges if (dim > 1 or rng.random() < 0.5) else edges[0]
    if dim > 1 and rng.random() < 0.3:
        gedges = [list(ee) for ee in edges]
    if dim == 1 and rng.random() < 0.3:
        gedges = list(edges[0])
    ctx.state('axes', dim, naxes, type(axis).__name__, lay)
    want = cell_mass(vals, edges, axes)
    size = np.abs(cell_mass(np.abs(vals), edges, axes))
    scale = size.max() if size.size else 1.0
    mass = utils.trapz_dens_to_mass(gvals, gedges, axis=axis)
    ctx.close(mass, want, 'cell-mass', rtol=1e-9, atol=1e-13 * scale, axis=axis)
    # total over the same axes
    tot = np.asarray(vals, dtype=float)
    mag = np.abs(tot)
    for ax in axes[::-1]:
        wt = axis_weights(edges[ax])
        tot = np.tensordot(tot, wt, axes=([ax], [0]))
        mag = np.tensordot(mag, np.abs(wt), axes=([ax], [0]))
    top = np.max(mag)
    ctx.close(utils.trapz_nd(gvals, gedges, axis=axis), tot, 'total', rtol=1e-9, atol=1e-12 * top, axis=axis)
    ctx.close(np.sum(np.asarray(mass), axis=tuple(axes)), tot, 'mass-conserved', rtol=1e-9, atol=1e-12 * top)
    # cumulative, over one or all axes
    ax = None if rng.random() < 0.5 else int(rng.integers(dim))
    given = ax if (ax is None or rng.random() < 0.7) else ax - dim
    which = range(dim) if ax is None else [ax]
    cum = cell_mass(vals, edges, which)
    for aa in which:
        cum = np.cumsum(cum, axis=aa)
    big = np.max(np.abs(cell_mass(np.abs(vals), edges, which))) * vals.size
    ctx.close(utils.cumtrapz(gvals, gedges, prepend=False, axis=given), cum, 'cumulative', rtol=1e-9, atol=1e-12 * big, axis=given)
    pad = np.zeros([nn + (1 if aa in which else 0) for aa, nn in enumerate(cum.shape)])
    pad[tuple(slice(1, None) if aa in which else slice(None) for aa in range(dim))] = cum
    got = utils.cumtrapz(gvals, gedges, axis=given)
    ctx.close(got, pad, 'cumulative', rtol=1e-9, atol=1e-12 * big, axis=given, prepend=True)
    if ax is None:
        ctx.close(np.asarray(got).flat[-1], tot if naxes == dim else np.sum(cell_mass(vals, edges, range(dim))), 'cumulative-total', rtol=1e-9, atol=1e-12 * big)
    ctx.check(np.array_equal(before, vals) and all(np.array_equal(aa, bb) for aa, bb in zip(edges, ebefore)), 'input-unchanged')


def case_sums(ctx):
    """Cumulative sums and midpoints."""
    rng = ctx.rng
    dim, edges, vals, what = setup(ctx)
    gvals, lay = gen.represent(rng, vals, kinds=('c', 'f', 'strided', 'list', 'neg', 'ro'))
    before = np.array(vals)
    cum = np.asarray(vals)
    for aa in range(dim):
        cum = np.cumsum(cum, axis=aa)
    mag = np.sum(np.abs(vals)) + 1e-300
    got = utils.cumsum(gvals)
    ctx.close(got, cum, 'cumsum', rtol=1e-10, atol=1e-13 * mag)
    ax = int(rng.integers(-dim, dim))
    ctx.close(utils.cumsum(gvals, axis=ax), np.cumsum(vals, axis=ax), 'cumsum', rtol=1e-10, atol=1e-13 * mag, axis=ax)
    # each element is the sum over the lower corner
    idx = tuple(int(rng.integers(nn)) for nn in vals.shape)
    ctx.close(np.asarray(got)[idx], np.sum(vals[tuple(slice(0, ii + 1) for ii in idx)]), 'cumsum-corner', rtol=1e-9, atol=1e-12 * mag)
    # midpoints
    naxes = int(rng.integers(1, dim + 1))
    axes = [int(aa) for aa in rng.permutation(dim)[:naxes]]
    axis = spell_axis(rng, axes, dim)
    log = rng.random() < 0.3
    src = np.abs(np.asarray(vals, dtype=float)) + (1e-3 * np.abs(vals).max() + 1e-12) if log else np.asarray(vals, dtype=float)
    mid = np.log(src) if log else src
    for aa in axes:
        nn = mid.shape[aa]
        mid = (np.take(mid, range(1, nn), axis=aa) + np.take(mid, range(nn - 1), axis=aa)) / 2
    mid = np.exp(mid) if log else mid
    gsrc, _ = gen.represent(rng, src if log else vals, kinds=('c', 'f', 'strided', 'list'))
    got = utils.midpoints(gsrc, log=log, axis=axis)
    ctx.close(got, mid, 'midpoints', rtol=1e-9, atol=1e-13 * np.abs(src).max(), axis=axis, log=log)
    nn = src.shape[-1]
    last = np.log(src) if log else src
    last = (last[..., 1:] + last[..., :-1]) / 2
    last = np.exp(last) if log else last
    ctx.close(utils.midpoints(gsrc, log=log), last, 'midpoints', rtol=1e-9, atol=1e-13 * np.abs(src).max(), default=True)
    if not log:
        ctx.close(utils.midpoints(gsrc, squeeze=True), last.squeeze(), 'midpoints-squeezed', rtol=1e-9, atol=1e-13 * np.abs(src).max())
    ctx.check(np.array_equal(before, vals), 'input-unchanged')
    xe, xc, dx = utils.bins(float(edges[0][0]), float(edges[0][-1]), int(rng.integers(2, 20)))
    ctx.close(xc, xe[:-1] + dx / 2, 'bins', rtol=1e-12, atol=1e-12 * np.abs(xe).max())
    ctx.check(xe.size == xc.size + 1 == dx.size + 1 and xe[0] == edges[0][0] and xe[-1] == edges[0][-1], 'bins')


def case_centroid(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2, 3])
    edges = c13.make_edges(rng, dim, most=7)
    dens, style = c13.make_dens(rng, edges)
    ctx.note(dim=dim, dens=style, first=float(edges[0][0]))
    ctx.state('centroid', dim, style)
    arg = edges if (dim > 1 or rng.random() < 0.5) else edges[0]
    if rng.random() < 0.3:
        arg = [list(ee) for ee in edges] if dim > 1 else list(edges[0])
    got = np.asarray(utils.centroids(arg, c13.spell_array(rng, dens)))
    want = c15.exact_centroid(dens, edges)
    ctx.check(got.shape == want.shape, 'centroid-shape', got=got.shape, want=want.shape)
    if got.shape != want.shape:
        return
    for dd in range(dim):
        wid = np.diff(edges[dd])
        shp = [1] * dim
        shp[dd] = wid.size
        lo, hi = edges[dd][:-1].reshape(shp), edges[dd][1:].reshape(shp)
        frac = (got[dd] - lo) / wid.reshape(shp)
        ctx.check(np.all((frac > -1e-9) & (frac < 1 + 1e-9)), 'centroid-inside', dim=dim)
        ok = np.isfinite(want[dd])
        ctx.close(got[dd][ok], want[dd][ok], 'centroid', rtol=1e-9, atol=1e-9 * np.ptp(edges[dd]) + 1e-12 * np.abs(edges[dd]).max(), dim=dim, axis=dd)
    # scaling the density or shifting the grid
    alt = np.asarray(utils.centroids(edges, dens * 7.5))
    ctx.close(alt, np.asarray(utils.centroids(edges, dens)), 'centroid-scale', rtol=1e-9, atol=1e-12)


def case_exact(ctx):
    """Multilinear functions are integrated exactly, for any binning, and refining bins conserves mass."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    edges = c13.make_edges(rng, dim, most=6)
    edges = [ee - ee[0] for ee in edges]
    coef = rng.uniform(-1, 1, size=(dim, 2))

    def func(eds):
        out = np.ones([1] * dim)
        for dd, ee in enumerate(eds):
            shp = [1] * dim
            shp[dd] = len(ee)
            out = out * (coef[dd, 0] + coef[dd, 1] * np.asarray(ee)).reshape(shp)
        return out
    want = 1.0
    mag = 1.0
    for dd, ee in enumerate(edges):
        want *= coef[dd, 0] * (ee[-1] - ee[0]) + coef[dd, 1] * (ee[-1]**2 - ee[0]**2) / 2
        mag *= abs(coef[dd, 0]) * (ee[-1] - ee[0]) + abs(coef[dd, 1]) * (ee[-1]**2 - ee[0]**2) / 2
    ctx.note(dim=dim, first=float(edges[0][1]), coef=coef)
    ctx.state('exact', dim)
    ctx.close(utils.trapz_nd(func(edges), edges), want, 'exact-integral', rtol=1e-9, atol=1e-10 * mag)
    fine = [utils.subdivide(ee, int(rng.integers(1, 4))) for ee in edges]
    ctx.close(utils.trapz_nd(func(fine), fine), want, 'refined-integral', rtol=1e-9, atol=1e-10 * mag)
    ctx.close(np.sum(utils.trapz_dens_to_mass(func(fine), fine)), want, 'refined-mass', rtol=1e-9, atol=1e-10 * mag)
    # integration order does not matter
    if dim > 1:
        vals = func(edges)
        results = []
        for perm in itertools.islice(itertools.permutations(range(dim)), 4):
            results.append(utils.trapz_nd(vals.transpose(perm), [edges[pp] for pp in perm]))
        ctx.close(np.array(results), np.full(len(results), want), 'transposed-integral', rtol=1e-9, atol=1e-10 * mag)


KINDS = {
    'integrate': (case_integrate, 400, 8000),
    'sums': (case_sums, 200, 4000),
    'centroid': (case_centroid, 160, 3000),
    'exact': (case_exact, 100, 2000),
}
