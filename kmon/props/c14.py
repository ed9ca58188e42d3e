"""C14: scalars returned with grid samples are the interpolated scalar field at the samples."""
import numpy as np
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip
from . import c13

RULE = ("random grids with scalar fields (linear, random, constant) sampled with scalars; every returned value is compared with the field "
        "interpolated at the returned position; proportional sampling must conserve the integrals of the wanted distribution")
ASSUMPTIONS = ["interpolation within a bin is linear, about the average of the corners, with one gradient per dimension (documented)"]
MIN_VERDICTS = {'scalar-given-bin': 60, 'scalar-value': 60, 'proportional-weight': 40}


def field_at(samp, idx, edges, scal):
    """Bin average plus gradient (averaged over the bin) times the offset from the bin centre."""
    scal = np.asarray(scal, dtype=float)
    val = scal
    for dd in range(scal.ndim):
        nn = val.shape[dd]
        val = 0.5 * (np.take(val, range(1, nn), axis=dd) + np.take(val, range(nn - 1), axis=dd))
    val = val[idx].copy()
    for dd, ee in enumerate(edges):
        lo, hi = c13.side_average(scal, dd)
        loc = (samp[dd] - ee[idx[dd]]) / np.diff(ee)[idx[dd]]
        val += (hi - lo)[idx] * (loc - 0.5)
    return val


def near_edges(samp, edges, tol=1e-9):
    bad = np.zeros(samp.shape[1], dtype=bool)
    for xx, ee in zip(samp, edges):
        bad |= (np.abs(xx[:, None] - ee[None, :]) < tol * max(np.abs(ee).max(), np.ptp(ee))).any(axis=1)
    return bad


def case_scalar(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    edges = c13.make_edges(rng, dim, most=7)
    dens, style = c13.make_dens(rng, edges)
    if not c13.corner_mass(dens, edges).sum() > 0:
        raise Skip
    what = gen.pick(rng, ['linear', 'random', 'constant', 'negative', 'ints'])
    shape = tuple(ee.size for ee in edges)
    mesh = np.meshgrid(*edges, indexing='ij')
    coef = rng.normal(size=dim)
    if what == 'linear':
        scal = 1.5 + sum(cc * mm for cc, mm in zip(coef, mesh))
    elif what == 'random':
        scal = rng.uniform(0, 5, size=shape)
    elif what == 'constant':
        scal = np.full(shape, 3.25)
    elif what == 'negative':
        scal = rng.normal(size=shape) * 10.0**rng.uniform(-5, 5)
    else:
        scal = rng.integers(-5, 9, size=shape)
    ctx.note(shape=shape, dens=style, scalar=what, first=float(edges[0][0]))
    ctx.state(dim, style, what)
    before = np.array(scal)
    size = 400
    given, store = c13.spell_array(rng, scal), c13.spell_array(rng, dens)
    if rng.random() < 0.5:
        samp, vals = kale.sample_grid(edges, store, nsamp=size, scalar_dens=given)
    else:
        samp, vals = kale.sample.Sample_Grid(edges, store, scalar_dens=given).sample(size, return_scalar=True)
    samp = np.atleast_2d(samp)
    ctx.check(samp.shape == (dim, size) and np.shape(vals) == (size,), 'shape', got=[samp.shape, np.shape(vals)])
    idx = c13.locate(samp, edges)
    want = field_at(samp, idx, edges, scal)
    ok = ~near_edges(samp, edges)
    top = np.abs(scal).max()
    ctx.close(np.asarray(vals)[ok], want[ok], 'scalar-value', rtol=1e-7, atol=1e-7 * top, what=what, dim=dim)
    if what == 'linear':
        exact = 1.5 + sum(cc * xx for cc, xx in zip(coef, samp))
        ctx.close(vals, exact, 'scalar-linear', rtol=1e-7, atol=1e-8 * top)
    if what == 'constant':
        ctx.close(vals, np.full(size, 3.25), 'scalar-constant', rtol=1e-10)
    ctx.check(np.array_equal(before, scal), 'input-unchanged')
    # without interpolation: the averages of the bins
    samp, vals = kale.sample_grid(edges, dens, nsamp=200, scalar_dens=scal, interpolate=False)
    samp = np.atleast_2d(samp)
    idx = c13.locate(samp, edges)
    mid = np.asarray(scal, dtype=float)
    for dd in range(dim):
        nn = mid.shape[dd]
        mid = 0.5 * (np.take(mid, range(1, nn), axis=dd) + np.take(mid, range(nn - 1), axis=dd))
    ok = ~near_edges(samp, edges)
    ctx.close(np.asarray(vals)[ok], mid[idx][ok], 'scalar-bin', rtol=1e-9, atol=1e-12 * top)
    # values given for the bins themselves: used as they are, although there are values at the corners too
    bins = rng.normal(size=mid.shape) * 10.0**rng.uniform(-3, 3)
    both = dict(scalar_dens=scal)
    gbins = c13.spell_array(rng, bins)
    if rng.random() < 0.5:
        samp, vals = kale.sample_grid(edges, dens, nsamp=200, scalar_mass=gbins, interpolate=False, **both)
    else:
        obj = kale.sample.Sample_Grid(edges, dens, scalar_mass=gbins, **both)
        samp, vals = obj.sample(200, interpolate=False, return_scalar=True)
    samp = np.atleast_2d(samp)
    idx = c13.locate(samp, edges)
    ok = ~near_edges(samp, edges)
    ctx.state('bins', dim)
    ctx.check(np.array_equal(np.asarray(vals)[ok], bins[idx][ok]), 'scalar-given-bin', dim=dim)
    # asking for no scalars returns only positions
    only = kale.sample_grid(edges, dens, nsamp=10, scalar_dens=scal, return_scalar=False)
    ctx.check(not isinstance(only, tuple), 'no-scalar')
    only = kale.sample_grid(edges, dens, nsamp=10)
    ctx.check(not isinstance(only, tuple), 'no-scalar')


def case_proportional(ctx):
    """Draw from `portion`, weigh by dens / portion: weighted sums estimate integrals of `dens`."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2])
    edges = c13.make_edges(rng, dim, most=7, least=3)
    portion, style = c13.make_dens(rng, edges, gen.pick(rng, ['random', 'smooth', 'flat', 'integers', 'scaled']))
    shape = portion.shape
    ratio = gen.pick(rng, ['constant', 'random'])
    rat = np.full(shape, float(rng.uniform(0.1, 9))) if ratio == 'constant' else rng.uniform(0.5, 4, size=shape)
    dens = np.asarray(portion, dtype=float) * rat
    mass = c13.corner_mass(portion, edges)
    if not mass.sum() > 0:
        raise Skip
    ctx.note(shape=shape, portion=style, ratio=ratio, first=float(edges[0][0]))
    ctx.state('prop', dim, style, ratio)
    size = 5000
    gd, gp = c13.spell_array(rng, dens), c13.spell_array(rng, portion)
    gmass = None
    if rng.random() < 0.3:
        gmass = c13.spell_array(rng, mass * 3.0)
    samp, wts = kale.sample_grid_proportional(edges, gd, gp, size, mass=gmass)
    samp = np.atleast_2d(samp)
    ctx.check(samp.shape == (dim, size) and np.shape(wts) == (size,), 'shape', got=[samp.shape, np.shape(wts)])
    idx = c13.judge(ctx, samp, portion, edges, mass)
    scal = np.where(np.asarray(portion) != 0, rat, 0.0)
    ok = ~near_edges(samp, edges)
    want = field_at(samp, idx, edges, scal)
    ctx.close(np.asarray(wts)[ok], want[ok], 'proportional-weight', rtol=1e-7, atol=1e-8 * np.abs(rat).max())
    if ratio == 'constant' and np.all(np.asarray(portion) > 0):
        ctx.close(wts, np.full(size, rat.flat[0]), 'proportional-constant', rtol=1e-8)


KINDS = {
    'scalar': (case_scalar, 160, 3000),
    'proportional': (case_proportional, 120, 2000),
}
