"""C15: outlier sampling -- massive bins are represented once by their centroid and mass, the rest is drawn."""
import numpy as np
import scipy.stats as ss
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip
from . import c13

RULE = ("random grids split at random thresholds (also: nothing inside, nothing outside, ties); every massive bin must appear exactly once with "
        "its mass at its centre of mass; the draws must lie in (and follow) the other bins with unit weights; totals must be conserved")
ASSUMPTIONS = ["a bin whose mass equals the threshold is sampled (documented: inside means above)", "statistical verdicts use p < 1e-10"]
MIN_VERDICTS = {'rare-number': 20, 'inside-weights': 80, 'inside-positions': 60, 'total-mass': 80, 'outside-draws': 60}


def exact_centroid(dens, edges):
    """Centre of mass of the (multi)linear density of each bin, in each dimension."""
    dens = np.asarray(dens, dtype=float)
    out = []
    for dd, ee in enumerate(edges):
        y1, y2 = c13.side_average(dens, dd)
        shp = [1] * dens.ndim
        shp[dd] = ee.size - 1
        x1, x2 = ee[:-1].reshape(shp), ee[1:].reshape(shp)
        tot = y1 + y2
        frac = np.where(tot > 0, (y1 + 2 * y2) / np.where(tot > 0, 3 * tot, 1), np.nan)
        out.append(x1 + (x2 - x1) * frac)
    return np.array(out)


def setup(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2, 3])
    edges = c13.make_edges(rng, dim, most={1: 15, 2: 8, 3: 5}[dim], least=3)
    dens, style = c13.make_dens(rng, edges, gen.pick(rng, ['random', 'smooth', 'steep', 'zeros', 'flat', 'spike']))
    mass = c13.corner_mass(dens, edges)
    if not mass.sum() > 0:
        raise Skip
    dens = dens * float(rng.uniform(50, 5000)) / mass.sum()
    mass = c13.corner_mass(dens, edges)
    given = None
    if rng.random() < 0.35:
        given = np.where(mass > 0, rng.poisson(mass), 0)
        if given.sum() == 0:
            raise Skip
        if rng.random() < 0.5:
            given = given.astype(float)
        mass = np.asarray(given, dtype=float)
    what = gen.pick(rng, ['between', 'between', 'between', 'all-in', 'all-out', 'tie'])
    pos = mass[mass > 0]
    if what == 'between':
        thr = float(np.quantile(pos, rng.uniform(0.1, 0.9))) * 1.000001
    elif what == 'all-in':
        thr = float(pos.min()) * 0.5
    elif what == 'all-out':
        thr = float(pos.max()) * 2
    else:
        thr = float(pos[int(rng.integers(pos.size))])
        if given is None:
            raise Skip      # rounding of the bin masses decides
    ctx.note(shape=[ee.size for ee in edges], dens=style, what=what, mass=given is not None, first=float(edges[0][0]))
    ctx.state(dim, style, what, given is not None)
    return dim, edges, dens, mass, given, thr


def case_outliers(ctx):
    rng = ctx.rng
    dim, edges, dens, mass, given, thr = setup(ctx)
    ins = mass > thr
    poisson = rng.random() < 0.3
    how = gen.pick(rng, ['class', 'func'])
    opts = dict(poisson_outside=True) if poisson else {}
    gdens, gmass = c13.spell_array(rng, dens), None if given is None else c13.spell_array(rng, given)
    if how == 'func':
        gedges = edges[0] if (dim == 1 and rng.random() < 0.5) else edges
        vals, wts = kale.sample_outliers(gedges, gdens, thr, mass=gmass, **opts)
        ctx.check(np.ndim(vals) == (1 if dim == 1 else 2), 'shape', got=np.shape(vals))
        num = None
    else:
        num, vals, wts = kale.sample.Sample_Outliers(edges, gdens, threshold=thr, mass=gmass).sample(**opts)
    vals, wts = np.atleast_2d(vals), np.asarray(wts, dtype=float)
    nin = int(ins.sum())
    ctx.check(vals.shape == (dim, wts.size), 'shape', got=[vals.shape, wts.shape])
    ctx.check(num is None or num == wts.size, 'number')
    if not ctx.check(wts.size >= nin, 'inside-count', got=wts.size, want=nin):
        return
    for xx, ee in zip(vals, edges):
        tol = 1e-12 * np.abs(ee).max()
        ctx.check(np.all((xx >= ee[0] - tol) & (xx <= ee[-1] + tol)), 'inside-grid')
    # the representatives: exactly one for each massive bin, with all of its mass (in any order)
    got = c13.locate(vals, edges)
    coms = exact_centroid(dens, edges)
    heavy = np.zeros(wts.size, dtype=bool)
    heavy[:nin] = True
    wt_in, wt_out = wts[heavy], wts[~heavy]
    pos_in = vals[:, heavy]
    cells = np.ravel_multi_index([gg[heavy] for gg in got], mass.shape)
    order = np.argsort(cells)
    want = np.flatnonzero(ins.ravel())
    defined = np.isfinite(coms).all(axis=0).ravel()[want]
    if ctx.check(np.array_equal(cells[order], want), 'inside-bins', got=cells[order], want=want):
        ctx.close(wt_in[order], mass.ravel()[want], 'inside-weights', rtol=1e-9)
        for dd in range(dim):
            wid = np.ptp(edges[dd])
            ctx.close(pos_in[dd][order][defined], coms[dd].ravel()[want][defined], 'inside-positions', rtol=1e-9, atol=1e-9 * wid, dim=dim)
    # the others: unit weights, within the light bins, as many as their mass
    ctx.check(np.all(wt_out == 1.0), 'outside-weights', got=wt_out[:5])
    light = np.where(ins, 0.0, mass)
    exp = light.sum()
    if poisson:
        lo, hi = ss.poisson.ppf(1e-11, exp), ss.poisson.isf(1e-11, exp)
        ctx.check(lo <= wt_out.size <= hi, 'outside-number', got=wt_out.size, want=exp)
        ctx.check(abs(wts.sum() - mass.sum()) <= max(hi - exp, exp - lo) + 1e-6 * mass.sum(), 'total-mass')
    else:
        ctx.check(abs(wt_out.size - exp) <= 0.5 + 1e-9 * mass.sum(), 'outside-number', got=wt_out.size, want=exp)
        ctx.check(abs(wts.sum() - mass.sum()) <= 0.5 + 1e-9 * mass.sum(), 'total-mass', got=wts.sum(), want=mass.sum())
    if wt_out.size > 0:
        out = tuple(gg[~heavy] for gg in got)
        counts = np.zeros(mass.shape)
        np.add.at(counts, out, 1)
        stray = counts[light <= 0].sum()
        ctx.check(stray <= 1 + 1e-3 * wt_out.size, 'outside-stray', stray=stray, num=wt_out.size)
        if exp > 0:
            stat.chi2_counts(ctx, np.where(light > 0, counts, 0), light / exp * wt_out.size, 'outside-draws', dim=dim)


def case_many(ctx):
    """Repeated sampling: the same representatives every time, fresh outliers; Poisson totals on average."""
    rng = ctx.rng
    dim, edges, dens, mass, given, thr = setup(ctx)
    ins = mass > thr
    nin = int(ins.sum())
    samp = kale.sample.Sample_Outliers(edges, dens, threshold=thr, mass=given)
    first = samp.sample()
    tot = []
    for ii in range(25):
        num, vals, wts = samp.sample(poisson_inside=True, poisson_outside=True)
        tot.append(np.sum(wts))
        ctx.check(np.all(np.asarray(wts) >= 0), 'poisson-weights')
        ctx.check(np.array_equal(np.atleast_2d(vals)[:, :nin], np.atleast_2d(first[1])[:, :nin]), 'same-representatives')
    mean = mass.sum()
    ctx.check(abs(np.sum(tot) - 25 * mean) < 8 * np.sqrt(25 * mean) + 25, 'poisson-total', got=np.sum(tot) / 25, want=mean)
    again = samp.sample()
    ctx.close(np.sum(again[2]), np.sum(first[2]), 'same-total', rtol=1e-10)
    ctx.check(np.array_equal(again[2][:nin], first[2][:nin]), 'same-weights')
    if mass.sum() - mass[ins].sum() > 20:
        ctx.check(not np.array_equal(again[1], first[1]), 'fresh-draws')
    # outliers over many rounds follow the light bins
    light = np.where(ins, 0, mass)
    if light.sum() > 5:
        counts = np.zeros(mass.shape)
        for ii in range(15):
            num, vals, wts = samp.sample()
            idx = c13.locate(np.atleast_2d(vals)[:, nin:], edges)
            np.add.at(counts, idx, 1)
        stat.chi2_counts(ctx, np.where(light > 0, counts, 0), light / light.sum() * counts.sum(), 'outside-draws', dim=dim)


def case_calls(ctx):
    """Outliers are independent draws, within their bins according to the density, like those of the grid itself."""
    rng = ctx.rng
    dim, edges, dens, mass, given, thr = setup(ctx)
    ins = mass > thr
    light = np.where(ins, 0.0, mass)
    expect = light.sum()
    if not 4 <= expect <= 20000 or np.count_nonzero(light) < 2 or light.max() > 0.9 * expect:
        raise Skip
    nin = int(ins.sum())
    reps = int(np.clip(8000 / expect, 20, 300))
    samp = kale.sample.Sample_Outliers(edges, dens, threshold=thr, mass=given)
    opts = {} if rng.random() < 0.7 else dict(interpolate=False)
    ctx.note(reps=reps, expect=expect, opts=opts)
    draws = [np.atleast_2d(samp.sample(**opts)[1])[:, nin:] for _ in range(reps)]
    which = np.array([np.ravel_multi_index(c13.locate(dd, edges), mass.shape) for dd in draws])
    if not np.all(light.flat[np.unique(which)] > 0):
        raise Skip      # (an edge shared with an empty bin)
    stat.collisions(ctx, which, light.ravel() / expect, 'outside-independent', dim=dim)
    vals = np.concatenate(draws, axis=1)
    idx = c13.locate(vals, edges)
    for dd, ee in enumerate(edges):
        loc = (vals[dd] - ee[idx[dd]]) / np.diff(ee)[idx[dd]]
        if not opts:
            y1, y2 = c13.side_average(dens, dd)
            y1, y2 = y1[idx], y2[idx]
            ok = (y1 + y2) > 0
            y1, y2, loc = y1[ok], y2[ok], loc[ok]
            loc = (2 * y1 * loc + (y2 - y1) * loc**2) / (y1 + y2)
        if loc.size > 200:
            stat.ks(ctx, np.clip(loc, 0, 1), lambda tt: tt, 'outside-intra-bin', dim=dim, axis=dd)


def case_rare(ctx):
    """Few outliers are expected (less than one, or a fraction more): the number drawn must follow that very expectation."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2])
    edges = c13.make_edges(rng, dim, most=6, least=3)
    dens, style = c13.make_dens(rng, edges, gen.pick(rng, ['random', 'smooth', 'flat']))
    mass = c13.corner_mass(dens, edges)
    if not np.all(mass > 0):
        raise Skip
    light = rng.random(mass.shape) < 0.5
    light.flat[0], light.flat[-1] = True, False
    few = float(gen.pick(rng, [0.1, 0.3, 0.45, 0.55, 0.8, 1.4, 1.6, 2.5, 3.3]))
    mass = np.where(light, mass / mass[light].sum() * few, 10 + mass)
    thr = few * 1.5
    ctx.note(shape=mass.shape, few=few, first=float(edges[0][0]))
    ctx.state('rare', dim, few)
    nin = int(np.count_nonzero(~light))
    runs = 250
    samp = kale.sample.Sample_Outliers(edges, dens, threshold=thr, mass=mass)
    cnt = np.zeros(runs, dtype=int)
    for ii in range(runs):
        if ii % 2:
            num, vals, wts = samp.sample(poisson_outside=True)
        else:
            vals, wts = kale.sample_outliers(edges, dens, thr, mass=mass, poisson_outside=True)
        cnt[ii] = np.size(wts) - nin
    tot = runs * few
    lo, hi = ss.poisson.ppf(1e-11, tot), ss.poisson.isf(1e-11, tot)
    ctx.check(lo <= cnt.sum() <= hi, 'rare-number', got=cnt.sum() / runs, want=few)
    none = ss.binom(runs, np.exp(-few))
    ctx.check(none.ppf(1e-11) <= np.count_nonzero(cnt == 0) <= none.isf(1e-11), 'rare-none', got=np.count_nonzero(cnt == 0), few=few)
    # without the scatter: the nearest whole number
    vals, wts = kale.sample_outliers(edges, dens, thr, mass=mass)
    ctx.check(abs(np.size(wts) - nin - few) <= 0.5 + 1e-9, 'rare-whole', got=np.size(wts) - nin, want=few)


KINDS = {
    'outliers': (case_outliers, 320, 6000),
    'many': (case_many, 80, 1200),
    'rare': (case_rare, 40, 800),
    'calls': (case_calls, 100, 1500),
}
