"""C13: points drawn from a grid follow the gridded distribution."""
import numpy as np
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip

RULE = ("random grids (1-4 dimensions, uneven edges, zero / dominant cells, any memory layout, with and without separate masses) sampled; counts per bin are "
        "tested against the masses, positions within bins against the density gradient (exact linear distribution), every draw against the grid")
ASSUMPTIONS = ["within a bin each coordinate follows the linear density of the bin's edge averages (documented); joint structure within a bin is not specified",
               "statistical verdicts use p < 1e-10"]
MIN_VERDICTS = {'inside-grid': 80, 'bin-masses': 80, 'intra-bin': 60}


def make_edges(rng, dim, most=9, least=2):
    edges = []
    for _ in range(dim):
        num = int(rng.integers(least, most + 1))
        how = gen.pick(rng, ['even', 'uneven', 'log', 'offset'])
        if how == 'even':
            ee = np.linspace(rng.uniform(-3, 0), rng.uniform(0.5, 3), num)
        elif how == 'uneven':
            ee = np.cumsum(rng.uniform(0.05, 1, size=num)) + rng.normal()
        elif how == 'log':
            ee = np.logspace(rng.uniform(-3, 0), rng.uniform(0.5, 3), num)
        else:
            ee = np.linspace(0, 1, num) * rng.uniform(0.1, 2) + rng.uniform(-100, 100)
        edges.append(ee)
    return edges


def make_dens(rng, edges, style=None):
    shape = [ee.size for ee in edges]
    style = style or gen.pick(rng, ['random', 'smooth', 'flat', 'steep', 'zeros', 'spike', 'integers', 'scaled'])
    if style == 'random':
        dens = rng.uniform(0, 1, size=shape)
    elif style == 'smooth':
        mesh = np.meshgrid(*[np.linspace(-1, 1, ss) for ss in shape], indexing='ij')
        dens = np.exp(-sum(mm**2 for mm in mesh) * 2)
    elif style == 'flat':
        dens = np.full(shape, float(rng.uniform(0.1, 10)))
    elif style == 'steep':
        mesh = np.meshgrid(*[np.linspace(0, 1, ss) for ss in shape], indexing='ij')
        dens = 10.0**(4 * mesh[0] - 2)
    elif style == 'zeros':
        dens = rng.uniform(0, 1, size=shape) * (rng.random(shape) < 0.5)
    elif style == 'spike':
        dens = np.zeros(shape)
        dens[tuple(int(rng.integers(ss)) for ss in shape)] = 5.0
    elif style == 'integers':
        dens = rng.integers(0, 6, size=shape)
    else:
        dens = rng.uniform(0.2, 1, size=shape) * 10.0**rng.uniform(-12, 12)
    if not np.any(dens > 0):
        dens = dens + 1
    return dens, style


def corner_mass(dens, edges):
    """Average of the corners times the volume of each bin."""
    mass = np.asarray(dens, dtype=float)
    for dd, ee in enumerate(edges):
        nn = mass.shape[dd]
        mass = 0.5 * (np.take(mass, range(1, nn), axis=dd) + np.take(mass, range(nn - 1), axis=dd))
        shp = [1] * mass.ndim
        shp[dd] = nn - 1
        mass = mass * np.diff(ee).reshape(shp)
    return mass


def side_average(dens, dd):
    """Density averaged over all other dimensions of each bin: (left, right) edges along `dd`."""
    val = np.asarray(dens, dtype=float)
    for oo in range(val.ndim):
        if oo == dd:
            continue
        nn = val.shape[oo]
        val = 0.5 * (np.take(val, range(1, nn), axis=oo) + np.take(val, range(nn - 1), axis=oo))
    nn = val.shape[dd]
    return np.take(val, range(nn - 1), axis=dd), np.take(val, range(1, nn), axis=dd)


def spell_edges(rng, edges, dim):
    if dim == 1 and rng.random() < 0.5:
        return edges[0] if rng.random() < 0.5 else list(edges[0])
    return gen.pick(rng, [edges, tuple(edges), [list(ee) for ee in edges]])


def spell_array(rng, arr):
    """The same values, stored in another way."""
    return gen.represent(rng, np.asarray(arr), kinds=('c', 'c', 'f', 'f', 'strided', 'list', 'neg'))[0]


def locate(samp, edges):
    idx = []
    for xx, ee in zip(samp, edges):
        idx.append(np.clip(np.searchsorted(ee, xx, side='right') - 1, 0, ee.size - 2))
    return tuple(idx)


def judge(ctx, samp, dens, edges, mass, interpolate=True):
    dim = len(edges)
    size = samp.shape[1]
    inside = np.ones(size, dtype=bool)
    for xx, ee in zip(samp, edges):
        inside &= (xx >= ee[0] - 1e-12 * np.abs(ee).max()) & (xx <= ee[-1] + 1e-12 * np.abs(ee).max())
    ctx.count('draws_checked', size)
    ctx.check(inside.all(), 'inside-grid', nbad=(~inside).sum())
    ctx.check(np.all(np.isfinite(samp)), 'finite')
    idx = locate(samp, edges)
    counts = np.zeros(mass.shape)
    np.add.at(counts, idx, 1)
    prob = mass / mass.sum()
    # a draw exactly at an edge (density zero in the next bin) may be assigned to the neighbour by rounding
    empty = (prob == 0)
    stray = counts[empty].sum()
    ctx.check(stray <= 3 + 1e-4 * size, 'empty-bins', stray=stray)
    if prob.size > 1:
        stat.chi2_counts(ctx, np.where(empty, 0, counts), prob * size, 'bin-masses', dim=dim)
    # each coordinate within the bins: CDF of the linear density, pooled over all bins
    for dd in range(dim):
        ee = edges[dd]
        loc = (samp[dd] - ee[idx[dd]]) / np.diff(ee)[idx[dd]]
        if interpolate:
            y1, y2 = side_average(dens, dd)
            y1, y2 = y1[idx], y2[idx]
            tot = y1 + y2
            ok = tot > 0
            y1, y2, tot, loc = y1[ok], y2[ok], tot[ok], loc[ok]
            flat = np.ravel_multi_index(idx, mass.shape)[ok]
            # probability integral transform: uniform if the draws follow each bin's density
            uu = (2 * y1 * loc + (y2 - y1) * loc**2) / tot
        else:
            uu = loc
            flat = np.ravel_multi_index(idx, mass.shape)
        if uu.size < 200:
            continue
        stat.ks(ctx, np.clip(uu, 0, 1), lambda tt: tt, 'intra-bin', dim=dim, axis=dd, interpolate=interpolate)
        # within single bins: positions do not depend on which bin was chosen
        nums = np.bincount(flat)
        for bb in np.argsort(nums)[-4:]:
            if nums[bb] > 300:
                stat.ks(ctx, np.clip(uu[flat == bb], 0, 1), lambda tt: tt, 'intra-single-bin', dim=dim, axis=dd)
        # and separately for rising and falling bins
        if interpolate:
            up = y2 > y1
            for sel in (up, ~up):
                if sel.sum() > 500:
                    stat.ks(ctx, np.clip(uu[sel], 0, 1), lambda tt: tt, 'intra-bin', dim=dim, axis=dd)
    return idx


def case_grid(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 2, 3, 4])
    edges = make_edges(rng, dim, most={1: 20, 2: 9, 3: 5, 4: 4}[dim])
    dens, style = make_dens(rng, edges)
    true = corner_mass(dens, edges)
    if not true.sum() > 0:
        raise Skip
    how = gen.pick(rng, ['none', 'none', 'mass', 'list'])
    mass = None
    if how != 'none':
        mass = rng.uniform(0, 1, size=true.shape) * (rng.random(true.shape) < 0.8)
        mass.flat[int(rng.integers(mass.size))] = 2.0
        if rng.random() < 0.3:
            mass = np.round(mass * 10).astype(int)
            mass.flat[0] += 1
        mass = np.where(true > 0, mass, 0)
        if mass.sum() <= 0:
            raise Skip
    size = int(gen.pick(rng, [5000, 20000])) * (3 if ctx.thorough else 1)
    interp = rng.random() < 0.8
    ctx.note(shape=[ee.size for ee in edges], dens=style, mass=how, interpolate=interp, size=size, first=float(edges[0][0]))
    ctx.state(dim, style, how, interp)
    given = spell_edges(rng, edges, dim)
    gdens = spell_array(rng, dens)
    gmass = None if mass is None else (mass.tolist() if how == 'list' else spell_array(rng, mass))
    use = gen.pick(rng, ['class', 'func', 'again'])
    if use == 'class':
        samp = kale.sample.Sample_Grid(given, gdens, mass=gmass).sample(size, interpolate=interp)
    elif use == 'again':
        gg = kale.sample.Sample_Grid(given, gdens, mass=gmass)
        first = gg.sample(size // 2, interpolate=interp)
        second = gg.sample(size - size // 2, interpolate=interp)
        ctx.check(not np.array_equal(first[:, :50], second[:, :50]), 'fresh-draws')
        samp = np.concatenate([first, second], axis=1)
    else:
        samp = kale.sample_grid(given, gdens, nsamp=size, mass=gmass, interpolate=interp)
        ctx.check(np.ndim(samp) == (1 if dim == 1 else 2), 'shape', got=np.shape(samp))
    samp = np.atleast_2d(samp)
    if ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape):
        judge(ctx, samp, dens, edges, true if mass is None else np.asarray(mass, dtype=float), interp)


def case_number(ctx):
    """How many points are drawn: as asked, or as many as the mass counts."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    edges = make_edges(rng, dim, most=6)
    dens, style = make_dens(rng, edges)
    true = corner_mass(dens, edges)
    target = float(rng.uniform(1.5, 3000))
    if not true.sum() > 0:
        raise Skip
    dens = np.asarray(dens, dtype=float) * target / true.sum()
    true = corner_mass(dens, edges)
    ctx.note(dim=dim, dens=style, target=target)
    ctx.state('number', dim, style)
    samp = np.atleast_2d(kale.sample_grid(edges, spell_array(rng, dens)))
    ctx.check(abs(samp.shape[1] - target) <= 1.0, 'default-number', got=samp.shape[1], want=target)
    mass = true * 2 + (true > 0)
    samp = np.atleast_2d(kale.sample_grid(edges, spell_array(rng, dens), mass=spell_array(rng, mass)))
    ctx.check(abs(samp.shape[1] - mass.sum()) <= 1.0, 'default-number-mass', got=samp.shape[1], want=mass.sum())
    for num in (0, 1, 2, int(rng.integers(3, 500)), 17.0):
        samp = kale.sample_grid(edges, dens, nsamp=num)
        ctx.check(np.shape(samp) == ((int(num),) if dim == 1 else (dim, int(num))), 'number', got=np.shape(samp), want=num)
    samp = kale.sample_grid(edges, dens, nsamp=7, squeeze=False)
    ctx.check(np.shape(samp) == (dim, 7), 'unsqueezed', got=np.shape(samp))
    grid = kale.sample.Sample_Grid(edges, dens).grid
    ctx.check(len(grid) == dim and all(np.array_equal(gg, mm) for gg, mm in zip(grid, np.meshgrid(*edges, indexing='ij'))), 'grid-mesh')


def case_flatness(ctx):
    """Nearly flat, exactly flat and extreme gradients within single bins."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2])
    edges = [np.array([aa, aa + 10.0**rng.uniform(-6, 6)]) for aa in rng.normal(size=dim)]
    base = rng.uniform(0.5, 2)
    tilt = float(gen.pick(rng, [0, 1e-17, 1e-15, 1e-12, 1e-8, 1e-4, 0.1, 0.5, 1.0, -1e-17, -1e-15, -1e-12, -1e-8, -0.3, -1.0]))
    mesh = np.meshgrid(*[np.array([-0.5, 0.5])] * dim, indexing='ij')
    dens = base * (1 + 2 * tilt * mesh[0]) * 10.0**rng.uniform(-8, 8)
    dens = np.clip(dens, 0, None)
    ctx.note(dim=dim, tilt=tilt, first=float(edges[0][0]))
    ctx.state('flat', dim, tilt)
    samp = np.atleast_2d(kale.sample_grid(edges, dens, nsamp=20000))
    judge(ctx, samp, dens, edges, corner_mass(dens, edges))
    ctx.check(np.unique(samp[0]).size > 19000, 'continuous', unique=np.unique(samp[0]).size)


def case_calls(ctx):
    """Many calls for few points each: the bins drawn within a call are independent of each other (neither spread out evenly nor repeated)."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    edges = make_edges(rng, dim, most={1: 12, 2: 5, 3: 4}[dim], least=3)
    dens, style = make_dens(rng, edges, gen.pick(rng, ['random', 'smooth', 'flat', 'zeros', 'scaled']))
    mass = corner_mass(dens, edges)
    prob = (mass / mass.sum()).ravel()
    if prob.max() > 0.9:
        raise Skip
    size, reps = int(gen.pick(rng, [5, 20, 50])), 400
    interp = bool(rng.random() < 0.7)
    use = gen.pick(rng, ['class', 'func'])
    ctx.note(shape=[ee.size for ee in edges], dens=style, size=size, use=use, interpolate=interp, first=float(edges[0][0]))
    ctx.state('calls', dim, style, size, use)
    grid = kale.sample.Sample_Grid(edges, dens)
    which = np.zeros((reps, size), dtype=int)
    for ii in range(reps):
        samp = grid.sample(size, interpolate=interp) if use == 'class' else kale.sample_grid(edges, dens, nsamp=size, interpolate=interp)
        which[ii] = np.ravel_multi_index(locate(np.atleast_2d(samp), edges), mass.shape)
    stat.collisions(ctx, which, prob, 'independent-draws', size=size, dim=dim)


KINDS = {
    'calls': (case_calls, 60, 700),
    'grid': (case_grid, 240, 3500),
    'number': (case_number, 60, 700),
    'flatness': (case_flatness, 60, 600),
}
