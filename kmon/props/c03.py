"""C03: reflecting boundaries -- zero outside, mirror images inside, mass conserved."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip

RULE = ("random KDEs with reflecting boundaries (either side, both, some dimensions, automatic), given at construction or per "
        "call; densities compared with an independent sum over mirror images; non-trivial = at least one boundary is set")
ASSUMPTIONS = ["data lie inside of the boundaries (the documentation warns otherwise)"]
MIN_VERDICTS = {'reflected-density': 150, 'zero-outside': 150, 'auto-encloses': 20}


def bounds_for(rng, data, frac=(0.0, 0.0, 0.05, 0.3, 1.5)):
    reflect = []
    for dd in data:
        span = np.ptp(dd)
        lo = dd.min() - span * gen.pick(rng, list(frac)) if rng.random() < 0.7 else None
        hi = dd.max() + span * gen.pick(rng, list(frac)) if rng.random() < 0.7 else None
        reflect.append(None if (lo is None and hi is None and rng.random() < 0.6) else [lo, hi])
    if all(rr is None or rr == [None, None] for rr in reflect):
        jj = int(rng.integers(len(data)))
        reflect[jj] = [data[jj].min() - 0.01 * np.ptp(data[jj]), None]
    return reflect


def make(ctx, dims=(1, 1, 2, 2, 3)):
    rng = ctx.rng
    dim = gen.pick(rng, dims)
    num = int(rng.integers(4 * dim, 70))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    reflect = bounds_for(rng, data)
    pat = '/'.join('-' if rr is None else ''.join('n' if x is None else 'b' for x in rr) for rr in reflect)
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, bandwidth=bkind, weighted=ww is not None, reflect=reflect)
    ctx.state(kernel, dim, pat, 'w' if ww is not None else '')
    return dim, num, data, ww, kernel, kw, mat, reflect


def points_around(rng, data, mat, reflect, num=60):
    pts = gen.probe_points(rng, data, mat, num)
    for dd, rr in enumerate(reflect):
        if rr is None:
            continue
        for loc in rr:
            if loc is not None:
                sel = rng.random(num) < 0.25
                pts[dd, sel] = loc + rng.normal(size=sel.sum()) * np.sqrt(mat[dd, dd])
    return pts


def spell(rng, reflect, dim):
    """The same boundaries, in one of the accepted spellings."""
    how = int(rng.integers(4))
    if how == 0:
        return tuple(None if rr is None else tuple(rr) for rr in reflect)
    if how == 1 and dim == 1 and reflect[0] is not None:
        return list(reflect[0])
    if how == 2 and all(rr is not None and None not in rr for rr in reflect):
        return np.array(reflect)
    return [None if rr is None else list(rr) for rr in reflect]


def compare(ctx, got, pts, data, mat, kernel, ww, reflect, key, norm=1.0):
    want, good = ref.kde_density(pts, data, mat, kernel, ww, reflect=reflect, edge=1e-5)
    # at the boundary itself either side is legitimate
    for dd, rr in enumerate(reflect):
        for loc in (rr or []):
            if loc is not None:
                good &= np.abs(pts[dd] - loc) > 1e-9 * max(abs(loc), np.sqrt(mat[dd, dd]))
    scale = (np.abs(data).max(axis=1) / np.sqrt(np.diag(mat))).max()
    if not ctx.check(np.shape(got) == want.shape, key + '-shape', got=np.shape(got), want=want.shape):
        return
    got = np.asarray(got) * norm
    ctx.close(got[good], want[good], key, rtol=1e-6 + 1e-11 * scale, atol=1e-10 * max(want.max(), 1e-300), kernel=kernel, reflect=reflect)
    out = np.zeros(pts.shape[1], dtype=bool)
    for dd, rr in enumerate(reflect):
        if rr is not None:
            out |= (pts[dd] < (-np.inf if rr[0] is None else rr[0])) | (pts[dd] > (np.inf if rr[1] is None else rr[1]))
    ctx.count('points_outside', out.sum())
    ctx.check(np.all(got[out] == 0.0), 'zero-outside', vals=got[out])


def case_density(ctx):
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat, reflect = make(ctx)
    pts = points_around(rng, data, mat, reflect)
    tot = num if ww is None else ww.sum()
    given = spell(rng, reflect, dim)
    where = gen.pick(rng, ['init', 'call', 'override', 'wrapper'])
    ctx.state('where', where)
    if where == 'init':
        kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=given, **kw)
        _, got = kde.density(pts)
        compare(ctx, got, pts, data, mat, kernel, ww, reflect, 'reflected-density')
        _, got = kde.pdf(pts)
        compare(ctx, got, pts, data, mat, kernel, ww, reflect, 'reflected-density', norm=tot)
    elif where == 'call':
        kde = kale.KDE(data, weights=ww, kernel=kernel, **kw)
        _, got = kde.density(pts, reflect=given)
        compare(ctx, got, pts, data, mat, kernel, ww, reflect, 'reflected-density')
        # the instance itself is not reflected by that
        _, got = kde.density(pts)
        compare(ctx, got, pts, data, mat, kernel, ww, [None] * dim, 'unreflected-density')
    elif where == 'override':
        other = bounds_for(rng, data)
        kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=other, **kw)
        _, got = kde.density(pts, reflect=given)
        compare(ctx, got, pts, data, mat, kernel, ww, reflect, 'reflected-density')
        _, got = kde.density(pts, reflect=False)
        compare(ctx, got, pts, data, mat, kernel, ww, [None] * dim, 'unreflected-density')
        # the same for some of the parameters: those boundaries alone, given with the call, or none at all
        if dim > 1:
            pars = rng.permutation(dim)[:int(rng.integers(1, dim + 1))]
            sub = pts[pars], data[pars], mat[np.ix_(pars, pars)], kernel, ww
            for spec in ([reflect[pp] for pp in pars], False, None):
                _, got = kde.density(pts[pars], params=pars, reflect=spec)
                want = [other[pp] for pp in pars] if spec is None else (spec or [None] * pars.size)
                compare(ctx, got, *sub, want, 'reflected-projection')
    else:
        _, got = kale.density(data, pts, weights=ww, kernel=kernel, reflect=given, **kw)
        compare(ctx, got, pts, data, mat, kernel, ww, reflect, 'reflected-density')


def case_auto(ctx):
    """`True` boundaries enclose the data tightly, whatever its sign, and behave as boundaries."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    num = int(rng.integers(4 * dim, 60))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    data = data * gen.pick(rng, [1, -1])
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    spec = []
    for dd in range(dim):
        spec.append(gen.pick(rng, [True, None, [True, None], [None, True], [True, True], (True, data[dd].max() + 1.0)]))
    if all(ss is None for ss in spec):
        spec[0] = True
    allof = rng.random() < 0.3
    given = True if allof else spec
    if allof:
        spec = [True] * dim
    ctx.note(dim=dim, data=style, kernel=kernel, spec=spec, first=float(data[0, 0]))
    ctx.state('auto', dim, str([ss if not isinstance(ss, (list, tuple)) else [x if x is True or x is None else 'v' for x in ss] for ss in spec]))
    kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=given, **kw)
    # inside: at every datum (nudged inwards), the density is positive where the weight is
    _, at = kde.density(data)
    pos = np.ones(num, dtype=bool) if ww is None else ww > 0
    ctx.check(np.all(np.asarray(at)[pos] > 0.0), 'auto-encloses', low=float(np.min(np.asarray(at)[pos])), spec=spec)
    # outside: beyond the padded extrema there is nothing
    for dd in range(dim):
        ss = spec[dd]
        lo_on = ss is True or (isinstance(ss, (list, tuple)) and ss[0] is True)
        hi_on = ss is True or (isinstance(ss, (list, tuple)) and ss[1] is True)
        gap = 1e-3 * max(np.abs(data[dd]).max(), np.ptp(data[dd]))
        for on, loc in [(lo_on, data[dd].min() - gap), (hi_on, data[dd].max() + gap)]:
            if on:
                pts = data.copy()
                pts[dd] = loc
                _, vals = kde.density(pts)
                ctx.check(np.all(np.asarray(vals) == 0.0), 'auto-zero-outside', spec=spec)
    # the boundaries coincide with the data (up to the tiny padding), so the density is nearly that of explicit ones
    lims = []
    for dd, ss in enumerate(spec):
        if ss is None:
            lims.append(None)
            continue
        ss = [True, True] if ss is True else list(ss)
        ext = [data[dd].min(), data[dd].max()]
        lims.append([ext[kk] if ss[kk] is True else ss[kk] for kk in range(2)])
    # only a smooth kernel is insensitive to where exactly the boundary is
    if kernel == 'gaussian' and np.all(np.abs(data).max(axis=1) < 30 * np.sqrt(np.diag(mat))):
        cent = data.mean(axis=1, keepdims=True)
        pts = cent + (data - cent) * 0.9
        want, _ = ref.kde_density(pts, data, mat, kernel, ww, reflect=lims)
        _, got = kde.density(pts)
        ctx.close(got, want, 'auto-density', rtol=3e-3, atol=1e-4 * want.max())


def case_mirror(ctx):
    """Mirror symmetry and mass: a reflected density equals the clear one plus what leaked, folded back."""
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat, reflect = make(ctx, dims=(1, 2))
    dd = int(rng.integers(dim))
    # a single boundary in one dimension: f_r(x) = f(x) + f(mirror x)
    side = int(rng.integers(2))
    loc = data[dd].min() - rng.uniform(0, 0.2) * np.ptp(data[dd]) if side == 0 else data[dd].max() + rng.uniform(0, 0.2) * np.ptp(data[dd])
    one = [None] * dim
    one[dd] = [loc, None] if side == 0 else [None, loc]
    kde = kale.KDE(data, weights=ww, kernel=kernel, **kw)
    pts = points_around(rng, data, mat, one)
    pts[dd] = loc + np.abs(pts[dd] - loc) * (1 if side == 0 else -1)
    img = pts.copy()
    img[dd] = 2 * loc - img[dd]
    _, refl = kde.density(pts, reflect=one)
    _, here = kde.density(pts)
    _, mirr = kde.density(img)
    want = np.asarray(here) + np.asarray(mirr)
    # rounding of (2*loc - x) may cross the edge of a finite kernel
    near = np.zeros(pts.shape[1], dtype=bool)
    if kernel != 'gaussian':
        for pp in (pts, img):
            near |= (np.abs(ref.mahalanobis2(pp, data, mat) - 1) < 1e-5).any(axis=1)
    ctx.close(np.asarray(refl)[~near], want[~near], 'folded', rtol=1e-6, atol=1e-9 * max(want.max(), 1e-300))


KINDS = {
    'density': (case_density, 520, 9000),
    'auto': (case_auto, 160, 2500),
    'mirror': (case_mirror, 160, 2500),
}
