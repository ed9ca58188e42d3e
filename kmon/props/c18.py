"""C18: automatic edges and extrema cover the data as specified."""
import numpy as np
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip
from . import c03

RULE = ("random data (12 styles, also constant and tiny samples) with every spelling of edges and extrema; edges are checked to be finite, strictly "
        "increasing, covering, of the requested number, or identical to the given ones; extrema and default points of random KDEs likewise; up to 24 parameters")
ASSUMPTIONS = ["unless extrema are given, automatic edges extend beyond the data; their number is only bounded"]
MIN_VERDICTS = {'increasing': 200, 'covers': 150, 'given-edges': 40, 'extrema-exact': 60, 'kde-extrema': 100, 'kde-points': 100, 'many': 500}


def increasing(ctx, edge, key='increasing', **kw):
    edge = np.asarray(edge, dtype=float)
    ok = edge.ndim == 1 and edge.size >= 2 and np.all(np.isfinite(edge)) and np.all(np.diff(edge) > 0)
    return ctx.check(ok, key, edges=edge, **kw)


def case_edges(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    num = int(gen.pick(rng, [1, 2, 3, int(rng.integers(4, 60)), int(rng.integers(60, 3000))]))
    style = gen.pick(rng, gen.DATA_STYLES + ['constant', 'int', 'f4', 'nonfinite'])
    if style == 'constant':
        data = np.full((dim, num), float(gen.pick(rng, [0.0, 1.0, -7.3, 4e5, 1e-7])))
    elif style == 'int':
        data = rng.integers(-100, 100, size=(dim, num))
    elif style == 'f4':
        data = rng.normal(size=(dim, num)).astype('f4')
    elif style == 'nonfinite':
        num = max(num, 8)
        data = gen.dataset(rng, dim, num)
        data[0, 0] = gen.pick(rng, [np.nan, np.inf, -np.inf])
    else:
        data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num) if num >= 4 else None
    flat = dim == 1 and rng.random() < 0.7
    given, layout = gen.represent(rng, data[0] if flat else data)
    good = [dd[np.isfinite(dd)] for dd in np.asarray(data)]
    lo = np.array([dd.min() for dd in good], dtype=float)
    hi = np.array([dd.max() for dd in good], dtype=float)
    kw = {}
    if ww is not None:
        kw['weights'] = ww if rng.random() < 0.6 else list(ww)

    # ---- extrema
    how = gen.pick(rng, ['none', 'none', 'common', 'each', 'partial', 'unbounded'])
    want_lo, want_hi = lo.copy(), hi.copy()
    span = np.where(hi > lo, hi - lo, 1.0)
    ex = None
    if how == 'common':
        a, b = lo.min() - rng.uniform(0, 1) * span.max(), hi.max() + rng.uniform(0, 1) * span.max()
        ex = gen.pick(rng, [[a, b], (a, b), np.array([a, b])])
        want_lo[:], want_hi[:] = a, b
    elif how in ('each', 'partial', 'unbounded'):
        ex = []
        for dd in range(dim):
            a = lo[dd] + rng.uniform(-1, 0.2) * span[dd]
            b = hi[dd] + rng.uniform(-0.2, 1) * span[dd]
            a = None if how != 'each' and rng.random() < 0.5 else a
            b = None if how != 'each' and rng.random() < 0.5 else b
            want_lo[dd] = lo[dd] if a is None else a
            want_hi[dd] = hi[dd] if b is None else b
            ex.append(None if a is None and b is None and rng.random() < 0.7 else [a, b])
    if how != 'none' and style == 'nonfinite':
        raise Skip
    if ex is not None:
        if np.any(want_hi <= want_lo):
            raise Skip
        kw['extrema'] = ex

    # ---- edges
    spec = gen.pick(rng, ['auto', 'auto', 'int', 'ints', 'array', 'arrays', 'mixed'])
    nums = [None] * dim
    fixed = [None] * dim
    if spec == 'int':
        nums = [int(rng.integers(1, 60) if rng.random() < 0.85 else rng.integers(60, 4000))] * dim
        kw['edges'] = nums[0] if rng.random() < 0.6 else np.int64(nums[0])
    elif spec == 'ints' and dim > 1:
        nums = [int(rng.integers(2, 60)) for _ in range(dim)]
        kw['edges'] = gen.pick(rng, [nums, tuple(nums), np.array(nums)])
    elif spec == 'array':
        ee = np.sort(rng.uniform(-5, 5, size=int(rng.integers(dim + 1, 20))))
        fixed = [ee] * dim
        kw['edges'] = gen.pick(rng, [ee, ee.tolist()])
    elif spec == 'arrays' and not flat:
        fixed = [np.sort(rng.uniform(-5, 5, size=int(rng.integers(2, 20)))) for _ in range(dim)]
        kw['edges'] = gen.pick(rng, [fixed, tuple(fixed), [list(ee) for ee in fixed]])
    elif spec == 'mixed' and dim > 1:
        kw['edges'] = []
        for dd in range(dim):
            what = gen.pick(rng, ['none', 'int', 'fixed'])
            if what == 'int':
                nums[dd] = int(rng.integers(1, 30))
            elif what == 'fixed':
                fixed[dd] = np.sort(rng.uniform(-5, 5, size=int(rng.integers(2, 20))))
            kw['edges'].append(nums[dd] if what == 'int' else fixed[dd])
    opt = {}
    if rng.random() < 0.3:
        opt['nmin'] = int(rng.integers(1, 12))
    if rng.random() < 0.3:
        opt['nmax'] = int(rng.integers(12, 400))
    if rng.random() < 0.2:
        opt['refine'] = float(rng.uniform(0.5, 4))
    if rng.random() < 0.3:
        opt['pad'] = int(rng.integers(0, 4))
    ctx.note(dim=dim, num=num, data=style, edges=spec, extrema=how, weighted=ww is not None, layout=layout, opts=opt, flat=flat)
    ctx.state(dim, style, spec, how)
    got = utils.parse_edges(given, **kw, **opt)
    if flat:
        if not ctx.check(np.ndim(got) == 1, 'flat-result', got=got):
            return
        got = [got]
    if not ctx.check(len(got) == dim, 'one-per-dimension', got=len(got)):
        return
    pad = opt.get('pad', 1 if ex is None else 0)
    for dd in range(dim):
        if fixed[dd] is not None:
            ctx.check(np.array_equal(np.asarray(got[dd], dtype=float), fixed[dd]), 'given-edges', dim=dd)
            continue
        if lo[dd] == hi[dd] and ex is None and pad == 0:
            continue        # an empty range by request
        ee = np.asarray(got[dd], dtype=float)
        if not increasing(ctx, ee, dim=dd, style=style):
            continue
        scale = max(abs(want_lo[dd]), abs(want_hi[dd]), 1e-300)
        tol = 1e-12 * scale
        if style == 'f4':
            tol = 1e-6 * scale
        ctx.check(ee[0] <= want_lo[dd] + tol and ee[-1] >= want_hi[dd] - tol, 'covers', lo=ee[0], hi=ee[-1], data=[want_lo[dd], want_hi[dd]], pad=pad)
        ww_ = np.diff(ee)
        ctx.check(np.ptp(ww_) <= 1e-6 * ww_.mean() + 8 * np.spacing(scale), 'even', widths=ww_)
        if ex is not None and pad == 0:
            ctx.check(abs(ee[0] - want_lo[dd]) <= tol and abs(ee[-1] - want_hi[dd]) <= tol, 'extrema-exact', lo=ee[0], hi=ee[-1],
                      want=[want_lo[dd], want_hi[dd]], how=how)
        if nums[dd] is not None:
            ctx.check(ee.size == nums[dd] + 1, 'number', got=ee.size, want=nums[dd] + 1)
        else:
            least, most = opt.get('nmin', 5), opt.get('nmax', 1000)
            ctx.check(least <= ee.size - 1 <= most, 'number-bounded', got=ee.size - 1, limits=[least, most])
        if pad and ex is None and style not in ('constant', 'nonfinite') and num > 3:
            # the padding is symmetric, and a modest multiple of the (unpadded) bin width
            left, right = want_lo[dd] - ee[0], ee[-1] - want_hi[dd]
            ctx.check(abs(left - right) <= 1e-6 * (left + right) + 4 * tol, 'pad-symmetric', left=left, right=right)
            ctx.check(left > 0, 'pad-beyond', left=left)


def case_kde(ctx):
    """Extrema and points of KDEs."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    num = int(rng.integers(4 * dim, 400))
    style = gen.pick(rng, gen.DATA_STYLES)
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    if rng.random() < 0.35:
        # narrow kernels, of (possibly) different widths
        bkind = gen.pick(rng, ['narrow', 'narrow-diagonal', 'narrow-vector'])
        size = dim if bkind == 'narrow-vector' else 1
        bws = np.broadcast_to(10**rng.uniform(-2.2, -0.2, size=size), dim)
        kw = dict(bandwidth=bws.copy() if bkind == 'narrow-vector' else float(bws[0]), diagonal=bkind == 'narrow-diagonal')
        mat = ref.weighted_cov(data, ww) * np.outer(bws, bws)
    reflect = c03.bounds_for(rng, data) if rng.random() < 0.4 else None
    flat = dim == 1 and rng.random() < 0.7
    arg = None if reflect is None else (reflect[0] if flat else reflect)
    npts = int(rng.integers(2, 40)) if rng.random() < 0.3 else None
    if npts is not None:
        kw['points'] = npts
    given = data[0] if flat else data
    kde = kale.KDE(given, kernel=kernel, weights=ww, reflect=arg, **kw)
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, bandwidth=bkind, reflect=reflect, flat=flat, points=npts)
    ctx.state(dim, kernel, 'reflect' if reflect else '', 'flat' if flat else '')
    extr = np.asarray(kde.extrema, dtype=float)
    if not ctx.check(extr.shape == (dim, 2) and np.all(np.isfinite(extr)), 'kde-extrema', got=extr):
        return
    sig = np.sqrt(np.diag(mat))
    lo, hi = data.min(axis=1), data.max(axis=1)
    for dd in range(dim):
        rr = (reflect[dd] if reflect is not None else None) or [None, None]
        scale = 1e-9 * (abs(lo[dd]) + abs(hi[dd]) + sig[dd])
        for side in range(2):
            edge = [lo, hi][side][dd]
            sign = -1 if side == 0 else 1
            beyond = sign * (extr[dd, side] - edge)
            if rr[side] is not None:
                ctx.check(abs(extr[dd, side] - rr[side]) <= scale, 'kde-extrema-boundary', got=extr[dd, side], want=rr[side])
            else:
                ctx.check(beyond >= 0.99 * sig[dd] - scale, 'kde-extrema', beyond=beyond, sigma=sig[dd], side=side)
                ctx.check(beyond <= 40 * sig[dd] + np.ptp(data[dd]), 'kde-extrema-near', beyond=beyond, sigma=sig[dd])
    pts = kde.points
    pts = [pts] if flat else pts
    if not ctx.check(len(pts) == dim, 'kde-points', got=len(pts)):
        return
    for dd in range(dim):
        if not increasing(ctx, pts[dd], 'kde-points', dim=dd):
            continue
        ee = np.asarray(pts[dd], dtype=float)
        scale = 1e-9 * (abs(lo[dd]) + abs(hi[dd]) + sig[dd])
        ctx.check(abs(ee[0] - extr[dd, 0]) <= scale and abs(ee[-1] - extr[dd, 1]) <= scale, 'kde-points-extrema', pts=ee[[0, -1]], extrema=extr[dd])
        ctx.check(ee[0] <= lo[dd] + scale and ee[-1] >= hi[dd] - scale, 'kde-points-cover', pts=ee[[0, -1]], data=[lo[dd], hi[dd]])
        if npts is not None:
            ctx.check(ee.size == npts + 1, 'kde-points-number', got=ee.size, want=npts + 1)
        else:
            ctx.check(4 <= ee.size <= 201, 'kde-points-number', got=ee.size)
            width = np.diff(ee).max()
            capped = ee.size >= 201
            ctx.check(capped or width <= 1.05 * sig[dd], 'kde-points-resolve', width=width, sigma=sig[dd], num=ee.size)


def case_many(ctx):
    """Many parameters: each is treated in the same way, whatever their number and order."""
    rng = ctx.rng
    dim = int(rng.integers(4, 25))
    num = int(gen.pick(rng, [int(rng.integers(20, 100)), int(rng.integers(101, 160)), int(rng.integers(160, 2000))]))
    data = np.array([gen.dataset(rng, 1, num)[0] for _ in range(dim)])
    ww = gen.weights(rng, num)
    kw = {} if ww is None else dict(weights=ww)
    lo, hi = data.min(axis=1), data.max(axis=1)
    if np.any(lo == hi):
        raise Skip
    if rng.random() < 0.3:
        span = hi - lo
        kw['extrema'] = [[lo[dd] - 0.1 * span[dd], hi[dd] + 0.2 * span[dd]] if rng.random() < 0.6 else None for dd in range(dim)]
    ctx.note(dim=dim, num=num, weighted=ww is not None, extrema='extrema' in kw, first=float(data[0, 0]))
    ctx.state('many', dim, num > 100, 'extrema' in kw)
    got = utils.parse_edges(data, **kw)
    if not ctx.check(len(got) == dim, 'one-per-dimension', got=len(got)):
        return
    for dd in range(dim):
        ee = np.asarray(got[dd], dtype=float)
        if not increasing(ctx, ee, 'many', dim=dd):
            continue
        tol = 1e-12 * max(abs(lo[dd]), abs(hi[dd]))
        ctx.check(ee[0] <= lo[dd] + tol and ee[-1] >= hi[dd] - tol, 'many-covers', lo=ee[0], hi=ee[-1], data=[lo[dd], hi[dd]])
        ctx.check(5 <= ee.size - 1 <= 1000, 'many-number', got=ee.size - 1)
    order = rng.permutation(dim)
    if 'extrema' in kw:
        kw['extrema'] = [kw['extrema'][ii] for ii in order]
    again = utils.parse_edges(data[order], **kw)
    ctx.check(all(np.array_equal(aa, got[ii]) for aa, ii in zip(again, order)), 'many-order', order=order)
    if num > 2 * dim and gen.well_conditioned(data, ww):
        kde = kale.KDE(data, weights=ww)
        for dd, pp in enumerate(kde.points):
            if increasing(ctx, pp, 'many-points', dim=dd):
                ctx.check(pp[0] <= lo[dd] and pp[-1] >= hi[dd], 'many-points-cover', pts=[pp[0], pp[-1]], data=[lo[dd], hi[dd]])


def case_given(ctx):
    """Explicit evaluation points are kept as they are."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    num = int(rng.integers(4 * dim, 100))
    data = gen.dataset(rng, dim, num)
    if not gen.well_conditioned(data):
        raise Skip
    edges = [np.sort(rng.uniform(-5, 5, size=int(rng.integers(2, 20)))) for _ in range(dim)]
    flat = dim == 1 and rng.random() < 0.7
    ctx.note(dim=dim, sizes=[ee.size for ee in edges], flat=flat)
    kde = kale.KDE(data[0] if flat else data, points=edges[0] if flat else edges)
    first = kde.points
    pts = [first] if flat else first
    ok = len(pts) == dim and all(np.array_equal(aa, bb) for aa, bb in zip(pts, edges))
    ctx.check(ok, 'kde-points-given')
    kde.density()
    kde.resample(5)
    again = [kde.points] if flat else kde.points
    ctx.check(len(again) == dim and all(np.array_equal(aa, bb) for aa, bb in zip(again, edges)), 'kde-points-stable')


KINDS = {
    'edges': (case_edges, 700, 14000),
    'kde': (case_kde, 300, 6000),
    'given': (case_given, 60, 800),
    'many': (case_many, 120, 3000),
}
