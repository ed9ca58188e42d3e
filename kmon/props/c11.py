"""C11: the estimate does not depend on the units or origin of the data (affine equivariance)."""
import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip
from . import c03, c10

RULE = ("random KDEs and twins built from shifted / rescaled / mirrored / mixed (full affine) data with the transformed boundaries; "
        "densities must transform with the Jacobian, CDFs and grids with the points, draws with the data (same random stream)")
ASSUMPTIONS = ["rounding: shifts up to 1e4 times the spread of the data; scales 1e-36 to 1e36 (relative to each other 1e-12 to 1e12); points close to the edge of finite kernels are not compared"]
MIN_VERDICTS = {'density': 100, 'draws': 60, 'affine-density': 40}
same = c10.same


def transform(rng, dim, mirror=True):
    scale = 10.0**rng.uniform(-6, 6, size=dim) if rng.random() < 0.5 else rng.uniform(0.2, 5, size=dim)
    if rng.random() < 0.3:
        scale = 2.0**rng.integers(-20, 20, size=dim)
    elif rng.random() < 0.35:
        # far from the units that absolute numbers in the code may have been meant for
        scale = scale * 10.0**rng.uniform(-30, 30)
    sign = np.where(rng.random(dim) < 0.3, -1.0, 1.0) if mirror else np.ones(dim)
    return scale, sign


def map_bounds(reflect, scale, sign, shift):
    if reflect is None:
        return None
    out = []
    for rr, sc, sg, sh in zip(reflect, scale, sign, shift):
        if rr is None:
            out.append(None)
            continue
        new = [None if xx is None else sg * sc * xx + sh for xx in rr]
        out.append(new if sg > 0 else new[::-1])
    return out


def case_scale(ctx):
    """Each parameter is shifted, rescaled and possibly mirrored."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = c10.setup(ctx, gen.WEIGHT_STYLES)
    data = data - data.mean(axis=1, keepdims=True)
    if reflect is not None:
        reflect = c03.bounds_for(rng, data)
    kinds = ['default', 'scott', 'silverman', 'scalar', 'vector', 'mixed', 'matrix', 'diagonal', 'rescale', 'neff']
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww, kinds)
    scale, sign = transform(rng, dim)
    if rng.random() < 0.5:
        shift = np.zeros(dim)
    else:
        shift = scale * np.ptp(data, axis=1) * rng.uniform(-1, 1, size=dim) * 10.0**rng.uniform(-1, 3)
    fac = (sign * scale)[:, None]
    other = data * fac + shift[:, None]
    refl2 = map_bounds(reflect, scale, sign, shift)
    ctx.state('bandwidth', bkind, bool(shift.any()), bool((sign < 0).any()))
    ctx.note(scale=scale, sign=sign, shift=shift, bandwidth=bkind)
    # automatic boundaries keep the mirrored data mirrored; given boundaries could fall inside by rounding
    if refl2 is not None:
        for dd, rr in enumerate(refl2):
            if rr is not None:
                lo, hi = other[dd].min(), other[dd].max()
                pad = 1e-9 * (hi - lo)
                for ii, loc in enumerate(rr):
                    if loc is not None and (lo - pad < loc < hi + pad):
                        if min(abs(loc - lo), abs(loc - hi)) > pad:
                            raise Skip
    a_kde = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw)
    b_kde = kale.KDE(other, weights=ww, kernel=kernel, reflect=refl2, **kw)
    pts = c10.good_points(ctx, data, mat, kernel, reflect)
    if not pts.shape[1]:
        raise Skip
    jac = np.prod(scale)
    loss = 1e-15 * (np.abs(other).max(axis=1) / (scale * np.sqrt(np.diag(mat)))).max() * 1e3
    tol = 1e-8 + loss
    if tol > 1e-5:
        raise Skip
    same(ctx, np.asarray(b_kde.density(pts * fac + shift[:, None])[1]) * jac, a_kde.density(pts)[1], 'density', rtol=tol * 10, floor=1e-11 + loss)
    same(ctx, b_kde.bandwidth, a_kde.bandwidth, 'bandwidth', rtol=1e-9)
    same(ctx, b_kde.kernel.matrix / (fac * fac.T), a_kde.kernel.matrix, 'matrix', rtol=tol, floor=1e-8)
    if dim > 1:
        par = rng.permutation(dim)[:int(rng.integers(1, dim))]
        rsub = None if reflect is None else [reflect[pp] for pp in par]
        sub = c10.good_points(ctx, data[par], mat[np.ix_(par, par)], kernel, rsub)
        if sub.shape[1]:
            same(ctx, np.asarray(b_kde.density(sub * fac[par] + shift[par][:, None], params=par)[1]) * np.prod(scale[par]),
                 a_kde.density(sub, params=par)[1], 'projected-density', rtol=tol * 10, floor=1e-11 + loss)
    # support: automatic extrema and evaluation points follow the data
    ext_a, ext_b = np.array(a_kde.extrema, dtype=float), np.array(b_kde.extrema, dtype=float)
    want = ext_a * fac + shift[:, None]
    want = np.sort(want, axis=1)
    ctx.close((ext_b - shift[:, None]) / scale[:, None], (want - shift[:, None]) / scale[:, None], 'extrema', rtol=1e-6, atol=1e-6 * np.ptp(data))
    # a CDF on a grid: shifts and positive scales only
    if dim == 1 and sign[0] > 0 and rng.random() < 0.5:
        got = b_kde.cdf((pts * fac + shift[:, None])[0])
        ctx.close(got, a_kde.cdf(pts[0]), 'cdf', rtol=0, atol=1e-2 if kernel == 'gaussian' else 4e-2)


def case_draws(ctx):
    """The same random stream gives the same draws, in the transformed coordinates (shift and positive scale)."""
    rng = ctx.rng
    dim, num, data, ww, kernel, reflect = c10.setup(ctx, gen.WEIGHT_STYLES)
    data = data - data.mean(axis=1, keepdims=True)
    if reflect is not None:
        reflect = c03.bounds_for(rng, data)
    bw = float(rng.uniform(0.2, 0.8))
    power = 2.0**rng.integers(-12, 12, size=dim)
    common = float(power[0])
    shift = np.zeros(dim)
    # scaling all parameters by the same power of two is exact, so the same arithmetic must be done
    fac = np.full((dim, 1), common)
    other = data * fac
    refl2 = map_bounds(reflect, np.full(dim, common), np.ones(dim), shift)
    aa = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, bandwidth=bw)
    bb = kale.KDE(other, weights=ww, kernel=kernel, reflect=refl2, bandwidth=bw)
    seed = int(rng.integers(1 << 30))
    keep = None
    if dim > 1 and reflect is None and rng.random() < 0.4:
        keep = [int(rng.integers(dim))]
    np.random.seed(seed)
    s1 = np.atleast_2d(aa.resample(200, keep=keep))
    np.random.seed(seed)
    s2 = np.atleast_2d(bb.resample(200, keep=keep))
    ctx.note(factor=common, keep=keep)
    near = np.isclose(s2 / common, s1, rtol=1e-6, atol=1e-6 * np.ptp(data)).all(axis=0)
    # LAPACK may choose signs / order of degenerate eigenvectors: compare draw by draw only without ambiguity
    if near.mean() < 0.95 and dim > 1:
        ctx.count('ambiguous_draw_basis')
        for dd in range(dim):
            q1, q2 = np.quantile(s1[dd], [0.25, 0.5, 0.75]), np.quantile(s2[dd] / common, [0.25, 0.5, 0.75])
            ctx.check(np.all(np.abs(q1 - q2) < 0.9 * np.ptp(s1[dd])), 'draws', q1=q1, q2=q2)
    else:
        ctx.check(near.mean() >= 0.95, 'draws', same=near.mean())


def case_affine(ctx):
    """A full linear mixing of the parameters (scalar bandwidths only, no boundaries)."""
    rng = ctx.rng
    dim = gen.pick(rng, [2, 2, 3, 4])
    num = int(rng.integers(5 * dim, 60))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'line', 'lattice'])
    data = gen.dataset(rng, dim, num, style)
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww, 1e4):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww, ['default', 'scott', 'silverman', 'scalar', 'rescale', 'neff'])
    # orthogonal x scales x orthogonal
    qq = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    rr = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    aff = qq @ np.diag(rng.uniform(0.3, 3, size=dim)) @ rr
    shift = rng.normal(size=(dim, 1)) * 3
    other = aff @ data + shift
    if not gen.well_conditioned(other, ww, 1e4):
        raise Skip
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, bandwidth=bkind, weighted=ww is not None, first=float(data[0, 0]))
    ctx.state('affine', kernel, dim, bkind)
    pts = c10.good_points(ctx, data, mat, kernel, None)
    if not pts.shape[1]:
        raise Skip
    aa = kale.KDE(data, weights=ww, kernel=kernel, **kw)
    bb = kale.KDE(other, weights=ww, kernel=kernel, **kw)
    same(ctx, np.asarray(bb.density(aff @ pts + shift)[1]) * abs(np.linalg.det(aff)), aa.density(pts)[1], 'affine-density', rtol=1e-6, floor=1e-9)


def case_far(ctx):
    """Origin far away: values are multiples of a small power of two, so the shifted values are exact, and what remains is the
    conditioning of the calculation itself."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 2, 3])
    num = int(rng.integers(5 * dim, 50))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'lattice', 'ints'])
    quant = lambda xx: np.round(np.asarray(xx) * 1024) / 1024      # noqa
    data = quant(gen.dataset(rng, dim, num, style))
    ww = gen.weights(rng, num)
    if not gen.well_conditioned(data, ww, 1e3):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww)
    reflect = None
    if rng.random() < 0.4:
        reflect = c03.bounds_for(rng, data)
        reflect = [None if rr is None else [None if xx is None else float(quant(xx + sg * 0.01)) for xx, sg in zip(rr, (-1, 1))]
                   for rr in reflect]
    power = int(rng.integers(12, 25))
    shift = rng.integers(-4, 5, size=dim) * 2.0**power
    if not shift.any():
        shift[0] = 2.0**power
    other = data + shift[:, None]
    if not np.array_equal(other - shift[:, None], data):
        raise Skip
    refl2 = map_bounds(reflect, np.ones(dim), np.ones(dim), shift)
    ctx.note(dim=dim, num=num, data=style, kernel=kernel, bandwidth=bkind, power=power, shift=shift, reflect=reflect, weighted=ww is not None)
    ctx.state('far', kernel, dim, bkind, power, reflect is not None)
    # error of whitened coordinates
    loss = 2.3e-16 * np.abs(other).max() / np.sqrt(np.linalg.eigvalsh(mat)[0]) * 20 * dim
    if loss > 3e-5:
        raise Skip
    pts = quant(c10.good_points(ctx, data, mat, kernel, reflect))
    if not pts.shape[1]:
        raise Skip
    refl = [None] * dim if reflect is None else reflect
    _, good = ref.kde_density(pts, data, mat, kernel, None, reflect=refl, edge=20 * loss + 1e-5)
    for dd, rr in enumerate(refl):
        for loc in (rr or []):
            if loc is not None:
                good &= pts[dd] != loc
    pts = pts[:, good] if kernel != 'gaussian' else pts
    if not pts.shape[1]:
        raise Skip
    aa = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw)
    bb = kale.KDE(other, weights=ww, kernel=kernel, reflect=refl2, **kw)
    tol = dict(rtol=1e-8 + 20 * loss, floor=1e-10 + 20 * loss)
    same(ctx, bb.density(pts + shift[:, None])[1], aa.density(pts)[1], 'far-density', **tol)
    same(ctx, bb.kernel.matrix, aa.kernel.matrix, 'far-matrix', rtol=1e-6, floor=1e-7)
    if dim > 1:
        par = [int(rng.integers(dim))]
        sub = pts[par]
        if kernel == 'gaussian':
            same(ctx, bb.density(sub + shift[par][:, None], params=par)[1], aa.density(sub, params=par)[1], 'far-projected', **tol)
    elif rng.random() < 0.5:
        ctx.close(bb.cdf((pts + shift[:, None])[0]), aa.cdf(pts[0]), 'cdf', rtol=0, atol=1e-2 if kernel == 'gaussian' else 4e-2)
    size = 50
    keep = int(rng.integers(dim)) if (reflect is None and dim > 1 and rng.random() < 0.3) else None
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    s1 = np.atleast_2d(aa.resample(size, keep=keep))
    np.random.seed(seed)
    s2 = np.atleast_2d(bb.resample(size, keep=keep)) - shift[:, None]
    if dim == 1 or 'covariance' in kw or bkind in ('vector', 'diagonal'):
        near = (np.abs(s2 - s1) <= (1e-7 + 20 * loss) * np.ptp(data)).all(axis=0)
        ctx.check(near.mean() > 0.9 or dim > 1, 'far-draws', same=near.mean())


KINDS = {
    'far': (case_far, 200, 5000),
    'scale': (case_scale, 240, 5000),
    'draws': (case_draws, 100, 1500),
    'affine': (case_affine, 120, 2500),
}
