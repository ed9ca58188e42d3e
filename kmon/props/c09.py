"""C09: kept parameters take original values of one datum, the others are still smoothed."""
import numpy as np
import kalepy as kale

from .. import gen, ref, stat
from ..core import Skip

RULE = ("random multi-dimensional KDEs resampled with every spelling of `keep`, with weights and boundaries; each draw is matched "
        "to the datum its kept values come from, and its other coordinates tested against that datum's kernel")
ASSUMPTIONS = ["data values are distinct, so that each kept value identifies its datum", "statistical verdicts use p < 1e-10"]
MIN_VERDICTS = {'kept-from-data': 60, 'other-smoothed': 40, 'kept-weights': 60}


def case_keep(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 2, 3, 4])
    num = int(rng.integers(5 * dim, 40))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'uniform', 'lognormal', 'mixed', 'line', 'huge']))
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    if not gen.well_conditioned(data, ww):
        raise Skip
    kernel = gen.pick(rng, ref.KERNELS)
    kw, mat, bkind = gen.smoothing(rng, dim, data, ww, ['default', 'scalar', 'vector', 'cov', 'diagonal'])
    nkeep = int(rng.integers(1, dim + 1))
    keep = np.sort(rng.permutation(dim)[:nkeep])
    spell = gen.pick(rng, ['list', 'array', 'tuple', 'int', 'true', 'perm', 'last', 'last'])
    if spell == 'int':
        keep = keep[:1]
        given = int(keep[0])
    elif spell == 'true':
        keep = np.arange(dim)
        given = True
    elif spell == 'last':
        # counted from the last one
        given = [int(kk) - dim for kk in keep]
        given = given[0] if (keep.size == 1 and rng.random() < 0.5) else (given if rng.random() < 0.5 else np.array(given))
    elif spell == 'perm':
        given = rng.permutation(keep).tolist()
    else:
        given = dict(list=list, array=np.array, tuple=tuple)[spell]([int(kk) for kk in keep])
    others = [dd for dd in range(dim) if dd not in keep]
    if rng.random() < 0.25:
        # far from the origin: kept values must not lose digits
        data = data + rng.uniform(-1, 1, size=(dim, 1)) * np.ptp(data, axis=1, keepdims=True) * 10.0**rng.integers(1, 5)
        if any(np.unique(dd).size < num for dd in data):
            raise Skip
    reflect = None
    if others and rng.random() < 0.4:
        reflect = [None] * dim
        for dd in others:
            if rng.random() < 0.7:
                reflect[dd] = [data[dd].min() - 0.01 * np.ptp(data[dd]), None] if rng.random() < 0.5 else [None, data[dd].max()]
        if all(rr is None for rr in reflect):
            reflect = None
    ctx.note(dim=dim, num=num, keep=keep.tolist(), spell=spell, kernel=kernel, weights=wstyle, bandwidth=bkind, reflect=reflect)
    ctx.state(kernel, dim, keep.size, spell, reflect is not None)
    size = 8000
    if rng.random() < 0.3:
        samp = kale.resample(data, size=size, weights=ww, kernel=kernel, keep=given, reflect=reflect, **kw)
    else:
        samp = kale.KDE(data, weights=ww, kernel=kernel, reflect=reflect, **kw).resample(size, keep=given)
    samp = np.atleast_2d(samp)
    if not ctx.check(samp.shape == (dim, size), 'shape', got=samp.shape):
        return
    # the datum of each draw, from the first kept parameter
    k0 = keep[0]
    order = np.argsort(data[k0])
    pos = np.clip(np.searchsorted(data[k0][order], samp[k0]), 0, num - 1)
    which = order[pos]
    alt = order[np.clip(pos - 1, 0, num - 1)]
    which = np.where(np.abs(data[k0][which] - samp[k0]) <= np.abs(data[k0][alt] - samp[k0]), which, alt)
    for kk in keep:
        diff = samp[kk] != data[kk][which]
        ctx.check(not diff.any(), 'kept-from-data', keep=keep, param=int(kk), nbad=int(diff.sum()),
                  worst=np.max(np.abs(samp[kk] - data[kk][which])))
    prob = np.full(num, 1.0 / num) if ww is None else ww / ww.sum()
    stat.chi2_counts(ctx, np.bincount(which, minlength=num), prob * size, 'kept-weights', weights=wstyle)
    fcdf = stat.marginal_cdf(kernel, dim)
    for dd in others:
        sig = np.sqrt(mat[dd, dd])
        if reflect is None or reflect[dd] is None:
            stat.ks(ctx, (samp[dd] - data[dd][which]) / sig, fcdf, 'other-smoothed', kernel=kernel, dim=dim)
        else:
            lo, hi = reflect[dd]
            ok = np.all(samp[dd] >= lo) if hi is None else np.all(samp[dd] <= hi)
            ctx.check(ok, 'other-inside', bounds=reflect[dd])
            # folded displacement: probability integral transform per datum
            cc = data[dd][which]
            if hi is None:
                uu = fcdf((samp[dd] - cc) / sig) - fcdf((2 * lo - samp[dd] - cc) / sig)
            else:
                uu = fcdf((samp[dd] - cc) / sig) + 1 - fcdf((2 * hi - samp[dd] - cc) / sig)
            stat.ks(ctx, uu, lambda tt: np.clip(tt, 0, 1), 'other-smoothed-reflected', kernel=kernel, dim=dim)
    # the smoothed coordinates keep their covariance among themselves
    if len(others) >= 2 and reflect is None:
        sub = np.ix_(others, others)
        white = np.linalg.solve(np.linalg.cholesky(mat[sub]), (samp - data[:, which])[others])
        for _ in range(2):
            vv = rng.normal(size=len(others))
            stat.ks(ctx, vv @ white / np.linalg.norm(vv), fcdf, 'other-covariance', kernel=kernel, dim=dim)


def case_none(ctx):
    """Nothing kept: no draw repeats an original value."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    data = gen.dataset(rng, dim, 30, 'normal')
    kernel = gen.pick(rng, ref.KERNELS)
    kde = kale.KDE(data, kernel=kernel, bandwidth=0.5)
    given = gen.pick(rng, [None, False, []])
    ctx.note(dim=dim, keep=given, kernel=kernel, first=float(data[0, 0]))
    ctx.state('none', str(given), dim)
    samp = np.atleast_2d(kde.resample(2000, keep=given))
    for dd in range(dim):
        ctx.check(not np.isin(samp[dd], data[dd]).any(), 'nothing-kept', keep=given)


def case_conflict(ctx):
    """A parameter cannot be both kept and reflected."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3])
    data = gen.dataset(rng, dim, 30, 'normal')
    dd = int(rng.integers(dim))
    reflect = [None] * dim
    reflect[dd] = gen.pick(rng, [[data[dd].min() - 1, None], [None, data[dd].max() + 1], [data[dd].min() - 1, data[dd].max() + 1]])
    kde = kale.KDE(data, bandwidth=0.5, reflect=reflect)
    keep = gen.pick(rng, [dd, [dd], True])
    ctx.note(dim=dim, keep=keep, reflect=reflect)
    ctx.state('conflict', dim)
    ctx.raises(lambda: kde.resample(10, keep=keep), 'kept-and-reflected', (ValueError,))
    kde.resample(10, keep=keep, reflect=False)


KINDS = {
    'keep': (case_keep, 200, 2500),
    'none': (case_none, 20, 150),
    'conflict': (case_conflict, 20, 150),
}
