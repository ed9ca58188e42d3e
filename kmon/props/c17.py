"""C17: weighted quantiles, ranges and extrema of data."""
import numpy as np
import scipy.stats
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip

RULE = ("random values (ties, constants, ints, offsets), weights, probabilities and axes; quantiles are compared with the weighted empirical "
        "distribution (between its bracketing values), with exact symmetric cases, and metamorphically; extrema with their definition")
ASSUMPTIONS = ["quantiles interpolate between neighbouring values: bounded by the values whose cumulative weights bracket the probability"]
MIN_VERDICTS = {'bracket': 200, 'monotone': 200, 'minmax': 150, 'axis': 60}


def values(rng, num):
    what = gen.pick(rng, ['normal', 'ties', 'ints', 'constant', 'offset', 'sorted', 'huge'])
    if what == 'normal':
        xx = rng.normal(size=num)
    elif what == 'ties':
        xx = rng.integers(0, 5, size=num).astype(float)
    elif what == 'ints':
        xx = rng.integers(-50, 50, size=num)
    elif what == 'constant':
        xx = np.full(num, 2.5)
    elif what == 'offset':
        xx = rng.normal(size=num) + 1e4
    elif what == 'sorted':
        xx = np.sort(rng.lognormal(size=num))
    else:
        xx = rng.normal(size=num) * 1e12
    return xx, what


def probs(rng):
    pp = gen.pick(rng, [[0.5], [0.0, 1.0], [0.25, 0.75], [0.1, 0.9, 0.5], 'rand', 'grid'])
    if pp == 'rand':
        return rng.random(size=int(rng.integers(1, 9)))
    if pp == 'grid':
        return np.linspace(0, 1, 11)
    return pp


def bracket(xx, ww, pp):
    """Values that bracket the weighted `pp` quantile."""
    xx = np.asarray(xx, dtype=float)
    ww = np.ones(xx.size) if ww is None else np.asarray(ww, dtype=float)
    xs = np.unique(xx[ww > 0])
    cum = np.cumsum([ww[xx == vv].sum() for vv in xs]) / ww.sum()
    # the value that contains this probability, and its neighbours
    lo = max(int(np.searchsorted(cum, pp - 1e-9)) - 1, 0)
    hi = min(int(np.searchsorted(cum, pp + 1e-9)) + 1, xs.size - 1)
    return xs[min(lo, xs.size - 1)], xs[hi]


def case_quantiles(ctx):
    rng = ctx.rng
    num = int(rng.integers(1, 60))
    xx, what = values(rng, num)
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    if ww is not None and num < 3:
        ww = np.ones(num)
    pp = probs(rng)
    ctx.note(num=num, values=what, weights=wstyle, percs=pp, first=float(xx[0]))
    ctx.state(what, wstyle, np.size(pp))
    before = np.array(xx)
    wbefore = None if ww is None else ww.copy()
    gx = xx.tolist() if rng.random() < 0.3 else xx
    gw = ww if (ww is None or rng.random() < 0.7) else ww.tolist()
    got = utils.quantiles(gx, percs=pp, weights=gw)
    if not ctx.check(np.shape(got) == np.shape(pp), 'shape', got=np.shape(got), want=np.shape(pp)):
        return
    tol = 1e-9 * (np.abs(xx).max() + 1e-300)
    low, top = np.inf, -np.inf
    for qq, gg in zip(np.atleast_1d(pp), np.atleast_1d(got)):
        lo, hi = bracket(xx, ww, qq)
        ctx.check(lo - tol <= gg <= hi + tol, 'bracket', perc=qq, got=gg, lo=lo, hi=hi)
    order = np.argsort(pp)
    ctx.check(np.all(np.diff(np.asarray(got)[order]) >= -tol), 'monotone', got=got)
    # scalar probability, sigmas
    one = float(np.atleast_1d(pp)[0])
    ctx.close(utils.quantiles(gx, percs=one, weights=gw), np.asarray(got)[0], 'scalar', rtol=1e-12, atol=tol)
    sig = rng.normal(size=3)
    ctx.close(utils.quantiles(gx, sigmas=sig, weights=gw), utils.quantiles(gx, percs=scipy.stats.norm.cdf(sig), weights=gw), 'sigmas', rtol=1e-9, atol=tol)
    # order of the data; common factor of the weights; sorted input
    perm = rng.permutation(num)
    base = np.asarray(got)
    distinct = np.unique(xx).size == num
    ctx.close(utils.quantiles(np.asarray(xx)[perm], percs=pp, weights=None if ww is None else ww[perm]), base, 'permuted', rtol=1e-7, atol=1e-7 * np.ptp(xx) + tol)
    if ww is not None:
        ctx.close(utils.quantiles(xx, percs=pp, weights=ww * 37.5), base, 'weights-scaled', rtol=1e-7, atol=1e-7 * np.ptp(xx) + tol)
    else:
        ctx.close(utils.quantiles(xx, percs=pp, weights=np.full(num, 0.3)), base, 'weights-uniform', rtol=1e-7, atol=1e-7 * np.ptp(xx) + tol)
    srt = np.argsort(xx, kind='stable')
    ctx.close(utils.quantiles(np.asarray(xx)[srt], percs=pp, weights=None if ww is None else ww[srt], values_sorted=True), base, 'sorted',
              rtol=1e-7, atol=(1e-7 * np.ptp(xx) + tol) if (distinct or ww is None) else np.inf)
    # shift and scale
    ctx.close(utils.quantiles(np.asarray(xx, dtype=float) * 3.0 + 1.0, percs=pp, weights=ww), base * 3.0 + 1.0, 'shifted', rtol=1e-7, atol=1e-7 * np.ptp(xx) + 10 * tol)
    ctx.check(np.array_equal(before, xx) and (ww is None or np.array_equal(ww, wbefore)), 'input-unchanged')
    # exact: values at their mid-ranks
    if distinct:
        ws = np.ones(num) if ww is None else ww[srt]
        rank = (np.cumsum(ws) - 0.5 * ws) / ws.sum()
        ok = ws > 0
        ctx.close(utils.quantiles(xx, percs=rank[ok], weights=ww), np.sort(xx)[ok], 'mid-ranks', rtol=1e-7, atol=1e-7 * np.ptp(xx) + tol)
    # interquartile range
    q1, q3 = utils.quantiles(xx, percs=[0.25, 0.75], weights=ww)
    ctx.close(utils.iqrange(xx, weights=ww), q3 - q1, 'iqrange', rtol=1e-9, atol=tol)
    if np.all(np.asarray(xx) > 0):
        q1, q3 = utils.quantiles(np.log10(xx), percs=[0.25, 0.75], weights=ww)
        ctx.close(utils.iqrange(xx, log=True, weights=ww), q3 - q1, 'iqrange-log', rtol=1e-9, atol=1e-12)


def case_types(ctx):
    """Many values, of any type of numbers: the quantiles of the same numbers in double precision."""
    rng = ctx.rng
    num = int(gen.pick(rng, [50, 3000, 20000, 70000]))
    types = [np.float32, np.float16, np.int8, np.uint8, np.int16, np.uint16, np.int64, bool, '>f4', np.float64]
    vt, wt = types[int(rng.integers(len(types)))], [None] + types
    wt = wt[int(rng.integers(len(wt)))]

    def some(tt):
        vals = rng.normal(size=num) * 20 + 60
        if np.dtype(tt).kind == 'b':
            return vals > 70
        if np.dtype(tt).kind in 'iu':
            vals = np.clip(np.round(vals), 0, 127)
        return vals.astype(tt)
    xx = some(vt)
    ww = None if wt is None else np.abs(some(wt))
    pp = np.sort(rng.random(size=4))
    ctx.note(num=num, values=str(np.dtype(vt)), weights=str(wt and np.dtype(wt)), percs=pp, first=float(xx[0]))
    ctx.state('types', np.dtype(vt).str, None if wt is None else np.dtype(wt).str)
    want = utils.quantiles(xx.astype(float), percs=pp, weights=None if ww is None else ww.astype(float))
    top = np.abs(xx.astype(float)).max()
    got = utils.quantiles(xx, percs=pp, weights=ww)
    ctx.close(got, want, 'types', rtol=1e-6, atol=1e-4 * top)
    for qq, gg in zip(pp, want):
        lo, hi = bracket(xx, ww, qq) if num <= 3000 else (gg, gg)
        ctx.check(lo - 1e-9 * top <= gg <= hi + 1e-9 * top, 'types-bracket', perc=qq, got=gg)
    ctx.close(utils.iqrange(xx, weights=ww), np.subtract(*utils.quantiles(xx.astype(float), percs=[0.75, 0.25], weights=None if ww is None else ww.astype(float))),
              'types-iqrange', rtol=1e-6, atol=1e-4 * top)
    ctx.close(utils.minmax(xx), [xx.astype(float).min(), xx.astype(float).max()], 'types-minmax', rtol=1e-12)


def case_axis(ctx):
    rng = ctx.rng
    shape = tuple(int(nn) for nn in rng.integers(1, 8, size=2))
    xx = rng.normal(size=shape) if rng.random() < 0.6 else rng.integers(0, 9, size=shape)
    ww = rng.uniform(0.1, 1, size=shape) if rng.random() < 0.6 else None
    axis = int(rng.integers(-2, 2))
    pp = np.sort(rng.random(size=int(rng.integers(1, 5))))
    ctx.note(shape=shape, axis=axis, weighted=ww is not None, first=float(xx.flat[0]))
    ctx.state('axis', axis, ww is not None)
    got = utils.quantiles(xx, percs=pp, weights=ww, axis=axis)
    rows = np.moveaxis(xx, axis, -1)
    wrow = None if ww is None else np.moveaxis(ww, axis, -1)
    want = np.array([utils.quantiles(rr, percs=pp, weights=None if ww is None else wrow[ii]) for ii, rr in enumerate(rows)])
    ctx.close(got, want, 'axis', rtol=1e-10, atol=1e-12)
    flat = utils.quantiles(xx, percs=pp) if ww is None else utils.quantiles(xx.ravel(), percs=pp, weights=ww.ravel())
    ctx.close(flat, utils.quantiles(xx.ravel(), percs=pp, weights=None if ww is None else ww.ravel()), 'flattened', rtol=1e-10, atol=1e-12)
    for bad in ([-0.1], [1.1], [0.5, 2.0]):
        ctx.raises(lambda: utils.quantiles(xx.ravel(), percs=bad), 'refused', (Exception,))
    ctx.raises(lambda: utils.quantiles(xx.ravel()), 'refused', (ValueError,))


def case_minmax(ctx):
    rng = ctx.rng
    num = int(rng.integers(1, 40))
    xx, what = values(rng, num)
    if rng.random() < 0.3:
        xx = np.abs(xx) + 1
    positive = rng.random() < 0.3
    stretch = log_stretch = None
    how = gen.pick(rng, ['none', 'stretch', 'pair', 'log', 'logpair'])
    sel = np.asarray(xx, dtype=float)
    if positive:
        sel = sel[sel > 0]
    if 'log' in how and (sel.size == 0 or sel.min() <= 0):
        how = 'none'
    fac = np.array([rng.uniform(-0.4, 2)] * 2)
    if how in ('pair', 'logpair'):
        fac = rng.uniform(-0.4, 2, size=2)
    if how in ('stretch', 'pair'):
        stretch = float(fac[0]) if how == 'stretch' else gen.pick(rng, [fac, list(fac), tuple(fac)])
    if how in ('log', 'logpair'):
        log_stretch = float(fac[0]) if how == 'log' else list(fac)

    def pair(allow=True):
        if rng.random() < 0.5:
            return None
        lo, hi = np.sort(rng.normal(size=2) * (np.abs(xx).max() + 1))
        if rng.random() < 0.35:
            # (zero is a limit like any other)
            lo, hi = gen.pick(rng, [(0.0, max(hi, 0.0)), (min(lo, 0.0), 0.0), (0, 0), (hi, hi), (lo, lo)])
        return gen.pick(rng, [[lo, hi], (lo, hi), np.array([lo, hi]), [None, hi], [lo, None]])
    prev, limit = pair(), pair()
    ctx.note(num=num, values=what, how=how, positive=positive, prev=prev, limit=limit, first=float(xx[0]))
    ctx.state(what, how, positive, prev is not None, limit is not None)
    before = np.array(xx)
    pbefore = None if prev is None else list(prev)
    gx = xx.tolist() if rng.random() < 0.4 else xx
    got = utils.minmax(gx, positive=positive, prev=prev, stretch=stretch, log_stretch=log_stretch, limit=limit)
    if sel.size == 0:
        ctx.check(got is prev or (got is not None and prev is not None and list(got) == list(prev)), 'minmax-empty', got=got, prev=prev)
        return
    lo, hi = sel.min(), sel.max()
    if stretch is not None:
        cc = 0.5 * (lo + hi)
        lo, hi = cc - (1 + fac[0]) * (cc - lo), cc + (1 + fac[1]) * (hi - cc)
    if log_stretch is not None:
        lo, hi = np.log10(lo), np.log10(hi)
        cc = 0.5 * (lo + hi)
        lo, hi = 10**(cc - (1 + fac[0]) * (cc - lo)), 10**(cc + (1 + fac[1]) * (hi - cc))
    if prev is not None:
        lo = lo if prev[0] is None else min(lo, prev[0])
        hi = hi if prev[1] is None else max(hi, prev[1])
    if limit is not None:
        lo = lo if limit[0] is None else max(lo, limit[0])
        hi = hi if limit[1] is None else min(hi, limit[1])
    top = np.abs(np.asarray(xx, dtype=float)).max()
    ctx.close(got, [lo, hi], 'minmax', rtol=1e-9, atol=1e-12 * top, how=how)
    ctx.check(np.array_equal(before, xx) and (prev is None or list(prev) == pbefore), 'input-unchanged')


def case_accumulate(ctx):
    """Feeding data in pieces (prev) gives the extrema of all data, in any order."""
    rng = ctx.rng
    parts = [values(rng, int(rng.integers(0, 12)))[0] for _ in range(int(rng.integers(2, 6)))]
    parts = [pp for pp in parts if len(pp) or rng.random() < 0.5]
    whole = np.concatenate([np.asarray(pp, dtype=float) for pp in parts]) if parts else np.zeros(0)
    if whole.size == 0:
        raise Skip
    positive = rng.random() < 0.3
    if positive and not np.any(whole > 0):
        raise Skip
    ctx.note(sizes=[len(pp) for pp in parts], positive=positive, first=float(whole[0]))
    ctx.state('accumulate', len(parts), positive)
    sel = whole[whole > 0] if positive else whole
    for order in (range(len(parts)), rng.permutation(len(parts))):
        ext = None
        for ii in order:
            ext = utils.minmax(parts[ii], prev=ext, positive=positive)
        ctx.close(ext, [sel.min(), sel.max()], 'accumulated', rtol=1e-12)


def case_strings(ctx):
    """Printed statistics are the quantiles of the data."""
    import re
    rng = ctx.rng
    num = int(rng.integers(3, 60))
    xx = rng.normal(size=num) * 10 + 50
    ww = rng.uniform(0.1, 1, size=num) if rng.random() < 0.5 else None
    pp = np.sort(rng.random(size=3))
    ctx.note(num=num, weighted=ww is not None, first=float(xx[0]))
    ctx.state('strings', ww is not None)
    text = utils.stats_str(xx, percs=pp, weights=ww, format=':.9f')
    inner = text[text.index('(') + 1:text.index(')')]
    ctx.close([float(vv) for vv in inner.split(',')], utils.quantiles(xx, percs=pp, weights=ww), 'printed-quantiles', rtol=1e-8, atol=1e-8)
    text = utils.stats_str(xx, percs=pp, ave=True, std=True, format='.9f')
    found = [float(vv) for vv in re.findall(r'(?:ave|std) = ([-+0-9.e]+)', text)]
    ctx.close(found, [xx.mean(), xx.std()], 'printed-moments', rtol=1e-7, atol=1e-8)
    text = utils.stats_str(xx, percs=pp, log=True, format=':.9f')
    inner = text[text.index('(') + 1:text.index(')')]
    ctx.close([float(vv) for vv in inner.split(',')], utils.quantiles(np.log10(xx), percs=pp), 'printed-log', rtol=1e-8, atol=1e-8)
    text = utils.array_str(xx, num=2, format=':.9f')
    found = [float(vv) for vv in re.findall(r'[-+]?[0-9]+\.[0-9]+', text)]
    if num > 6:
        ctx.close(found, np.concatenate([xx[:2], xx[-2:]]), 'printed-array', rtol=1e-8, atol=1e-8)


KINDS = {
    'quantiles': (case_quantiles, 500, 10000),
    'types': (case_types, 60, 1000),
    'axis': (case_axis, 120, 2000),
    'minmax': (case_minmax, 500, 6000),
    'accumulate': (case_accumulate, 80, 1500),
    'strings': (case_strings, 40, 500),
}
