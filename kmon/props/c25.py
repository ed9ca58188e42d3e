"""C25: the array helpers do exactly what their descriptions say."""
import numbers

import numpy as np
from kalepy import utils

from .. import gen

RULE = ("random arrays (nested and jagged lists of any depth, 1-4 dimensions, int / float / huge / tiny, views and lists, unsorted and repeated values) given to each helper, compared with "
        "element-by-element definitions in plain Python, and with the inverse operation")
ASSUMPTIONS = ["values exactly at a bound may count as inside or outside", "booleans are neither integers nor floats here (unspecified)",
               "agreement to a few rounding errors of the magnitudes involved"]
MIN_VERDICTS = {'bounds-inside': 80, 'bounds-outside': 80, 'subdivided': 80, 'spaced-ends': 60, 'mesh': 40, 'flat-values': 80, 'shape-jagged': 25, 'is-jagged': 80,
                'integer': 80, 'whitened': 40, 'inverse': 40, 'colored': 40, 'keep': 40}


def close(ctx, got, want, key, scale=None, **kw):
    want = np.asarray(want, dtype=float)
    size = float(np.max(np.abs(want))) if want.size else 1.0
    ctx.close(got, want, key, rtol=1e-11, atol=1e-12 * (size if scale is None else scale), **kw)


# ---- selection by bounds

def case_bounds(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 5))
    num = int(rng.integers(1, 80))
    ints = rng.random() < 0.3
    data = rng.integers(-9, 10, size=(dim, num)) if ints else gen.dataset(rng, dim, max(num, 4), gen.pick(rng, ['normal', 'tiny', 'huge', 'offset']))
    num = data.shape[1]
    bounds = []
    zero = rng.random() < 0.4
    if zero:
        data = data - np.round(data[:, rng.integers(num)][:, None]) if ints else data - data[:, rng.integers(num)][:, None] * rng.uniform(0.9, 1.1)
    for dd in data:
        lo, hi = np.sort(rng.uniform(dd.min() - 0.2 * np.ptp(dd) - 0.1, dd.max() + 0.2 * np.ptp(dd) + 0.1, size=2))
        if zero:
            # a bound at zero is a bound
            lo, hi = [(0.0, hi), (lo, 0.0), (0, abs(hi) + 0.1), (-abs(lo) - 0.1, -0.0)][int(rng.integers(4))]
            lo, hi = min(lo, hi), max(lo, hi)
        how = int(rng.integers(6))
        bounds.append([None, [lo, hi], [None, hi], [lo, None], [None, None], [lo, hi]][how])
    flat = dim == 1 and rng.random() < 0.5
    arg = data[0] if flat else data
    arg, lay = gen.represent(rng, arg)
    spell = bounds
    if dim == 1 and rng.random() < 0.5:
        spell = bounds[0]
    elif all(bb is not None and None not in bb for bb in bounds) and rng.random() < 0.7:
        spell = np.array(bounds)
    elif rng.random() < 0.3:
        spell = tuple(None if bb is None else tuple(bb) for bb in bounds)
    ctx.note(dim=dim, num=num, ints=ints, layout=lay, bounds=bounds)
    ctx.state('bounds', dim, '/'.join('-' if bb is None else ''.join('n' if b is None else 'b' for b in bb) for bb in bounds))
    inside = np.ones(num, dtype=bool)
    outside = np.zeros(num, dtype=bool)
    tie = np.zeros(num, dtype=bool)
    for ii in range(num):
        for dd in range(dim):
            lo, hi = (None, None) if bounds[dd] is None else bounds[dd]
            xx = float(data[dd][ii])
            if (lo is not None and xx == float(lo)) or (hi is not None and xx == float(hi)):
                tie[ii] = True
            if (lo is not None and xx < lo) or (hi is not None and xx > hi):
                inside[ii] = False
                outside[ii] = True
    got = utils.bound_indices(arg, spell)
    ctx.check(np.shape(got) == (num,) and np.asarray(got).dtype == bool, 'bounds-shape', shape=np.shape(got))
    ctx.check(np.array_equal(np.asarray(got)[~tie], inside[~tie]), 'bounds-inside', got=got, want=inside)
    out = utils.bound_indices(arg, spell, outside=True)
    ctx.check(np.shape(out) == (num,) and np.asarray(out).dtype == bool, 'bounds-shape', shape=np.shape(out))
    ctx.check(np.array_equal(np.asarray(out)[~tie], outside[~tie]), 'bounds-outside', got=out, want=outside)
    ctx.check(not np.any(np.asarray(got) & np.asarray(out)), 'bounds-exclusive', inside=got, outside=out)


# ---- subdividing and spacing

def case_subdivide(ctx):
    rng = ctx.rng
    log = rng.random() < 0.4
    num = int(rng.integers(1, 12))
    size = int(rng.integers(2, 20))
    if log:
        xx = 10.0**np.cumsum(rng.uniform(0.01, 1.5, size=size)) * 10.0**rng.uniform(-8, 3)
    else:
        xx = gen.pick(rng, [np.cumsum(rng.uniform(0.01, 3, size=size)) + rng.uniform(-50, 50), np.linspace(0, 1, size), np.arange(size), np.sort(rng.integers(-9, 9, size=size)), np.sort(rng.normal(size=size)) * 1e-9])
    down = rng.random() < 0.25
    if down:
        xx = xx[::-1]
    arg, lay = gen.represent(rng, xx)
    div = utils.subdivide(arg, num, log=log) if (num != 1 or rng.random() < 0.5) else utils.subdivide(arg, log=log)
    ctx.note(size=size, num=num, log=log, down=down, first=float(xx[0]), layout=lay)
    ctx.state('subdivide', 'log' if log else 'lin', min(num, 3), 'down' if down else 'up')
    want = []
    for aa, bb in zip(xx[:-1], xx[1:]):
        for kk in range(num + 1):
            frac = kk / (num + 1)
            want.append(float(aa) * (float(bb) / float(aa))**frac if log else float(aa) + (float(bb) - float(aa)) * frac)
    want.append(float(xx[-1]))
    want = np.array(want)
    ctx.check(np.shape(div) == ((size - 1) * (num + 1) + 1,), 'subdivided-number', got=np.shape(div), size=size, num=num)
    if log:
        ctx.close(div, want, 'subdivided', rtol=1e-11)
    else:
        close(ctx, div, want, 'subdivided')
    if np.shape(div) == want.shape:
        ctx.close(np.asarray(div)[::num + 1], xx, 'original-edges', rtol=1e-12)
        sgn = -1 if down else 1
        ctx.check(np.all(sgn * np.diff(div) >= 0), 'subdivided-order')


def case_spacing(ctx):
    rng = ctx.rng
    scale = gen.pick(rng, ['log', 'lin', 'linear', 'logarithmic'])
    log = scale.startswith('log')
    size = int(rng.integers(2, 40))
    data = 10.0**rng.uniform(-5, 5, size=size) if log else rng.normal(size=size) * 10.0**rng.uniform(-3, 3)
    shape2 = rng.random() < 0.2 and size % 2 == 0
    arg = data.reshape(2, -1) if shape2 else gen.represent(rng, data)[0]
    if np.ptp(data) == 0:
        data[0] *= 2
    num = None if rng.random() < 0.4 else int(rng.integers(2, 60))
    dex = int(rng.integers(1, 25))
    kw = {}
    if num is not None:
        kw['num'] = num
    elif rng.random() < 0.7:
        kw['dex'] = dex
    else:
        dex = 10
    lo, hi = float(data.min()), float(data.max())
    ctx.note(scale=scale, num=num, dex=dex, lo=lo, hi=hi, size=size)
    ctx.state('spacing', scale, 'num' if num else 'auto')
    if log and rng.random() < 0.3:
        # nonpositive values are left out on request
        arg = np.append(np.ravel(arg), [-1.0, 0.0])
        kw['positive'] = True
    if rng.random() < 0.3 and scale in ('log',):
        got = utils.spacing(arg, **kw)
    else:
        got = utils.spacing(arg, scale, **kw)
    ctx.close([got[0], got[-1]], [lo, hi], 'spaced-ends', rtol=1e-11, atol=1e-12 * max(abs(lo), abs(hi)) * (not log))
    if num is not None:
        ctx.check(len(got) == num, 'spaced-number', got=len(got), num=num)
    elif log:
        ndex = np.log10(hi / lo)
        # at least `dex` points per decade, and no more than needed
        ctx.check(np.ceil(ndex * dex - 1e-9) + 1 <= len(got) <= np.ceil(ndex * dex + 1e-9) + 1, 'spaced-number', got=len(got), decades=ndex, dex=dex)
    if len(got) > 1:
        nn = len(got)
        want = lo * (hi / lo)**(np.arange(nn) / (nn - 1)) if log else lo + (hi - lo) * np.arange(nn) / (nn - 1)
        ctx.close(got, want, 'evenly-spaced', rtol=1e-10, atol=0.0 if log else 1e-12 * max(abs(lo), abs(hi)))
    xe, xc, dx = utils.bins(lo, hi, max(nn, 2))
    close(ctx, xc, 0.5 * (xe[1:] + xe[:-1]), 'bin-centres')
    close(ctx, dx, xe[1:] - xe[:-1], 'bin-widths')


def case_mesh(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 5))
    axes = [rng.normal(size=int(rng.integers(1, 7))) for _ in range(dim)]
    args = [ax if rng.random() < 0.6 else ax.tolist() for ax in axes]
    shape = tuple(len(ax) for ax in axes)
    ctx.note(shape=shape)
    ctx.state('mesh', dim)
    got = utils.meshgrid(*args)
    ctx.check(len(got) == dim and all(np.shape(gg) == shape for gg in got), 'mesh-shape', got=[np.shape(gg) for gg in got], want=shape)
    for _ in range(6):
        pos = tuple(int(rng.integers(ss)) for ss in shape)
        ctx.check(all(got[dd][pos] == axes[dd][pos[dd]] for dd in range(dim)), 'mesh', position=pos)
    for dd in range(dim):
        want = np.broadcast_to(axes[dd].reshape([-1 if ii == dd else 1 for ii in range(dim)]), shape)
        ctx.check(np.array_equal(got[dd], want), 'mesh', axis=dd)


# ---- nested lists

def nested(rng, depth):
    """A random nested list of numbers: uniform or jagged."""
    if depth == 0:
        return float(rng.integers(-99, 99))
    num = int(rng.integers(1, 5))
    if rng.random() < 0.5:
        # uniform below
        shape = [num] + [int(rng.integers(1, 4)) for _ in range(depth - 1)]
        return rng.integers(-99, 99, size=shape).astype(float).tolist()
    return [nested(rng, depth - 1 if rng.random() < 0.8 else int(rng.integers(0, depth))) for _ in range(num)]


def uniform_shape(arr):
    """The shape of a nested list if it is uniform, otherwise None."""
    if not isinstance(arr, (list, tuple, np.ndarray)):
        return ()
    subs = [uniform_shape(aa) for aa in arr]
    if not subs:
        return (0,)
    if subs[0] is None or any(ss != subs[0] for ss in subs):
        return None
    return (len(arr),) + subs[0]


def leaves(arr):
    if not isinstance(arr, (list, tuple, np.ndarray)):
        return [float(arr)]
    out = []
    for aa in arr:
        out += leaves(aa)
    return out


def as_arrays(rng, arr):
    """The same nested values, with some of the uniform parts as arrays or tuples."""
    if not isinstance(arr, list):
        return arr
    shape = uniform_shape(arr)
    # (numpy merges arrays with a single element into the rows of object arrays)
    if shape is not None and min(shape) > 1 and rng.random() < 0.4:
        return np.array(arr)
    out = [as_arrays(rng, aa) for aa in arr]
    return tuple(out) if rng.random() < 0.2 else out


def expand_shape(sh):
    """All sizes named by a (possibly jagged) shape, as nested structure of the leaves' row lengths."""
    if all(isinstance(ss, (int, np.integer)) for ss in sh):
        return int(np.prod(sh)) if len(sh) else 1
    return sum(expand_shape(ss) for ss in sh[1])


def consistent_shape(sh, arr):
    """Does the shape reported describe the nested list, level by level?"""
    if all(isinstance(ss, (int, np.integer)) for ss in sh):
        return uniform_shape(arr) == tuple(sh)
    if len(sh) != 2 or not isinstance(arr, (list, tuple, np.ndarray)):
        return False
    outer, inner = sh
    return (len(outer) >= 1 and outer[0] == len(arr) == len(inner)
            and all(consistent_shape(ii, aa) for ii, aa in zip(inner, arr)))


def case_nested(ctx):
    rng = ctx.rng
    depth = int(rng.integers(1, 5))
    raw = nested(rng, depth)
    arr = as_arrays(rng, raw)
    shape = uniform_shape(raw)
    want = leaves(raw)
    ctx.note(depth=depth, shape=shape, leaves=want[:6], container=type(arr).__name__)
    ctx.state('nested', depth, 'uniform' if shape is not None else 'jagged')
    flat = utils.flatten(arr)
    ctx.check(np.ndim(flat) == 1 and np.array_equal(np.asarray(flat, dtype=float), want), 'flat-values', got=np.asarray(flat, dtype=object), want=want)
    ctx.check(int(utils.flatlen(arr)) == len(want), 'flat-length', got=utils.flatlen(arr), want=len(want))
    jag = utils.isjagged(arr)
    ctx.check(bool(jag) == (shape is None), 'is-jagged', got=jag, shape=shape, arr=raw)
    one = utils.really1d(arr)
    ctx.check(bool(one) == (shape is not None and len(shape) == 1), 'really-1d', got=one, shape=shape, arr=raw)
    sh = utils.jshape(arr)
    if shape is not None:
        ctx.check(tuple(sh) == shape, 'shape-uniform', got=sh, want=shape)
    else:
        ctx.check(consistent_shape(sh, raw), 'shape-jagged', got=sh, arr=raw)
    # flattening twice changes nothing
    ctx.check(np.array_equal(np.asarray(utils.flatten(flat), dtype=float), want), 'flat-twice')
    # scalars are neither
    val = float(rng.normal())
    ctx.check(not utils.isjagged(val) and not utils.really1d(val) and utils.flatlen(val) == 1 and utils.flatten(val) == val, 'scalars')
    ctx.check(bool(utils.really1d([])) and utils.flatlen([]) == 0 and not utils.isjagged([]), 'empty')


def case_integers(ctx):
    rng = ctx.rng
    ints = [int(rng.integers(-5, 5)), 2**70, np.int8(3), np.uint16(9), np.int64(-4)]
    ints = [ii for ii in ints if ii != 2**70]
    floats = [float(rng.normal()), 3.0, np.float32(2), 1e300, np.nan, np.inf]
    others = ['a', '3', None, 1j, {}, object()]
    ctx.note(value=ints[0])
    for vv in ints:
        for it in (True, False):
            ctx.check(utils.isinteger(vv, iterable=it) is True, 'integer', value=repr(vv), iterable=it)
        ctx.check(isinstance(vv, numbers.Integral), 'integer')
    for vv in floats + others:
        for it in (True, False):
            ctx.check(not utils.isinteger(vv, iterable=it), 'not-integer', value=repr(vv), iterable=it)
    nn = int(rng.integers(1, 6))
    arr = rng.integers(-9, 9, size=nn)
    for seq in (arr, arr.tolist(), tuple(arr.tolist()), arr.astype(np.int16), arr.reshape(1, -1), np.uint8(np.abs(arr))):
        ctx.check(bool(utils.isinteger(seq)), 'integer', value=repr(seq))
        ctx.check(not utils.isinteger(seq, iterable=False), 'not-integer', value=repr(seq), iterable=False)
    mix = arr.tolist()
    mix.insert(int(rng.integers(nn + 1)), float(rng.normal()))
    for seq in (mix, arr.astype(float), arr.astype(float).tolist(), [str(aa) for aa in arr], arr * 1j):
        ctx.check(not utils.isinteger(seq), 'not-integer', value=repr(seq))


# ---- covariances

def case_covariance(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 6))
    num = int(rng.integers(dim + 3, 80))
    sd = 10.0**rng.uniform(-2, 2, size=dim)
    cov = gen.random_corr(rng, dim) * np.outer(sd, sd)
    data = rng.normal(size=(dim, num))
    arg, lay = gen.represent(rng, data)
    ctx.note(dim=dim, num=num, sd=sd, layout=lay)
    ctx.state('covariance', dim)
    col = utils.add_cov(arg, cov if rng.random() < 0.5 else cov.tolist())
    ctx.check(np.shape(col) == (dim, num), 'colored-shape')
    # data with unit covariance get exactly the given one
    white = data - data.mean(axis=1, keepdims=True)
    white = np.linalg.solve(np.linalg.cholesky(np.atleast_2d(np.cov(white))), white)
    got = np.atleast_2d(np.cov(utils.add_cov(white, cov)))
    ctx.close(got / np.outer(sd, sd), cov / np.outer(sd, sd), 'colored', rtol=1e-8, atol=1e-9)
    # it is linear in the data
    two = utils.add_cov(2.5 * data, cov)
    ctx.close(two / sd[:, None], 2.5 * np.asarray(col) / sd[:, None], 'linear', rtol=1e-9, atol=1e-10)
    # inverse operations
    back = utils.rem_cov(col, cov)
    ctx.close(back, data, 'inverse', rtol=1e-7, atol=1e-7)
    forth = utils.add_cov(utils.rem_cov(data, cov), cov)
    ctx.close(forth, data, 'inverse', rtol=1e-7, atol=1e-7)
    # without a covariance given, that of the data is removed
    raw = np.linalg.cholesky(cov) @ data
    wh = utils.rem_cov(raw)
    ctx.check(np.shape(wh) == (dim, num), 'whitened-shape')
    ctx.close(np.atleast_2d(np.cov(wh)), np.eye(dim), 'whitened', rtol=1e-6, atol=1e-6)
    # keeping parameters clears their rows and columns
    keep = gen.pick(rng, [None, False, True, int(rng.integers(dim)), [int(kk) for kk in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]])
    if keep is None or keep is False:
        ks = []
    elif keep is True:
        ks = list(range(dim))
    else:
        ks = list(np.atleast_1d(keep))
    want = cov.copy()
    for kk in ks:
        want[kk, :] = 0
        want[:, kk] = 0
    ctx.check(np.array_equal(utils.cov_keep_vars(cov, keep), want), 'keep', keep=keep)
    inv = utils.matrix_invert(cov)
    ctx.close(inv @ cov, np.eye(dim), 'matrix-inverse', rtol=1e-7, atol=1e-7)


# ---- text

def case_text(ctx):
    rng = ctx.rng
    size = int(rng.integers(1, 30))
    vals = rng.normal(size=size) * 10.0**rng.uniform(-3, 3)
    num = gen.pick(rng, [None, 1, 2, 3, 5])
    fmt = gen.pick(rng, [':.2e', ':.3f', ':.8e'])
    ctx.note(size=size, num=num, format=fmt)
    txt = utils.array_str(vals, num=num, format=fmt)
    spec = '{' + fmt + '}'
    nums = [tt.strip() for tt in txt.strip('[]').replace('...', ',').split(',')]
    if num is None or size <= 2 * num:
        want = [spec.format(vv) for vv in vals]
        ctx.check('...' not in txt, 'text-shortened', text=txt)
    else:
        want = [spec.format(vv) for vv in list(vals[:num]) + list(vals[-num:])]
        ctx.check('...' in txt, 'text-shortened', text=txt)
    ctx.check(nums == want, 'text-values', text=txt, want=want)
    # conditional calls
    got = utils.run_if_script(lambda aa, bb=0: ('yes', aa, bb), 3, bb=4)
    ctx.check(got == ('yes', 3, 4), 'run-if', got=got)
    got = utils.run_if_notebook(lambda aa: 'yes', 3, otherwise=lambda aa: ('no', aa))
    ctx.check(got == ('no', 3), 'run-if', got=got)
    ctx.check(utils.run_if_notebook(lambda aa: 'yes', 3) is None, 'run-if')


KINDS = {
    'bounds': (case_bounds, 150, 150000),
    'subdivide': (case_subdivide, 150, 150000),
    'spacing': (case_spacing, 120, 100000),
    'mesh': (case_mesh, 60, 40000),
    'nested': (case_nested, 200, 240000),
    'integers': (case_integers, 30, 10000),
    'covariance': (case_covariance, 100, 80000),
    'text': (case_text, 40, 20000),
}
