"""C30: results depend on the values of the inputs, not on how those are stored."""
import functools

import numpy as np
import kalepy as kale
from kalepy import utils

from .. import borrow, gen, ref
from ..core import CaseHang, Skip

RULE = ("public operations called with whole-number inputs held as float64 arrays, and again with one of the inputs stored another way (signed and unsigned integers of every size, float32, lists, tuples, "
        "lists of rows, Fortran order, strided, reversed, transposed and read-only views); the two results of the same random stream are compared")
ASSUMPTIONS = ["native byte order; float16, objects and text are not numbers that kalepy accepts", "float32 inputs (exact values) may give results of float32 precision"]
MIN_VERDICTS = {'density': 60, 'sampling': 60, 'grids': 60, 'helpers': 60, 'resample': 40, 'plots': 20, 'construct': 40, 'flags': 300}

INTS = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8']
STORES = INTS + ['i1', 'u1', 'f4', 'list', 'intlist', 'tuple', 'rows', 'fortran', 'strided', 'reversed', 'transposed', 'readonly', 'subclass']


class Sub(np.ndarray):
    """A subclass of arrays without behaviour of its own."""


def store(xx, how):
    xx = np.array(xx, dtype=float)
    if how in INTS or how == 'f4':
        return xx.astype(how)
    if how == 'list':
        return xx.tolist()
    if how == 'intlist':
        return xx.astype(int).tolist()
    if how == 'tuple':
        return tuple(tuple(rr) if isinstance(rr, list) and xx.ndim == 2 else rr for rr in xx.tolist())
    if how == 'rows':
        return [rr.copy() for rr in xx] if xx.ndim > 1 else [np.float64(rr) for rr in xx]
    if how == 'fortran':
        return np.asfortranarray(xx)
    if how == 'strided':
        return np.repeat(xx, 2, axis=-1)[..., ::2]
    if how == 'reversed':
        return xx[..., ::-1].copy()[..., ::-1]
    if how == 'transposed':
        return np.ascontiguousarray(xx.T).T
    if how == 'readonly':
        xx.setflags(write=False)
        return xx
    if how == 'subclass':
        return xx.view(Sub)
    raise KeyError(how)


def flat(zz):
    if zz is None:
        return np.zeros(0)
    if isinstance(zz, (tuple, list)):
        return np.concatenate([flat(qq) for qq in zz]) if len(zz) else np.zeros(0)
    return np.ravel(np.asarray(zz, dtype=float))


def drawn(fig):
    """Every number that a figure shows."""
    out = []
    fig.canvas.draw()
    for ax in fig.axes:
        out.append([*ax.get_xlim(), *ax.get_ylim()])
        for line in ax.lines:
            out.append(np.asarray(line.get_xydata(), dtype=float))
        for coll in ax.collections:
            out += [np.ma.filled(np.ma.asarray(coll.get_offsets(), dtype=float), -1.0)]
            if coll.get_array() is not None:
                out.append(np.ma.filled(np.ma.asarray(coll.get_array(), dtype=float), -1.0))
            out += [pp.vertices for pp in coll.get_paths()]
        for patch in ax.patches:
            out.append(patch.get_path().vertices)
    return out


# ---- Operations.  Each returns {argument: array of whole numbers}, function(arguments)
#      Values stay within [0, 127], so that every type holds them.

def whole(rng, *shape, lo=0, hi=128):
    return rng.integers(lo, hi, size=shape).astype(float)


def edge(rng, num=None, lo=0):
    num = num or int(rng.integers(3, 8))
    return np.sort(rng.choice(np.arange(lo, 127), size=num, replace=False)).astype(float)


def grid(rng, dim=None):
    dim = dim or gen.pick(rng, [1, 2, 2, 3])
    edges = [edge(rng, int(rng.integers(3, 7 if dim < 3 else 5))) for _ in range(dim)]
    shape = tuple(ee.size for ee in edges)
    return edges, shape


def with_edges(args, edges):
    args.update({'edges{}'.format(ii): ee for ii, ee in enumerate(edges)})
    return args


def get_edges(aa):
    return [aa[kk] for kk in sorted(aa) if kk.startswith('edges')]


def ops_grids(rng):
    edges, shape = grid(rng)
    dens = whole(rng, *shape)
    which = gen.pick(rng, ['trapz', 'trapz-axis', 'cumtrapz', 'trapz_nd', 'cumsum', 'midpoints', 'midpoints-log', 'centroids'])
    axis = int(rng.integers(len(shape)))
    args = with_edges({'dens': dens}, edges)
    funcs = {
        'trapz': lambda aa: utils.trapz_dens_to_mass(aa['dens'], get_edges(aa)),
        'trapz-axis': lambda aa: utils.trapz_dens_to_mass(aa['dens'], get_edges(aa), axis=axis),
        'cumtrapz': lambda aa: utils.cumtrapz(aa['dens'], get_edges(aa)),
        'trapz_nd': lambda aa: utils.trapz_nd(aa['dens'], get_edges(aa)),
        'cumsum': lambda aa: utils.cumsum(aa['dens']),
        'midpoints': lambda aa: utils.midpoints(aa['dens'], axis=None),
        'midpoints-log': lambda aa: utils.midpoints(aa['dens'], axis=axis, log=True),
        'centroids': lambda aa: utils.centroids(get_edges(aa), aa['dens']),
    }
    if which == 'midpoints-log':
        args['dens'] = dens + (dens == 0)
    if which in ('cumsum', 'midpoints', 'midpoints-log'):
        args = {'dens': args['dens']}
    return which, args, funcs[which]


def distinct(rng, shape):
    """Distinct whole numbers: no ties, whose order is arbitrary"""
    num = int(np.prod(shape))
    return rng.permutation(np.arange(1, 127))[:num].reshape(shape).astype(float)


def ops_sampling(rng):
    edges, shape = grid(rng, gen.pick(rng, [1, 2, 2]))
    bins = tuple(ss - 1 for ss in shape)
    dens = whole(rng, *shape, lo=1)
    scalar = whole(rng, *shape)
    mass = distinct(rng, bins)
    num = int(rng.integers(5, 200))
    which = gen.pick(rng, ['grid', 'grid-mass', 'grid-scalar', 'grid-flat', 'outliers', 'outliers-mass', 'proportional'])
    args = with_edges({'dens': dens}, edges)
    small = np.prod([np.ptp(ee) for ee in edges]) / np.prod([ss - 1 for ss in shape])
    if which == 'grid':
        return which, args, lambda aa: kale.sample_grid(get_edges(aa), aa['dens'], num)
    if which == 'grid-mass':
        args['mass'] = mass
        return which, args, lambda aa: kale.sample_grid(get_edges(aa), aa['dens'], num, mass=aa['mass'])
    if which == 'grid-scalar':
        args['scalar'] = scalar
        return which, args, lambda aa: kale.sample_grid(get_edges(aa), aa['dens'], num, scalar_dens=aa['scalar'])
    if which == 'grid-flat':
        args['mass'] = mass
        return which, args, lambda aa: kale.Sample_Grid(get_edges(aa), aa['dens'], mass=aa['mass']).sample(num, interpolate=False)
    if which == 'outliers':
        # (the number of points is the mass of the light bins)
        thresh = float(np.quantile(utils.trapz_dens_to_mass(dens, edges), 0.2))
        if thresh * np.prod(bins) > 1e6:
            # the same in smaller units: unit edges
            args = with_edges({'dens': dens}, [np.arange(ss, dtype=float) for ss in shape])
            thresh = 20.0
        return which, args, lambda aa: kale.sample_outliers(get_edges(aa), aa['dens'], thresh)
    if which == 'outliers-mass':
        args['mass'] = mass
        return which, args, lambda aa: kale.sample_outliers(get_edges(aa), aa['dens'], 60.0, mass=aa['mass'])
    args['portion'] = whole(rng, *shape, lo=1)
    return which, args, lambda aa: kale.sample_grid_proportional(get_edges(aa), aa['dens'], aa['portion'], num)


def kde_inputs(rng, dim=None):
    dim = dim or gen.pick(rng, [1, 2, 2, 3])
    num = int(rng.integers(dim + 6, 60))
    data = whole(rng, dim, num)
    if rng.random() < 0.3:
        data = np.round(data / 25)
    if not gen.well_conditioned(data):
        raise Skip
    return dim, num, data


def ops_density(rng):
    dim, num, data = kde_inputs(rng)
    kernel = gen.pick(rng, ['gaussian', 'gaussian', 'parabola', 'triweight'])
    pts = whole(rng, dim, int(rng.integers(1, 12)))
    ww = whole(rng, num, lo=1, hi=100)
    args = dict(data=data, points=pts)
    kw = dict(kernel=kernel)
    weighted = rng.random() < 0.5
    if weighted:
        args['weights'] = ww
    bounded = rng.random() < 0.4
    bounds = None
    if bounded:
        bounds = np.array([[max(0.0, rr.min() - 3), min(127.0, rr.max() + 4)] for rr in data])
        args['bounds'] = bounds
    which = gen.pick(rng, ['density', 'pdf', 'cdf', 'grid', 'params', 'default', 'function'])
    if which == 'cdf' and dim > 2:
        which = 'pdf'

    def make(aa):
        refl = aa.get('bounds')
        if refl is not None and dim == 1:
            refl = refl[0]
        return kale.KDE(aa['data'], weights=aa.get('weights'), reflect=refl, **kw)

    if which in ('density', 'pdf'):
        prob = which == 'pdf'
        return which, args, lambda aa: make(aa).density(aa['points'], probability=prob)
    if which == 'cdf':
        return which, args, lambda aa: make(aa).cdf(aa['points'])
    if which == 'default':
        args.pop('points')
        par = int(rng.integers(dim))
        return which, args, lambda aa: make(aa).density(params=par)
    if which == 'params':
        par = int(rng.integers(dim))
        args['points'] = pts[par]
        return which, args, lambda aa: make(aa).pdf(aa['points'], params=par)
    if which == 'grid':
        args.pop('points')
        args.update({'axis{}'.format(ii): whole(rng, int(rng.integers(2, 5))) for ii in range(dim)})
        return which, args, lambda aa: make(aa).pdf([aa['axis{}'.format(ii)] for ii in range(dim)], grid=True)
    args.pop('bounds', None)
    return which, args, lambda aa: kale.pdf(aa['data'], aa['points'], weights=aa.get('weights'), kernel=kernel)


def ops_construct(rng):
    dim, num, data = kde_inputs(rng)
    pts = whole(rng, dim, 6)
    which = gen.pick(rng, ['covariance', 'vector', 'matrix', 'histogram', 'kept'])
    if which == 'covariance':
        root = whole(rng, dim, dim, hi=5)
        cov = root @ root.T + np.eye(dim) * int(rng.integers(1, 20))
        return which, dict(data=data, cov=cov), lambda aa: kale.KDE(aa['data'], covariance=aa['cov']).density(pts)
    if which == 'vector':
        bw = whole(rng, dim, lo=1, hi=4)
        return which, dict(data=data, bw=bw), lambda aa: kale.KDE(aa['data'], bandwidth=aa['bw']).density(pts)
    if which == 'matrix':
        bw = np.eye(dim) * whole(rng, dim, lo=2, hi=5)
        return which, dict(data=data, bw=bw), lambda aa: kale.KDE(aa['data'], bandwidth=aa['bw']).density(pts)
    if which == 'histogram':
        edges, shape = grid(rng, gen.pick(rng, [1, 2]))
        hist = whole(rng, *[ss - 1 for ss in shape], lo=1)
        centres = np.array([mm.ravel() for mm in np.meshgrid(*[0.5 * (ee[1:] + ee[:-1]) for ee in edges], indexing='ij')])
        if not gen.well_conditioned(centres, hist.ravel()):
            raise Skip
        args = with_edges(dict(hist=hist), edges)
        one = len(edges) == 1
        at = [np.mean(ee[:2]) + np.arange(3) for ee in edges]

        def hist_kde(aa):
            ee = get_edges(aa)
            return kale.KDE.from_hist(ee[0] if one else ee, aa['hist'], bandwidth=0.4).density(at)
        return which, args, hist_kde
    seed_num = int(rng.integers(5, 60))
    return which, dict(keep=whole(rng, 1, hi=dim), data=data), lambda aa: kale.KDE(aa['data'], bandwidth=0.3).resample(seed_num, keep=aa['keep'])


def ops_resample(rng):
    dim, num, data = kde_inputs(rng)
    args = dict(data=data)
    if rng.random() < 0.5:
        args['weights'] = distinct(rng, (num,))
    size = int(rng.integers(1, 120))
    which = gen.pick(rng, ['plain', 'kept', 'reflected', 'function'])
    keep = int(rng.integers(dim)) if which == 'kept' else None
    kernel = gen.pick(rng, ref.KERNELS)
    if which == 'reflected':
        args['bounds'] = np.array([[max(0.0, rr.min() - 3), min(127.0, rr.max() + 4)] for rr in data])

    def func(aa):
        if which == 'function':
            return kale.resample(aa['data'], size=size, weights=aa.get('weights'), kernel=kernel)
        refl = aa.get('bounds')
        if refl is not None and dim == 1:
            refl = refl[0]
        return kale.KDE(aa['data'], weights=aa.get('weights'), reflect=refl, kernel=kernel).resample(size, keep=keep)
    return which, args, func


def ops_helpers(rng):
    num = int(rng.integers(4, 60))
    vals = whole(rng, num)
    ww = whole(rng, num, lo=1, hi=100)
    qq = np.sort(rng.uniform(0.02, 0.98, size=3))
    two = whole(rng, 2, num)
    if np.ptp(vals) == 0 or not gen.well_conditioned(two):
        raise Skip
    pos = vals + (vals == 0)
    table = {
        'quantiles': (dict(vals=vals, ww=ww), lambda aa: utils.quantiles(aa['vals'], percs=qq, weights=aa['ww'])),
        'quantiles-plain': (dict(vals=vals), lambda aa: utils.quantiles(aa['vals'], percs=qq)),
        'quantiles-axis': (dict(two=two), lambda aa: utils.quantiles(aa['two'], percs=qq, axis=-1)),
        'iqrange': (dict(pos=pos), lambda aa: utils.iqrange(aa['pos'], log=True)),
        'minmax': (dict(vals=vals), lambda aa: utils.minmax(aa['vals'], positive=True, stretch=0.3)),
        'minmax-log': (dict(pos=pos), lambda aa: utils.minmax(aa['pos'], log_stretch=0.3)),
        'minmax-limit': (dict(vals=vals, lim=np.array([10.0, 90.0]), prev=np.array([4.0, 60.0])),
                         lambda aa: utils.minmax(aa['vals'], limit=aa['lim'], prev=aa['prev'], stretch=0.2)),
        'subdivide': (dict(ee=edge(rng, lo=1)), lambda aa: utils.subdivide(aa['ee'], 3)),
        'subdivide-log': (dict(ee=edge(rng, lo=1)), lambda aa: utils.subdivide(aa['ee'], 3, log=True)),
        'spacing': (dict(vals=vals), lambda aa: utils.spacing(aa['vals'], 'lin', 7)),
        'spacing-log': (dict(pos=pos), lambda aa: utils.spacing(aa['pos'], 'log', 7)),
        'parse_edges': (dict(vals=vals, ww=ww), lambda aa: utils.parse_edges(aa['vals'], weights=aa['ww'])),
        'parse_edges-2d': (dict(two=two), lambda aa: utils.parse_edges(aa['two'], refine=2)),
        'parse_edges-given': (dict(vals=vals, ee=edge(rng)), lambda aa: utils.parse_edges(aa['vals'], edges=aa['ee'])),
        'parse_edges-extrema': (dict(vals=vals, ex=np.array([0.0, 127.0])), lambda aa: utils.parse_edges(aa['vals'], extrema=aa['ex'])),
        'histogram': (dict(vals=vals, ww=ww, ee=edge(rng)), lambda aa: utils.histogram(aa['vals'], bins=aa['ee'], weights=aa['ww'], density=True)),
        'histogram-prob': (dict(vals=vals, ww=ww), lambda aa: utils.histogram(aa['vals'], bins=5, weights=aa['ww'], probability=True)),
        'rem_cov': (dict(two=two), lambda aa: utils.rem_cov(aa['two'])),
        'add_cov': (dict(two=two, cov=np.array([[4.0, 1.0], [1.0, 3.0]])), lambda aa: utils.add_cov(aa['two'], aa['cov'])),
        'bound_indices': (dict(two=two, bnd=np.array([[3.0, 90.0], [10.0, 100.0]])), lambda aa: utils.bound_indices(aa['two'], aa['bnd'])),
        'cov_keep_vars': (dict(cov=np.array([[4.0, 1.0], [1.0, 3.0]])), lambda aa: utils.cov_keep_vars(aa['cov'], 1)),
        'matrix_invert': (dict(cov=np.array([[4.0, 1.0], [1.0, 3.0]])), lambda aa: utils.matrix_invert(aa['cov'])),
        'meshgrid': (dict(ee=vals[:5]), lambda aa: utils.meshgrid(aa['ee'], aa['ee'])),
        'flatten': (dict(two=two), lambda aa: utils.flatten(aa['two'])),
        'shapes': (dict(two=two), lambda aa: [utils.flatlen(aa['two']), *utils.jshape(aa['two']), utils.really1d(aa['two']), utils.isjagged(aa['two']), utils.really1d(aa['two'][0])]),
    }
    which = gen.pick(rng, sorted(table))
    return which, table[which][0], table[which][1]


def ops_plots(rng):
    import matplotlib.pyplot as plt
    dim, num, data = kde_inputs(rng, 2)
    ww = whole(rng, num, lo=1, hi=100)
    args = dict(data=data, ww=ww)
    which = gen.pick(rng, ['hist1d', 'dist1d', 'dist2d', 'hist2d', 'carpet', 'confidence', 'contour', 'corner',
                         'draw_hist1d', 'draw_hist2d', 'draw_contour2d', 'draw_contour2d', 'draw_scatter'])
    edges = [edge(rng, 5), edge(rng, 6)]
    opts = {}
    if which.startswith('draw_hist') or which == 'draw_contour2d':
        edges = edges[:1] if which == 'draw_hist1d' else edges
        args = with_edges(dict(hist=whole(rng, *[ee.size - 1 for ee in edges], lo=1, hi=100)), edges)
    if which == 'draw_hist1d':
        opts = gen.pick(rng, [dict(), dict(renormalize=True), dict(joints=False), dict(rotate=True), dict(nonzero=True, positive=True)])
    elif which == 'draw_hist2d':
        opts = gen.pick(rng, [dict(), dict(mask_below=30)])
    elif which == 'draw_contour2d':
        opts = gen.pick(rng, [dict(), dict(pad=False), dict(pad=2), dict(smooth=1.0), dict(upsample=2), dict(smooth=0.5, upsample=2)])
        opts['quantiles'] = [0.3, 0.6, 0.9]
    if which in ('hist1d', 'hist2d') and rng.random() < 0.5:
        args = with_edges(args, edges)
    rows = gen.pick(rng, ['data'])

    def row(aa, ii):
        return aa[rows][ii]

    def func(aa):
        ee = get_edges(aa) or None
        fig = None
        try:
            if which == 'corner':
                cor = kale.Corner(2)
                fig = cor.fig
                np.random.seed(5)
                cor.plot(aa['data'], weights=aa['ww'], dist2d=dict(scatter=True, hist=True, contour=True))
                return drawn(fig)
            fig, ax = plt.subplots()
            np.random.seed(5)
            if which == 'hist1d':
                kale.hist1d(row(aa, 0), weights=aa['ww'], ax=ax, edges=None if ee is None else ee[0], density=True)
            elif which == 'dist1d':
                kale.dist1d(row(aa, 0), weights=aa['ww'], ax=ax, density=True, hist=True, carpet=True, confidence=True)
            elif which == 'dist2d':
                kale.dist2d(aa['data'], weights=aa['ww'], ax=ax)
            elif which == 'hist2d':
                kale.hist2d(aa['data'], weights=aa['ww'], ax=ax, edges=ee)
            elif which == 'draw_scatter':
                kale.plot.draw_scatter(ax, row(aa, 0), row(aa, 1), limit=num // 2)
            elif which == 'draw_hist1d':
                kale.plot.draw_hist1d(ax, ee[0], aa['hist'], **opts)
            elif which.startswith('draw_'):
                getattr(kale.plot, which)(ax, ee, aa['hist'], **opts)
            elif which == 'carpet':
                kale.carpet(row(aa, 0), weights=aa['ww'], ax=ax)
            elif which == 'confidence':
                kale.confidence(row(aa, 0), weights=aa['ww'], ax=ax)
            else:
                kale.contour(aa['data'], weights=aa['ww'], ax=ax)
            return drawn(fig)
        finally:
            if fig is not None:
                plt.close(fig)
    return which, args, func


def case_for(group, oper):
    def case(ctx):
        rng = ctx.rng
        which, args, func = oper(rng)
        seed = int(rng.integers(2**31))
        names = sorted(args)

        def run(aa):
            np.random.seed(seed)
            return flat(func(aa))

        def base():
            # (indices are integers)
            return {kk: np.array(vv, dtype=int if kk == 'keep' else float) for kk, vv in args.items()}

        want = run(base())
        done = {}
        for _ in range(2 if group == 'plots' else 5):
            # one, or every, input stored another way
            sel = names if rng.random() < 0.3 else [gen.pick(rng, names)]
            stores = STORES
            if which == 'kept' and 'keep' in sel:
                # indices are integers
                stores = [ss for ss in INTS if ss != 'u8'] + ['intlist', 'i8']
            aa = base()
            hows = []
            for kk in sel:
                how = gen.pick(rng, stores)
                aa[kk] = store(args[kk], how)
                hows.append('{}:{}'.format(kk, how))
                ctx.state(group, which, kk.rstrip('0123456789'), how)
            tol = 1e-4 if any(hh.endswith(':f4') for hh in hows) else 1e-7
            try:
                got = run(aa)
            except (Skip, CaseHang):
                raise
            except Exception as err:    # noqa
                ctx.check(False, group, operation=which, stored=hows, error=repr(err)[:200])
                continue
            with np.errstate(all='ignore'):
                scale = np.max(np.abs(want[np.isfinite(want)])) if np.isfinite(want).any() else 1.0
                same, at = got.shape == want.shape, None
                if same:
                    bad = ~(np.isclose(got, want, rtol=tol, atol=tol * 1e-3 * scale) | ((got == want) | (np.isnan(got) & np.isnan(want))))
                    same = not bad.any()
                    at = None if same else [int(np.argmax(bad)), float(got[np.argmax(bad)]), float(want[np.argmax(bad)]), int(bad.sum())]
                    if not same and tol > 1e-5 and group in ('sampling', 'resample', 'construct'):
                        # a rounding error may move the choice of a few points
                        same = np.mean(bad) < 0.05
            ctx.count('values_compared', want.size)
            ctx.check(same, group, operation=which, stored=hows, got=got[:8], want=want[:8], at=at, sizes=[got.size, want.size])
            done[','.join(hows)] = True
        ctx.note(operation=which, stored=sorted(done), size=int(want.size))
    return case


def ops_flags(rng):
    """Switches, numbers and names: the same ones, of python or numpy."""
    dim = int(rng.integers(1, 4))
    num = int(rng.integers(10, 60))
    data = gen.dataset(rng, dim, num, 'normal')
    while not gen.well_conditioned(data):
        data = gen.dataset(rng, dim, num, 'normal')
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform']))
    pts = data + 0.1 * rng.normal(size=data.shape) * np.std(data, axis=1, keepdims=True)
    kernel = gen.pick(rng, ref.KERNELS)
    kde = kale.KDE(data, weights=ww, kernel=kernel)
    edges = [np.linspace(dd.min(), dd.max(), 5) for dd in data]
    dens = rng.uniform(0.1, 1, size=[5] * dim)
    bounds = [None] * dim
    jj = int(rng.integers(dim))
    # (not a number which a boolean could be confused with)
    low = float(data[jj].min() - 3.3 * np.ptp(data[jj]))

    def with_side(vv):
        out = list(bounds)
        out[jj] = [vv, float(data[jj].max() + 2)] if side == 0 else [low, vv]
        return out

    def with_row(vv):
        out = list(bounds)
        out[jj] = vv
        return out
    side = int(rng.integers(2))
    yes, no = [True, np.True_], [False, np.False_]
    flag = yes if rng.random() < 0.5 else no
    size = int(rng.integers(1, 50))
    whole = [size, np.int64(size), np.int32(size), np.uint8(size), np.uint64(size)]
    bw = float(gen.pick(rng, [0.25, 0.5, 1.0]))
    real = [bw, np.float64(bw), np.float32(bw), np.array(bw)]
    menu = {
        'reflect-all': (yes, lambda vv: [kde.density(pts, reflect=vv)[1], kde.resample(20, reflect=vv), kale.KDE(data, weights=ww, reflect=vv).reflect]),
        'reflect-none': (no, lambda vv: [kde.density(pts, reflect=vv)[1], kde.resample(20, reflect=vv), kale.KDE(data, weights=ww, reflect=vv).pdf(pts)[1]]),
        'reflect-row': (yes, lambda vv: [kde.density(pts, reflect=with_row(vv))[1], kde.resample(20, reflect=with_row(vv)), kale.KDE(data, reflect=with_row(vv)).pdf(pts)[1]]),
        'reflect-side': (yes, lambda vv: [kde.density(pts, reflect=with_side(vv))[1], kde.resample(20, reflect=with_side(vv)), kale.KDE(data, reflect=with_side(vv)).pdf(pts)[1]]),
        'keep': (flag, lambda vv: kde.resample(15, keep=vv)),
        'squeeze': (flag, lambda vv: [kde.resample(9, squeeze=vv), np.shape(kde.resample(9, squeeze=vv))]),
        'grid': (flag, lambda vv: kde.density(edges if vv else pts, grid=vv)[1]),
        'probability': (flag, lambda vv: kde.density(pts, probability=vv)[1]),
        'helper': (flag, lambda vv: kale.KDE(data, helper=vv).pdf(pts)[1]),
        'diagonal': (flag, lambda vv: kale.KDE(data, diagonal=vv).pdf(pts)[1]),
        'interpolate': (flag, lambda vv: kale.sample_grid(edges, dens, nsamp=8, interpolate=vv)),
        'poisson': (flag, lambda vv: kale.sample_outliers(edges, dens * 100, 1.0, poisson_inside=vv, poisson_outside=vv)),
        'minmax': (flag, lambda vv: utils.minmax(data, positive=vv)),
        'midpoints': (flag, lambda vv: utils.midpoints(np.abs(data) + 1, log=vv)),
        'histogram': (flag, lambda vv: utils.histogram(data[0], bins=edges[0], density=vv)[0]),
        'renormalize': (flag, lambda vv: kale.utils.histogram(data[0], bins=edges[0], probability=vv)[0]),
        'prepend': (flag, lambda vv: utils.cumtrapz(dens, edges, prepend=vv)),
        'size': (whole, lambda vv: [kde.resample(vv), kale.sample_grid(edges, dens, nsamp=vv)]),
        'bandwidth': (real, lambda vv: [kale.KDE(data, weights=ww, bandwidth=vv).pdf(pts)[1], kale.density(data, pts, bandwidth=vv)[1]]),
        'neff': ([12.0, np.float64(12), np.float32(12), 12, np.int64(12)], lambda vv: kale.KDE(data, neff=vv).pdf(pts)[1]),
        'params': ([jj, np.int64(jj), np.int8(jj), np.uint8(jj)], lambda vv: [kde.density(pts[jj], params=vv)[1], kale.KDE(data).resample(9, keep=vv)]),
        'kernel': ([kernel, np.str_(kernel)], lambda vv: kale.KDE(data, kernel=vv).pdf(pts)[1]),
        'bandwidth-name': (['silverman', np.str_('silverman')], lambda vv: kale.KDE(data, bandwidth=vv).pdf(pts)[1]),
        'edges-number': ([7, np.int64(7), np.int16(7), np.uint8(7)], lambda vv: utils.parse_edges(data, edges=vv)),
        'threshold': ([0.75, np.float64(0.75), np.float32(0.75), np.array(0.75)], lambda vv: kale.sample_outliers(edges, dens * 100, vv)),
        'quantile': ([0.25, np.float64(0.25), np.float32(0.25), np.array(0.25)], lambda vv: utils.quantiles(data[0], percs=vv, weights=ww)),
        'stretch': ([0.5, np.float64(0.5), np.float32(0.5)], lambda vv: utils.minmax(data, stretch=vv)),
    }
    return menu


def case_flags(ctx):
    rng = ctx.rng
    menu = ops_flags(rng)
    seed = int(rng.integers(2**31))
    names = [str(nn) for nn in rng.permutation(sorted(menu))[:9]]
    ctx.note(options=names, seed=seed)
    for name in names:
        vals, func = menu[name]
        want = None
        for vv in vals:
            ctx.state('flags', name, type(vv).__name__, str(vv))
            np.random.seed(seed)
            try:
                got = flat([rr if rr is not None else [] for rr in (func(vv),)])
            except Exception as err:    # noqa
                ctx.check(False, 'flags', option=name, value=repr(vv), error=repr(err)[:200])
                continue
            if want is None:
                want = got
            else:
                ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(want), initial=0), equal_nan=True), 'flags',
                          option=name, value=repr(vv), like=repr(vals[0]))


# ---- The calls of other checks, with their arrays stored another way

NUMERIC = {
    'kde.KDE': ['__init__', 'density', 'pdf', 'cdf', 'resample'],
    'kalepy': ['density', 'pdf', 'resample', 'sample_grid', 'sample_grid_proportional', 'sample_outliers'],
    'utils': ['bound_indices', 'centroids', 'cumsum', 'cumtrapz', 'histogram', 'meshgrid', 'midpoints', 'minmax', 'parse_edges', 'quantiles', 'subdivide', 'trapz_nd',
              'trapz_dens_to_mass', 'iqrange', 'add_cov', 'rem_cov', 'cov_keep_vars', 'stats_str', 'flatten', 'flatlen', 'jshape', 'isjagged'],
}
LAYOUTS = ['fortran', 'strided', 'reversed', 'transposed', 'readonly', 'subclass']


def restore(xx, rng, count):
    """The same values, with some of the arrays among them laid out differently."""
    if isinstance(xx, np.ndarray) and xx.dtype != object:
        if rng.random() < 0.3 or xx.ndim == 0 or xx.size == 0:
            return xx.copy(order='K')
        how = gen.pick(rng, LAYOUTS)
        count.append(how)
        new = np.array(xx)
        if how == 'fortran':
            return np.asfortranarray(new)
        if how == 'strided':
            return np.repeat(new, 2, axis=-1)[..., ::2]
        if how == 'reversed':
            return new[..., ::-1].copy()[..., ::-1]
        if how == 'transposed':
            return np.ascontiguousarray(new.T).T
        if how == 'readonly':
            new.setflags(write=False)
            return new
        return new.view(Sub)
    if type(xx) in (list, tuple):
        return type(xx)(restore(vv, rng, count) for vv in xx)
    if type(xx) is dict:
        return {kk: restore(vv, rng, count) for kk, vv in xx.items()}
    return xx


def numbers(zz, out):
    """All numbers (and texts) of a result; estimates by what they answer."""
    if isinstance(zz, (tuple, list)):
        out.append(('len', len(zz)))
        for vv in zz:
            numbers(vv, out)
    elif isinstance(zz, kale.KDE):
        numbers([zz.dataset, zz.weights, zz.matrix, zz.extrema, zz.neff, zz.points], out)
        pts = np.array(zz.dataset[:, :5], dtype=float)
        numbers(zz.density(pts, probability=True)[1], out)
    elif isinstance(zz, str) or zz is None:
        out.append(('text', zz))
    elif isinstance(zz, (np.ndarray, np.generic, float, int, bool)):
        arr = np.asarray(zz)
        if arr.dtype == object:
            numbers(arr.ravel().tolist(), out)
        else:
            out.append(('array', arr.dtype.kind, arr.shape, np.array(arr, dtype=float) if arr.dtype.kind in 'biuf' else arr.astype(str)))
    return out


def alike(one, two):
    """Up to rounding (sums of other layouts are made in another order)."""
    if len(one) != len(two):
        return False
    for aa, bb in zip(one, two):
        if aa[:-1] != bb[:-1]:
            return False
        if aa[0] != 'array' or aa[1] not in 'biuf':
            same = np.array_equal(aa[-1], bb[-1]) if aa[0] == 'array' else aa[-1] == bb[-1]
            if not same:
                return False
            continue
        xx, yy = aa[-1], bb[-1]
        if xx.size == 0:
            continue
        fin = np.isfinite(xx)
        if not np.array_equal(xx[~fin], yy[~fin], equal_nan=True):
            return False
        if fin.any():
            scale = np.max(np.abs(xx[fin]))
            if not np.all(np.abs(xx[fin] - yy[fin]) <= 1e-9 * scale):
                return False
    return True


def stored_otherwise(ctx, event):
    owner, name = event['name'].rsplit('.', 1)
    if name not in NUMERIC.get(owner, ()):
        return None
    count = []
    if ctx.rng.random() < 0.3 or ctx.counts['verdict:stored-otherwise'] > 60:
        return None
    args = restore(list(event['args']), ctx.rng, count)
    kwargs = restore(dict(event['kwargs']), ctx.rng, count)
    if not count:
        return None
    state = np.random.get_state()

    def end(ev):
        after = np.random.get_state()
        np.random.set_state(state)
        try:
            if owner == 'kde.KDE' and name == '__init__':
                want = ev['obj'] if ev['error'] is None else None

                def func():
                    return kale.KDE(*args, **kwargs)
            else:
                want = ev['result']
                func = functools.partial(getattr({'kde.KDE': ev['obj'], 'kalepy': kale, 'utils': utils}[owner], name), *args, **kwargs)
            try:
                got, err = func(), None
            except CaseHang:
                raise
            except Exception as exc:    # noqa
                got, err = None, exc
            np.random.set_state(after)
            if (err is None) != (ev['error'] is None):
                ctx.check(False, 'stored-otherwise', call=ev['name'], first=repr(ev['error'])[:200], second=repr(err)[:200], stored=count)
            elif err is None:
                one, two = numbers(want, []), numbers(got, [])
                ctx.check(alike(one, two), 'stored-otherwise', call=ev['name'], stored=count, first=[oo[-1] for oo in one[:3]], second=[oo[-1] for oo in two[:3]])
                ctx.state(ev['name'], *sorted(set(count)))
        finally:
            np.random.set_state(after)
    return end


def case_borrowed(ctx):
    """The inputs of any other check."""
    ctx.tap.watch(stored_otherwise)
    borrow.run(ctx)


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'borrowed': (case_borrowed, 600, 8000),
    'flags': (case_flags, 60, 1500),
    'grids': (case_for('grids', ops_grids), 200, 30000),
    'sampling': (case_for('sampling', ops_sampling), 200, 20000),
    'density': (case_for('density', ops_density), 160, 12000),
    'construct': (case_for('construct', ops_construct), 80, 8000),
    'resample': (case_for('resample', ops_resample), 120, 12000),
    'helpers': (case_for('helpers', ops_helpers), 300, 40000),
    'plots': (case_for('plots', ops_plots), 90, 2400),
}


def warmup():
    """Compile every combination of stored types once, before forking."""
    from .. import tap
    tap.default_warmup()
    data = np.random.default_rng(0).integers(0, 100, size=(2, 20)).astype(float)
    state = np.random.get_state()
    for how in ('i1', 'f4', 'i8'):
        kale.KDE(store(data, how)).density(data[:, :3])
        kale.KDE(data).density(store(data[:, :3], how))
    np.random.set_state(state)
