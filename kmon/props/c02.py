"""C02: probability densities are non-negative and conserve mass."""
import math

import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Skip

RULE = ("random KDEs (kernel, dimension, weights, bandwidth, reflection, projection) integrated by quadrature over their "
        "whole support; an online monitor sees every density evaluation (finite, non-negative); non-trivial = integral compared")
ASSUMPTIONS = ["quadrature error of discontinuous kernels (box) is bounded by the listed tolerances",
               "reflected KDEs are integrated only where data lie inside, and kernels reach less than the domain width"]
MIN_VERDICTS = {'integral': 60, 'integral-radial': 60, 'monitor:nonneg': 200}


def nonneg_monitor(ctx, event):
    if event['name'] not in ('kde.KDE.density', 'kde.KDE.pdf', 'kalepy.density', 'kalepy.pdf', 'kernels.Kernel.density'):
        return None

    def end(ev):
        if ev['error'] is not None:
            return
        vals = ev['result'][1] if isinstance(ev['result'], tuple) else ev['result']
        vals = np.asarray(vals, dtype=float)
        ctx.count('density_values_seen', vals.size)
        ctx.check(np.all(np.isfinite(vals)), 'monitor:finite', name=ev['name'])
        ctx.check(np.all(vals >= 0.0), 'monitor:nonneg', name=ev['name'], low=float(np.min(vals)) if vals.size else None)
    return end


# (relative) quadrature tolerances for kernels and dimension
TOL = {'gaussian': {1: 1e-6, 2: 1e-6, 3: 1e-4}, 'triweight': {1: 1e-5, 2: 1e-3, 3: 4e-3},
       'parabola': {1: 1e-4, 2: 4e-3, 3: 2e-2}, 'box': {1: 4e-3, 2: 3e-2, 3: 8e-2}}
NPTS = {1: 6001, 2: 261, 3: 61}


def support_grid(data, mat, kernel, reflect=None, num=None):
    dim = data.shape[0]
    reach = ref.kernel_radius(kernel, 8.0) * np.sqrt(np.diag(mat)) * 1.001
    edges = []
    for dd in range(dim):
        lo, hi = data[dd].min() - reach[dd], data[dd].max() + reach[dd]
        if reflect is not None and reflect[dd] is not None:
            lo = lo if reflect[dd][0] is None else reflect[dd][0]
            hi = hi if reflect[dd][1] is None else reflect[dd][1]
        edges.append(np.linspace(lo, hi, num or NPTS[dim]))
    return edges


def resolved(edges, mat, kernel):
    """Is the grid fine enough for the stated tolerance?"""
    sig = np.sqrt(1.0 / np.diag(np.linalg.inv(mat)))      # narrowest (conditional) widths
    step = np.array([ee[1] - ee[0] for ee in edges])
    return np.all(step < (0.75 if kernel == 'gaussian' else 1 / 8) * sig)


def case_integral(ctx):
    rng = ctx.rng
    ctx.tap.watch(nonneg_monitor)
    dim = gen.pick(rng, [1, 1, 2, 2, 3])
    kernel = gen.pick(rng, ref.KERNELS)
    num = int(rng.integers(3 * dim + 1, 14 if dim > 1 else 60))
    wstyle = gen.pick(rng, gen.WEIGHT_STYLES)
    ww = gen.weights(rng, num, wstyle)
    data = rng.uniform(-1, 1, size=(dim, num)) * 10**rng.uniform(-1, 1, size=(dim, 1)) + rng.uniform(-5, 5, size=(dim, 1))
    if not gen.well_conditioned(data, ww, 50):
        raise Skip
    bw = float(rng.uniform(0.35, 1.0) if dim > 1 else rng.uniform(0.05, 1.0))
    if rng.random() < 0.25:
        bw = None
    kw = dict(bandwidth=bw)
    mat = ref.weighted_cov(data, ww) * (bw if bw is not None else ref.scott(ref.neff(num, ww), dim))**2
    if rng.random() < 0.4:
        kw, mat, _ = gen.smoothing(rng, dim, data, ww, ['neff', 'neff', 'rescale', 'rescale-each', 'cov', 'diagonal', 'vector', 'matrix', 'silverman'])
    kde = kale.KDE(data, weights=ww, kernel=kernel, **kw)
    edges = support_grid(data, mat, kernel)
    if not resolved(edges, mat, kernel):
        raise Skip
    ctx.note(dim=dim, kernel=kernel, num=num, weights=wstyle, first=float(data[0, 0]))
    ctx.state(kernel, dim, wstyle, 'clear')
    tol = TOL[kernel][dim]
    tot = num if ww is None else ww.sum()
    prob = rng.random() < 0.5
    _, vals = kde.density(edges if dim > 1 else edges[0], grid=dim > 1, probability=prob)
    integ = ref.trapz_grid(vals, edges)
    want = 1.0 if prob else tot
    ctx.check(abs(integ / want - 1) < tol, 'integral', integral=integ, want=want, kernel=kernel, dim=dim, prob=prob)
    # nothing outside of the support of the kernels
    far = np.array([[ee[0] - np.ptp(ee) * rng.uniform(0.01, 2), ee[-1] + np.ptp(ee) * rng.uniform(0.01, 2)] for ee in edges])
    _, vals = kde.density(far)
    lim = 0.0 if kernel != 'gaussian' else 1e-11 * tot / np.sqrt(np.linalg.det(mat))
    ctx.check(np.all(np.asarray(vals) <= lim), 'vanishes-outside', vals=vals)


def case_reflect(ctx):
    rng = ctx.rng
    ctx.tap.watch(nonneg_monitor)
    dim = gen.pick(rng, [1, 2, 2])
    kernel = gen.pick(rng, ref.KERNELS)
    num = int(rng.integers(8, 14 if dim > 1 else 60))
    ww = gen.weights(rng, num)
    data = rng.uniform(0, 1, size=(dim, num))
    if not gen.well_conditioned(data, ww, 50):
        raise Skip
    mat = ref.weighted_cov(data, ww)
    reach = ref.kernel_radius(kernel, 6.0)
    # kernels never reach the mirror image of the opposite boundary
    bw = float(rng.uniform(0.4, 0.95) * 1.0 / (reach * np.sqrt(np.diag(mat).max())))
    mat = mat * bw**2
    reflect = []
    for dd in range(dim):
        lo = data[dd].min() - rng.choice([0.0, 0.02, 0.1]) if rng.random() < 0.7 else None
        hi = data[dd].max() + rng.choice([0.0, 0.02, 0.1]) if rng.random() < 0.7 else None
        if lo is None and hi is None and rng.random() < 0.7:
            reflect.append(None)
        else:
            reflect.append([lo, hi])
    for rr, dd in zip(reflect, data):
        if rr is not None and None not in rr and rr[1] - rr[0] < reach * np.sqrt(np.diag(mat).max()):
            raise Skip
    edges = support_grid(data, mat, kernel, reflect)
    if not resolved(edges, mat, kernel):
        raise Skip
    ctx.note(dim=dim, kernel=kernel, num=num, reflect=reflect)
    ctx.state(kernel, dim, 'reflect', [None if rr is None else tuple(x is None for x in rr) for rr in reflect])
    neff = None if rng.random() < 0.6 else float(rng.uniform(3, 100))
    kde = kale.KDE(data, bandwidth=bw, weights=ww, kernel=kernel, reflect=reflect, neff=neff)
    _, vals = kde.pdf(edges if dim > 1 else edges[0], grid=dim > 1)
    integ = ref.trapz_grid(vals, edges)
    tol = max(TOL[kernel][dim], 2e-4)
    if kernel == 'gaussian':
        tol = max(tol, 2e-3 if dim == 2 else 5e-4)
    ctx.check(abs(integ - 1) < tol * 1.5, 'integral-reflected', integral=integ, kernel=kernel, dim=dim)


def case_params(ctx):
    """Projected densities are also normalized."""
    rng = ctx.rng
    ctx.tap.watch(nonneg_monitor)
    dim = gen.pick(rng, [2, 3, 4])
    kernel = gen.pick(rng, ref.KERNELS)
    num = int(rng.integers(4 * dim, 30))
    ww = gen.weights(rng, num)
    data = rng.uniform(-1, 1, size=(dim, num)) * 10**rng.uniform(-1, 1, size=(dim, 1))
    if not gen.well_conditioned(data, ww, 50):
        raise Skip
    bw = float(rng.uniform(0.35, 1.0))
    kde = kale.KDE(data, bandwidth=bw, weights=ww, kernel=kernel, neff=None if rng.random() < 0.6 else float(rng.uniform(3, 100)))
    npar = int(rng.integers(1, min(dim, 2) + 1))
    params = rng.permutation(dim)[:npar]
    mat = ref.weighted_cov(data, ww)[np.ix_(params, params)] * bw**2
    sub = data[params]
    edges = support_grid(sub, mat, kernel)
    if not resolved(edges, mat, kernel):
        raise Skip
    ctx.note(dim=dim, kernel=kernel, params=params.tolist(), num=num, first=float(data[0, 0]))
    ctx.state(kernel, dim, 'params', npar)
    if npar == 1:
        _, vals = kde.pdf(edges[0], params=int(params[0]))
    else:
        _, vals = kde.pdf(edges, params=params.tolist(), grid=True)
    integ = ref.trapz_grid(vals, edges)
    ctx.check(abs(integ - 1) < TOL[kernel][npar], 'integral-params', integral=integ, kernel=kernel, params=params)


def ball(dim):
    """Area of the unit sphere."""
    return 2 * np.pi**(dim / 2) / math.gamma(dim / 2)


def case_radial(ctx):
    """Any dimension: narrow kernels stand alone, and each integrates (over ellipsoidal shells) to the weight of its datum."""
    rng = ctx.rng
    ctx.tap.watch(nonneg_monitor)
    dim = int(rng.integers(1, 10))
    kernel = gen.pick(rng, ref.KERNELS)
    num = int(rng.integers(2 * dim + 2, 2 * dim + 20))
    wstyle = gen.pick(rng, ['none', 'none', 'uniform', 'ints', 'heavy'])
    ww = gen.weights(rng, num, wstyle)
    data = gen.random_corr(rng, dim) @ rng.normal(size=(dim, num)) * 10**rng.uniform(-3, 3, size=(dim, 1)) + rng.normal(size=(dim, 1))
    if not gen.well_conditioned(data, ww, 1e4):
        raise Skip
    mat = ref.weighted_cov(data, ww)
    low = np.linalg.cholesky(mat)
    white = np.linalg.solve(low, data)
    apart = np.sqrt(((white[:, :, None] - white[:, None, :])**2).sum(axis=0) + 1e300 * np.eye(num)).min()
    reach = ref.kernel_radius(kernel, 9.0)
    bw = min(1.0, float(apart / (2.2 * reach) * rng.uniform(0.3, 1.0)))
    if bw < 1e-4:
        raise Skip
    kde = kale.KDE(data, bandwidth=bw, weights=ww, kernel=kernel)
    ctx.note(dim=dim, kernel=kernel, num=num, weights=wstyle, bandwidth=bw, first=float(data[0, 0]))
    ctx.state(kernel, dim, wstyle, 'radial')
    # quadrature nodes along the radius, for which the profile is (nearly) a polynomial
    nodes, quad = np.polynomial.legendre.leggauss(80)
    rad, quad = (nodes + 1) / 2 * reach, quad * reach / 2
    jj = int(gen.pick(rng, range(num)) if ww is None else rng.choice(num, p=ww / ww.sum()))
    tot = num if ww is None else ww.sum()
    weight = 1.0 if ww is None else ww[jj]
    for _ in range(2):
        dirs = rng.normal(size=(dim, rad.size))
        dirs /= np.linalg.norm(dirs, axis=0)
        pts = data[:, jj][:, None] + low @ (dirs * rad * bw)
        prob = rng.random() < 0.5
        _, vals = kde.density(pts if dim > 1 else pts[0], probability=prob)
        integ = np.sum(quad * rad**(dim - 1) * vals) * ball(dim) * bw**dim * np.prod(np.diag(low))
        want = weight / (tot if prob else 1.0)
        ctx.check(abs(integ / want - 1) < 1e-6 * 1e4**(kernel == 'gaussian' and dim > 8), 'integral-radial', integral=integ, want=want, kernel=kernel, dim=dim, prob=prob)
    # a projection is normalized as well (one parameter: the data are sorted, and integrated over all of it)
    if dim > 3:
        par = int(rng.integers(dim))
        wid = np.sqrt(mat[par, par])
        kde = kale.KDE(data, bandwidth=0.4, weights=ww, kernel=kernel)
        edge = np.linspace(data[par].min() - 9 * 0.4 * wid, data[par].max() + 9 * 0.4 * wid, 6001)
        _, vals = kde.pdf(edge, params=par)
        integ = ref.trapz_grid(vals, [edge])
        ctx.check(abs(integ - 1) < TOL[kernel][1], 'integral-params', integral=integ, kernel=kernel, params=par, dim=dim)


def case_hostile(ctx):
    """Hostile points: infinities are outside, integers, scalars far away, many repeated data."""
    rng = ctx.rng
    ctx.tap.watch(nonneg_monitor)
    kernel = gen.pick(rng, ref.KERNELS)
    data = gen.dataset(rng, 1, 40)
    data[0, :15] = data[0, 0]
    ww = gen.weights(rng, 40)
    kde = kale.KDE(data, kernel=kernel, weights=ww, bandwidth=float(rng.uniform(1e-3, 3.0)))
    ctx.note(kernel=kernel, first=float(data[0, 0]))
    pts = np.concatenate([data[0], data[0] * (1 + 1e-12), [-1e12, 1e12, -1e150, 1e150], rng.normal(size=50) * 1e3])
    ctx.state('hostile', kernel)
    _, vals = kde.pdf(pts)
    ctx.check(np.all(vals[80:84] == 0.0), 'vanishes-outside')
    _, vals = kde.pdf(np.arange(-5, 6))
    _, vals = kde.pdf()
    ctx.check(np.size(vals) == np.size(kde.points), 'auto-points-shape')


KINDS = {
    'integral': (case_integral, 320, 4000),
    'reflect': (case_reflect, 240, 3000),
    'params': (case_params, 160, 2000),
    'radial': (case_radial, 120, 1500),
    'hostile': (case_hostile, 60, 600),
}
