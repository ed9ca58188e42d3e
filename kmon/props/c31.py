"""C31: copies of an estimate (copied, pickled, sent to another process) are equivalent to it, and independent of it."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import kalepy as kale

from .. import borrow, gen, ref
from ..core import CaseHang, Infra, Skip
from . import c03, c13, c30

RULE = ("random KDEs and samplers, taken at a random point of a random history of calls, are copied in every way python offers (copy, deepcopy, every "
        "pickle protocol, a pickle loaded in a fresh process, a forked worker); original and copy answer the same queries, with use and abuse of "
        "one in between, and every pair of answers is compared")
ASSUMPTIONS = ["agreement to 1e-9 relative (pickling may change the memory layout of arrays, and so the rounding of sums)"]
MIN_VERDICTS = {'copy-answers': 400, 'original-answers': 400, 'process-answers': 30, 'sampler-answers': 80}

WAYS = ['copy', 'deepcopy'] + ['pickle{}'.format(pp) for pp in range(pickle.HIGHEST_PROTOCOL + 1)]


def duplicate(way, obj):
    if way == 'copy':
        return copy.copy(obj)
    if way == 'deepcopy':
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, protocol=int(way[6:])))


def flatten(ans):
    if isinstance(ans, (tuple, list)):
        out = []
        for aa in ans:
            out.extend(flatten(aa))
        return out
    return [np.asarray(ans)]


def same(ctx, got, want, key, **detail):
    """Two answers (arbitrarily nested arrays) agree."""
    got, want = flatten(got), flatten(want)
    if not ctx.check(len(got) == len(want) and all(gg.shape == ww.shape for gg, ww in zip(got, want)), key,
                     shapes=[[list(gg.shape) for gg in got], [list(ww.shape) for ww in want]], **detail):
        return False
    good = True
    for gg, ww in zip(got, want):
        if ww.dtype.kind in 'OUSb':
            good &= ctx.check(np.array_equal(gg, ww), key, got=gg, want=ww, **detail)
            continue
        if not np.all(np.isfinite(ww.astype(float))):
            good &= ctx.check(np.array_equal(gg, ww, equal_nan=True), key, got=gg, want=ww, **detail)
            continue
        top = float(np.max(np.abs(ww))) if ww.size else 0.0
        good &= ctx.close(gg, ww, key, rtol=1e-9, atol=1e-11 * top, **detail)
    return good


def queries(rng, dim, data, mat, refl):
    """Calls with fixed arguments, each giving an answer that depends on the KDE (and numpy's seed) only."""
    pts = c03.points_around(rng, data, mat, refl, 25)
    seed = int(rng.integers(2**31))
    pars = [int(pp) for pp in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]
    wid = data.max(axis=1) - data.min(axis=1)
    grid = [np.linspace(lo - 0.1 * ww, hi + 0.1 * ww, 4 + ii) for ii, (lo, hi, ww) in enumerate(zip(data.min(axis=1), data.max(axis=1), wid))]

    def seeded(func):
        def call(kde):
            np.random.seed(seed)
            return func(kde)
        return call

    qq = {
        'density': lambda kde: kde.density(pts),
        'pdf': lambda kde: kde.pdf(pts),
        'grid': lambda kde: kde.density(grid, grid=True),
        'params': lambda kde: kde.pdf(pts[pars], params=pars),
        'unreflected': lambda kde: kde.density(pts, reflect=False),
        'resample': seeded(lambda kde: kde.resample(40)),
        'resample-free': seeded(lambda kde: kde.resample(40, reflect=False)),
        'resample-number': seeded(lambda kde: kde.resample()),
        'setup': lambda kde: [kde.dataset, kde.bandwidth, kde.covariance, kde.neff, kde.ndim, kde.ndata, kde.kernel.matrix, kde.extrema,
                              np.ones(1) if kde.weights is None else kde.weights, str(kde.reflect)],
    }
    if dim > 1:
        qq['keep'] = seeded(lambda kde: kde.resample(20, keep=0, reflect=False))
    if dim <= 2:
        qq['points'] = lambda kde: kde.points
        qq['automatic'] = lambda kde: kde.density()
        qq['cdf'] = lambda kde: kde.cdf(data[:, :5] if dim > 1 else data[0, :5])
        qq['cdf-grid'] = lambda kde: kde.cdf(data[:, :3] * 0.9 if dim > 1 else data[0, :3] * 0.9)
    return qq


def make(ctx):
    rng = ctx.rng
    dim, num, data, ww, kernel, kw, mat, refl = c03.make(ctx, dims=(1, 1, 2, 2, 3))
    if rng.random() < 0.5:
        refl = [None] * dim
    spec = None if all(rr is None for rr in refl) else refl
    extra = {}
    if dim <= 2:
        # (enough for the interpolated CDF, without its full cost)
        extra['points'] = int(rng.integers(10, 30))
    flat = dim == 1 and rng.random() < 0.6
    kde = kale.KDE(data[0].copy() if flat else data.copy(), weights=None if ww is None else ww.copy(), kernel=kernel, reflect=spec, **extra, **kw)
    return dim, data, mat, refl, kernel, kde


def case_kde(ctx):
    rng = ctx.rng
    dim, data, mat, refl, kernel, kde = make(ctx)
    qq = queries(rng, dim, data, mat, refl)
    names = list(qq)
    way = gen.pick(rng, WAYS)
    # some history before the copy is made
    past = [gen.pick(rng, names) for _ in range(int(rng.integers(0, 5)))]
    for nn in past:
        qq[nn](kde)
    ctx.note(way=way, past=past)
    ctx.state(way, dim, kernel, 'reflect' if any(rr is not None for rr in refl) else '')
    for nn in past:
        ctx.state('past', nn, way)
    other = duplicate(way, kde)
    ctx.check(type(other) is type(kde) and other is not kde, 'copy-type', way=way)
    # copy and original are asked in different orders
    answers = {nn: qq[nn](other) for nn in rng.permutation(names)}
    mine = {nn: qq[nn](kde) for nn in rng.permutation(names)}
    for nn in names:
        same(ctx, answers[nn], mine[nn], 'copy-answers', query=nn, way=way)
    # a copy of the copy
    second = duplicate(gen.pick(rng, WAYS), other)
    nn = gen.pick(rng, names)
    same(ctx, qq[nn](second), mine[nn], 'copy-of-copy', query=nn, way=way)
    # abuse of a full copy leaves the original alone (and the other way around)
    if way != 'copy':
        mine = {nn: [np.array(aa) for aa in flatten(mine[nn])] for nn in names}
        first, last = (other, kde) if rng.random() < 0.5 else (kde, other)
        hit = 0
        for name in ('dataset', 'weights', 'points'):
            arr = getattr(first, name, None) if (name != 'points' or dim <= 2) else None
            for aa in (arr if isinstance(arr, (list, tuple)) else [arr]):
                if isinstance(aa, np.ndarray) and aa.flags.writeable and aa.dtype.kind == 'f':
                    aa[...] = aa * 3 + 1
                    hit += 1
        ctx.count('arrays_overwritten', hit)
        for nn in rng.permutation(names):
            same(ctx, qq[nn](last), mine[nn], 'original-answers', query=str(nn), way=way)
    else:
        del other, second
        for nn in rng.permutation(names):
            same(ctx, qq[nn](kde), mine[nn], 'original-answers', query=str(nn), way=way)


def case_sampler(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2, 3])
    edges = c13.make_edges(rng, dim, most=6)
    dens, style = c13.make_dens(rng, edges)
    mass = c13.corner_mass(dens, edges)
    if not mass.sum() > 0:
        raise Skip
    dens = np.asarray(dens, dtype=float) * 200 / mass.sum()
    mass = c13.corner_mass(dens, edges)
    which = gen.pick(rng, ['grid', 'outliers', 'kernel'])
    way = gen.pick(rng, WAYS)
    seed = int(rng.integers(2**31))
    ctx.note(dim=dim, which=which, way=way, dens=style, first=float(edges[0][0]))
    ctx.state('sampler', which, way, dim)
    if which == 'grid':
        scal = rng.normal(size=dens.shape)
        obj = kale.sample.Sample_Grid(edges, dens, scalar_dens=scal)
        qq = {'scalar': lambda oo: oo.sample(30, return_scalar=True), 'bare': lambda oo: oo.sample(30, return_scalar=False),
              'uniform': lambda oo: oo.sample(30, interpolate=False), 'number': lambda oo: oo.sample()}
    elif which == 'outliers':
        thr = float(np.median(mass[mass > 0]))
        obj = kale.sample.Sample_Outliers(edges, dens, threshold=thr)
        qq = {'plain': lambda oo: oo.sample(), 'poisson': lambda oo: oo.sample(poisson_inside=True, poisson_outside=True)}
    else:
        kern = gen.pick(rng, ref.KERNELS)
        data = gen.dataset(rng, dim, 30, 'normal')
        kde = kale.KDE(data, kernel=kern)
        obj = kde.kernel
        pts = gen.probe_points(rng, data, np.atleast_2d(obj.matrix), 20)
        qq = {'density': lambda oo: oo.density(pts, data, np.ones(30)), 'resample': lambda oo: oo.resample(data, np.ones(30), 20)}
    past = [gen.pick(rng, list(qq)) for _ in range(int(rng.integers(0, 3)))]
    for nn in past:
        qq[nn](obj)
    other = duplicate(way, obj)
    ctx.check(type(other) is type(obj), 'copy-type', way=way)
    for rep in range(2):
        for nn in rng.permutation(list(qq)):
            ans = []
            for oo in ((obj, other) if rng.random() < 0.5 else (other, obj)):
                np.random.seed(seed)
                ans.append(qq[nn](oo))
            same(ctx, ans[0], ans[1], 'sampler-answers', query=str(nn), which=which, way=way)


WORKER = """
import sys, pickle
from kmon import cli
cli.import_kalepy()
from kmon.props import c31
c31.answer(sys.argv[1], sys.argv[2])
"""


def fixed_queries(kde, seed, pts, grid):
    out = {}
    out['density'] = kde.density(pts)
    out['grid'] = kde.pdf(grid, grid=True)
    np.random.seed(seed)
    out['resample'] = kde.resample(30)
    out['params'] = kde.pdf(pts[:1], params=0)
    if kde.ndim <= 2:
        out['cdf'] = kde.cdf(pts if kde.ndim > 1 else pts[0])
        out['points'] = kde.points
        out['automatic'] = kde.pdf()
    return {nn: [np.array(aa) for aa in flatten(vv)] for nn, vv in out.items()}


def answer(source, target):
    with open(source, 'rb') as ff:
        jobs = pickle.load(ff)
    with open(target, 'wb') as ff:
        pickle.dump([fixed_queries(*job) for job in jobs], ff)


def case_process(ctx):
    """Estimates written to a file by one process and used by another: a fresh one, or a forked one."""
    rng = ctx.rng
    jobs, want = [], []
    while len(jobs) < 8:
        try:
            dim, data, mat, refl, kernel, kde = make(ctx)
        except Skip:
            continue
        pts = c03.points_around(rng, data, mat, refl, 20)
        grid = [np.linspace(lo, hi, 5 + ii) for ii, (lo, hi) in enumerate(zip(data.min(axis=1), data.max(axis=1)))]
        seed = int(rng.integers(2**31))
        job = (kde, seed, pts, grid)
        warm = rng.random() < 0.5
        if warm:
            fixed_queries(*job)
        ctx.state('process', dim, kernel, 'warm' if warm else 'cold')
        jobs.append(job)
    how = gen.pick(rng, ['fresh', 'fork'])
    ctx.note(how=how)
    work = tempfile.mkdtemp(prefix='kmon-c31-')
    try:
        src, tgt = os.path.join(work, 'jobs.pkl'), os.path.join(work, 'answers.pkl')
        if how == 'fresh':
            with open(src, 'wb') as ff:
                pickle.dump(jobs, ff, protocol=int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1)))
            root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            env = dict(os.environ, PYTHONPATH=os.pathsep.join([root, os.environ.get('PYTHONPATH', '')]), PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
            run = subprocess.run([sys.executable, '-W', 'ignore', '-c', WORKER, src, tgt], env=env, cwd=work, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, timeout=240)
            if run.returncode < 0:
                raise Infra('worker ended by signal {}'.format(-run.returncode))
            fault = run.stderr.decode(errors='replace')[-1500:] if run.returncode else ''
        else:
            # the estimates are used in a child of this process, as by a pool of workers
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open(tgt, 'wb') as ff:
                        pickle.dump([fixed_queries(*job) for job in jobs], ff)
                    code = 0
                finally:
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            fault = 'status {}'.format(st) if st else ''
        if not ctx.check(not fault, 'process-works', how=how, error=fault):
            return
        with open(tgt, 'rb') as ff:
            got = pickle.load(ff)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for job, ans in zip(jobs, got):
        want = fixed_queries(*job)
        ctx.check(sorted(ans) == sorted(want), 'process-answers')
        for nn in want:
            same(ctx, ans[nn], want[nn], 'process-answers', query=nn, how=how)


def asked_of_copy(ctx, event):
    """The same question, to a copy made just before."""
    name = event['name'].rsplit('.', 1)[-1]
    if name not in ('density', 'pdf', 'cdf', 'resample') or not isinstance(event['obj'], kale.KDE):
        return None
    if ctx.rng.random() < 0.4 or ctx.counts['verdict:borrowed-answers'] > 40:
        return None
    way = gen.pick(ctx.rng, WAYS)
    twin = duplicate(way, event['obj'])
    state = np.random.get_state()

    def end(ev):
        after = np.random.get_state()
        np.random.set_state(state)
        try:
            got, err = getattr(twin, name)(*ev['args'], **ev['kwargs']), None
        except CaseHang:
            raise
        except Exception as exc:    # noqa
            got, err = None, exc
        finally:
            np.random.set_state(after)
        if (err is None) != (ev['error'] is None):
            ctx.check(False, 'borrowed-answers', call=name, way=way, first=repr(ev['error'])[:200], second=repr(err)[:200])
        elif err is None:
            one, two = c30.numbers(ev['result'], []), c30.numbers(got, [])
            ctx.check(c30.alike(one, two), 'borrowed-answers', call=name, way=way, first=[oo[-1] for oo in one[:3]], second=[oo[-1] for oo in two[:3]])
    return end


def case_borrowed(ctx):
    """Estimates of any other check."""
    ctx.tap.watch(asked_of_copy)
    borrow.run(ctx, ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c25', 'c26', 'c20', 'c28'])


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'borrowed': (case_borrowed, 400, 6000),
    'kde': (case_kde, 240, 12000),
    'sampler': (case_sampler, 120, 8000),
    'process': (case_process, 14, 300),
}
