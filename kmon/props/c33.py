"""C33: results do not depend on the surroundings of a call (interpreter, numpy and process settings), and calls leave the surroundings as they were."""
import contextlib
import gc
import io
import logging
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

import matplotlib.pyplot as plt
import numpy as np
import kalepy as kale
from kalepy import utils

from .. import borrow, gen, ref
from ..core import Infra
from ..snap import snapshot
from . import c13, c22, c31

RULE = ("the same seeded calls are made under default settings and under random combinations of others (raising floating-point errors, warnings as errors, print options, "
        "working directory, python's random state, garbage collection, threads, captured output, interpreter flags, environment variables), answers are compared, and a "
        "snapshot of the process-wide settings is compared before and after every call")
ASSUMPTIONS = ["matplotlib's own settings may change how a plot looks, and are only observed, not varied",
               "log records may install the default handler of `logging` (they are written with module-level functions)",
               "other processes agree to 1e-9 relative (with or without compilation); within a process answers are identical"]
MIN_VERDICTS = {'ambient-answer': 400, 'settings-kept': 1000, 'process-answer': 60, 'import-clean': 2}


# ---- what is done

def setup(rng):
    """The input of one scenario, as plain data (it is sent to other processes)."""
    dim = int(gen.pick(rng, [1, 1, 2, 2, 3]))
    num = int(rng.integers(8, 50))
    style = gen.pick(rng, ['normal', 'uniform', 'clusters', 'lognormal', 'heavy', 'ints', 'offset', 'tiny', 'huge'])
    while True:
        data = gen.dataset(rng, dim, num, style)
        ww = gen.weights(rng, num, gen.pick(rng, ['none', 'none', 'uniform', 'heavy', 'zeros']))
        if gen.well_conditioned(data, ww):
            break
        style = 'normal'
    wid = data.max(axis=1) - data.min(axis=1)
    reflect = None
    if rng.random() < 0.4:
        jj = int(rng.integers(dim))
        reflect = [None] * dim
        reflect[jj] = [float(data[jj].min() - 0.01 * wid[jj]), None]
    gdim = int(rng.integers(1, 4))
    edges = c13.make_edges(rng, gdim, most=5)
    dens = rng.uniform(0.0, 2.0, size=[ee.size for ee in edges])
    dens[dens < 0.5] = 0.0
    dens.flat[-2:] = 1.5
    return dict(dim=dim, data=data, weights=ww, kernel=gen.pick(rng, ref.KERNELS), reflect=reflect, bandwidth=float(rng.uniform(0.1, 0.4)),
                far=data + wid[:, None] * rng.uniform(-50, 50, size=data.shape), near=data + wid[:, None] * rng.normal(0, 0.2, size=data.shape),
                grid=[np.linspace(dd.min(), dd.max(), 4 + ii) for ii, dd in enumerate(data)], edges=edges, dens=dens,
                fractions=np.sort(rng.uniform(0, 1, size=4)), seed=int(rng.integers(2**31)))


def calls(inp, seed=None):
    """Name and function of every call of the scenario; all start from the same random state."""
    seed = inp['seed'] if seed is None else seed
    dim, data, ww = inp['dim'], inp['data'], inp['weights']

    def kde():
        extra = dict(points=12) if dim < 3 else {}
        return kale.KDE(data, weights=ww, kernel=inp['kernel'], reflect=inp['reflect'], bandwidth=inp['bandwidth'], **extra)

    def auto():
        return kale.KDE(data, weights=ww, kernel=inp['kernel'])

    def grid_sampler():
        return kale.sample.Sample_Grid(inp['edges'], inp['dens'], scalar_dens=inp['dens'] + 1)

    out = {
        'density': lambda: kde().density(inp['near']),
        'far': lambda: kde().pdf(inp['far']),
        'grid': lambda: kde().density(inp['grid'], grid=True),
        'params': lambda: kde().density(inp['near'][-1:], params=dim - 1),
        'setup': lambda: [auto().bandwidth, auto().covariance, auto().extrema, auto().neff],
        'resample': lambda: kde().resample(40),
        'resample-auto': lambda: auto().resample(),
        'keep': lambda: auto().resample(20, keep=True),
        'sample-grid': lambda: grid_sampler().sample(30),
        'sample-outliers': lambda: kale.sample_outliers(inp['edges'], inp['dens'], 0.05),
        'sample-proportional': lambda: kale.sample_grid_proportional(inp['edges'], inp['dens'], inp['dens'] * 2 + 0.5, 25),
        'mass': lambda: utils.trapz_dens_to_mass(inp['dens'], inp['edges']),
        'integral': lambda: utils.trapz_nd(inp['dens'], inp['edges']),
        'centroids': lambda: utils.centroids(inp['edges'], inp['dens'] + 0.1),
        'cumsum': lambda: utils.cumsum(inp['dens']),
        'quantiles': lambda: utils.quantiles(data[0], percs=inp['fractions'], weights=ww),
        'minmax': lambda: utils.minmax(data, stretch=0.1),
        'edges': lambda: utils.parse_edges(data),
        'histogram': lambda: utils.histogram(data[0], bins=utils.parse_edges(data[0]), weights=ww),
        'midpoints': lambda: utils.midpoints(np.abs(data[0]) + 1, log=True),
        'spacing': lambda: utils.spacing(np.abs(data[0]) + 1, 'log', 20),
        'stats': lambda: utils.stats_str(data[0], weights=ww),
        'array': lambda: utils.array_str(data[0]),
        'reject': lambda: rejected(lambda: kale.KDE(data, weights=np.ones(data.shape[1] + 1))),
        'reject-bandwidth': lambda: rejected(lambda: kale.KDE(data, bandwidth='unknown')),
        'reject-percs': lambda: rejected(lambda: utils.quantiles(data[0], percs=[0.5, 1.5], weights=ww)),
        'reject-negative': lambda: rejected(lambda: utils.quantiles(data[0], percs=-0.1)),
        'reject-limit': lambda: rejected(lambda: utils.minmax(data, limit=[0.0, 1.0, 2.0])),
        'reject-prev': lambda: rejected(lambda: utils.minmax(data, prev=[0.0])),
        'reject-weights': lambda: rejected(lambda: kale.KDE(data, weights=-np.ones(data.shape[1]))),
        'reject-edges': lambda: rejected(lambda: kale.sample_grid(inp['edges'][1:] + inp['edges'][:1], np.ones(np.arange(len(inp['edges'])) + 30))),
        'reject-shape': lambda: rejected(lambda: utils.trapz_nd(inp['dens'], [ee[1:] for ee in inp['edges']])),
        'reject-kept': lambda: rejected(lambda: kale.KDE(data, reflect=[[float(dd.min()), None] for dd in data]).resample(5, keep=0)),
        'reject-params': lambda: rejected(lambda: kde().density([dd[:4] for dd in data[:1]] * 2, params=[0, -dim])),
        'reject-points': lambda: rejected(lambda: kde().density(np.ones((dim + 1, 4)))),
    }
    if dim < 3:
        out['cdf'] = lambda: kde().cdf(data if dim > 1 else data[0])
        out['automatic'] = lambda: kde().density()

    def plotted(func):
        def call():
            fig, ax = plt.subplots()
            try:
                func(ax)
                return [repr(c22.artists(ax))]
            finally:
                plt.close(fig)
        return call

    def cornered(method):
        def call():
            corner = kale.Corner(dim)
            try:
                getattr(corner, method)(kde())
                return [repr([c22.artists(ax) for ax in corner.axes.flat])]
            finally:
                plt.close(corner.fig)
        return call

    out['plot-1d'] = plotted(lambda ax: kale.dist1d(kde() if dim < 3 else data[0], weights=None if dim < 3 else ww, ax=ax, param=0, density=dim < 3, confidence=True,
                                                    hist=True, carpet=True))
    out['plot-hist'] = plotted(lambda ax: kale.hist1d(data[0], weights=ww, ax=ax, renormalize=True))
    out['plot-carpet'] = plotted(lambda ax: kale.carpet(data[0], weights=ww, ax=ax, fancy=True))
    out['plot-bands'] = plotted(lambda ax: (kale.confidence(data[0], weights=ww, ax=ax, quantiles=[0.5, 1.0]), kale.confidence(data[0][:1], ax=ax)))
    out['plot-same'] = plotted(lambda ax: kale.carpet(np.full(5, data[0][0]), ax=ax, fancy=True))
    if dim == 2:
        out['plot-levels'] = plotted(lambda ax: kale.contour(data, weights=ww, ax=ax, quantiles=[0.5, 1.0]))
        out['plot-2d'] = plotted(lambda ax: kale.dist2d(kde(), ax=ax))
        out['plot-contour'] = plotted(lambda ax: kale.contour(data, weights=ww, ax=ax))
        out['corner'] = cornered('plot')
        out['corner-data'] = cornered('plot_data')

    def seeded(func):
        def call():
            np.random.seed(seed)
            return func()
        return call

    return {nn: seeded(ff) for nn, ff in out.items()}


def rejected(func):
    try:
        func()
    except (ValueError, TypeError, IndexError, RuntimeError, AssertionError):
        return ['rejected']
    # (none of them is valid)
    return ['accepted']


RANDOM = ('resample', 'resample-auto', 'keep', 'sample-grid', 'sample-outliers', 'sample-proportional', 'plot-1d', 'plot-carpet', 'plot-same', 'plot-2d', 'corner', 'corner-data')

# (drawn from continuous distributions)
DRAWN = ('resample', 'resample-auto', 'sample-grid', 'sample-proportional', 'plot-carpet', 'plot-same')


def frozen(ans):
    """An answer as a list of independent arrays and strings."""
    out = []
    for aa in c31.flatten(ans):
        out.append(str(aa) if aa.dtype.kind in 'US' else np.array(aa))
    return out


def equal(got, want):
    return len(got) == len(want) and all(
        (gg == ww) if isinstance(ww, str) or isinstance(gg, str) else (gg.shape == ww.shape and np.array_equal(gg, ww, equal_nan=gg.dtype.kind == 'f'))
        for gg, ww in zip(got, want))


# ---- the surroundings

def observed(ctx, name, func):
    """One call between two snapshots."""
    np.random.seed(0)
    before = snapshot()
    ans = frozen(func())
    after = snapshot()
    for kk in before:
        if kk == '_stream':
            continue
        ctx.check(before[kk] == after[kk], 'settings-kept', call=name, setting=kk,
                  before=str(before[kk])[:150], after=str(after[kk])[:150])
    return ans


@contextlib.contextmanager
def altered(rng, names, work):
    """The surroundings named; everything is put back afterwards."""
    stack = contextlib.ExitStack()
    with stack:
        for name in names:
            if name == 'errors':
                stack.enter_context(np.errstate(divide='raise', over='raise', invalid='raise'))
            elif name == 'errors-all':
                stack.enter_context(np.errstate(divide='raise', over='raise', invalid='raise', under='ignore'))
                stack.enter_context(warnings.catch_warnings())
                warnings.simplefilter('error', RuntimeWarning)
            elif name == 'errors-ignored':
                stack.enter_context(np.errstate(all='ignore'))
            elif name == 'print':
                stack.enter_context(np.printoptions(precision=1, threshold=3, edgeitems=1, suppress=True, linewidth=20, sign='+'))
            elif name == 'warnings':
                stack.enter_context(warnings.catch_warnings())
                warnings.simplefilter('error', RuntimeWarning)
                warnings.simplefilter('error', FutureWarning)
            elif name == 'logging':
                old = logging.root.manager.disable, logging.getLogger().level, logging.getLogger().handlers[:]
                logging.disable(logging.NOTSET)
                logging.getLogger().setLevel(logging.DEBUG)
                logging.getLogger().handlers[:] = [logging.StreamHandler(io.StringIO())]

                def back(old=old):
                    logging.disable(old[0])
                    logging.getLogger().setLevel(old[1])
                    logging.getLogger().handlers[:] = old[2]
                stack.callback(back)
            elif name == 'random':
                random.seed(int(rng.integers(1000)))
                np.random.seed(int(rng.integers(1000)))
                np.random.normal()
            elif name == 'directory':
                old = os.getcwd()
                os.chdir(work)
                stack.callback(os.chdir, old)
            elif name == 'collector':
                old = gc.get_threshold()
                gc.set_threshold(5, 2, 2)
                stack.callback(gc.set_threshold, *old)
            elif name == 'no-collector':
                gc.disable()
                stack.callback(gc.enable)
            elif name == 'output':
                stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
                stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
            elif name == 'figure':
                fig = plt.figure()
                fig.add_subplot(121)
                stack.callback(plt.close, fig)
            elif name == 'switch':
                old = sys.getswitchinterval()
                sys.setswitchinterval(1e-6)
                stack.callback(sys.setswitchinterval, old)
            elif name == 'thread':
                pass
            else:
                raise Infra(name)
        yield


SETTINGS = ['errors', 'errors-all', 'errors-ignored', 'print', 'warnings', 'logging', 'random', 'directory', 'collector', 'no-collector', 'output', 'figure', 'switch', 'thread']


def in_thread(func):
    box = []

    def run():
        try:
            box.append((True, func()))
        except BaseException as err:    # noqa
            box.append((False, err))
    tt = threading.Thread(target=run)
    tt.start()
    tt.join()
    good, val = box[0]
    if not good:
        raise val
    return val


def case_ambient(ctx):
    rng = ctx.rng
    inp = setup(rng)
    doing, other = calls(inp), calls(inp, inp['seed'] + 1)
    names = [str(nn) for nn in rng.permutation(list(doing))[:12]]
    work = tempfile.mkdtemp(prefix='kmon-c33-')
    home = os.getcwd()
    os.chdir(work)
    try:
        inner = os.path.join(work, 'inner')
        os.mkdir(inner)
        picks = [str(ss) for ss in rng.permutation(SETTINGS)[:int(rng.integers(1, 5))]]
        ctx.note(dim=inp['dim'], kernel=inp['kernel'], settings=sorted(picks), calls=names, first=float(inp['data'][0, 0]))
        with np.errstate(divide='warn', over='warn', invalid='warn', under='ignore'):
            for nn in names:
                ctx.state(nn, *sorted(picks)[:1])
                want = observed(ctx, nn, doing[nn])
                try:
                    with altered(rng, picks, inner):
                        if 'thread' in picks:
                            got = in_thread(lambda: frozen(doing[nn]()))
                        else:
                            got = observed(ctx, nn, doing[nn])
                except (FloatingPointError, Warning) as err:
                    ctx.check(False, 'ambient-raises', call=nn, settings=picks, error=repr(err)[:200])
                    continue
                ctx.check(equal(got, want), 'ambient-answer', call=nn, settings=picks)
                # the caller's seed is never replaced by another one
                doing[nn]()
                one = snapshot()['_stream']
                other[nn]()
                ctx.check(one != snapshot()['_stream'], 'seed-kept', call=nn)
                if nn in DRAWN:
                    ctx.check(not equal(frozen(other[nn]()), want), 'seed-matters', call=nn)
                if nn not in RANDOM:
                    # deterministic calls do not use up random numbers
                    np.random.seed(inp['seed'])
                    before = snapshot()['_stream']
                    doing[nn]()
                    ctx.check(before == snapshot()['_stream'], 'random-stream-kept', call=nn)
    finally:
        os.chdir(home)
        plt.close('all')
        shutil.rmtree(work, ignore_errors=True)


def case_threads(ctx):
    """Several threads at once leave the settings as they were, too."""
    rng = ctx.rng
    todo = []
    for _ in range(4):
        inp = setup(rng)
        doing = calls(inp)
        names = [nn for nn in doing if not nn.startswith(('plot', 'corner'))]
        todo.append([(nn, doing[nn]) for nn in [str(pp) for pp in rng.permutation(names)[:14]] * 2])
        for nn, func in todo[-1]:
            func()      # (compiled, and imported what is needed, beforehand)
    ctx.note(calls=[[nn for nn, _ in tt] for tt in todo])
    ctx.state('threads', len(todo))
    old = sys.getswitchinterval()
    before = snapshot()
    sys.setswitchinterval(1e-6)
    faults = []

    def run(mine):
        for nn, func in mine:
            try:
                func()
            except Exception as err:    # noqa
                faults.append([nn, repr(err)[:200]])
    try:
        pool = [threading.Thread(target=run, args=(tt,)) for tt in todo]
        for tt in pool:
            tt.start()
        for tt in pool:
            tt.join()
    finally:
        sys.setswitchinterval(old)
    after = snapshot()
    ctx.check(not faults, 'threads-raise', faults=faults[:3])
    bad = [kk for kk in before if kk != '_stream' and before[kk] != after[kk]]
    ctx.check(not bad, 'threads-settings', settings=bad, before=[str(before[kk])[:150] for kk in bad], after=[str(after[kk])[:150] for kk in bad])


# ---- other processes

WORKER = """
import sys
from kmon import cli
cli.import_kalepy()
from kmon.props import c33
c33.answer(sys.argv[1], sys.argv[2])
"""

WAYS = [
    ('plain', [], {}),
    ('-O', ['-O'], {}),
    ('-OO', ['-OO'], {}),
    ('warnings', ['-W', 'error::RuntimeWarning'], {}),
    ('no-compilation', [], {'NUMBA_DISABLE_JIT': '1'}),
    ('hash', [], {'PYTHONHASHSEED': '77'}),
    ('locale', [], {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}),
    ('zone', [], {'TZ': 'Asia/Kathmandu'}),
    ('threads', [], {'OMP_NUM_THREADS': '4', 'OPENBLAS_NUM_THREADS': '4', 'NUMBA_NUM_THREADS': '2'}),
    ('home', [], {'HOME': '/nonexistent', 'XDG_CACHE_HOME': '/nonexistent/cache'}),
    ('backend', [], {'MPLBACKEND': 'svg'}),
    ('debug', ['-X', 'dev'], {}),
    ('closed', [], {}),
    ('malloc', [], {'PYTHONMALLOC': 'debug'}),
]


def answer(source, target):
    with open(source, 'rb') as ff:
        jobs = pickle.load(ff)
    out = []
    for inp, names in jobs:
        doing = calls(inp)
        res = {}
        for nn in names:
            try:
                res[nn] = frozen(doing[nn]())
            except Exception as err:    # noqa -- reported to the parent
                res[nn] = 'raised ' + repr(err)[:300]
        out.append(res)
    with open(target, 'wb') as ff:
        pickle.dump(out, ff)


def launch(code, flags, extra, args, work, closed=False):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([root, os.environ.get('PYTHONPATH', '')]))
    env.update(extra)
    cmd = [sys.executable] + (flags if '-W' in flags else ['-W', 'ignore'] + flags) + ['-c', code] + args
    kw = {}
    if closed:
        kw = dict(preexec_fn=lambda: (os.close(0), os.close(1)))
    err = open(os.path.join(work, 'err'), 'w+b')
    try:
        run = subprocess.run(cmd, env=env, cwd=work, stdin=None if closed else subprocess.DEVNULL, stdout=None if closed else subprocess.DEVNULL, stderr=err, timeout=280, **kw)
        err.seek(0)
        text = err.read().decode(errors='replace')
    finally:
        err.close()
    if run.returncode < 0:
        raise Infra('worker ended by signal {}'.format(-run.returncode))
    return text[-1500:] if run.returncode else ''


def case_process(ctx):
    rng = ctx.rng
    way, flags, extra = WAYS[ctx.index % len(WAYS)]
    work = tempfile.mkdtemp(prefix='kmon-c33-')
    try:
        jobs = []
        for _ in range(2 if way == 'no-compilation' else 4):
            inp = setup(rng)
            names = [str(nn) for nn in rng.permutation([nn for nn in calls(inp) if not (way == 'backend' and nn in ('plot-1d', 'corner'))])[:14]]
            if way == 'no-compilation':
                # (interpreted sums are slow)
                names = [nn for nn in names if not nn.startswith(('corner', 'plot-2d', 'cdf', 'automatic'))]
            jobs.append((inp, names))
        ctx.note(way=way, dims=[inp['dim'] for inp, _ in jobs], first=float(jobs[0][0]['data'][0, 0]))
        ctx.state('process', way)
        src, tgt = os.path.join(work, 'jobs'), os.path.join(work, 'answers')
        with open(src, 'wb') as ff:
            pickle.dump(jobs, ff)
        os.mkdir(os.path.join(work, 'cwd'))
        fault = launch(WORKER, flags, extra, [src, tgt], os.path.join(work, 'cwd'), closed=way == 'closed')
        if not ctx.check(not fault, 'process-works', way=way, error=fault):
            return
        ctx.check(sorted(os.listdir(os.path.join(work, 'cwd'))) == ['err'], 'process-files', got=os.listdir(os.path.join(work, 'cwd')))
        with open(tgt, 'rb') as ff:
            got = pickle.load(ff)
        for (inp, names), res in zip(jobs, got):
            doing = calls(inp)
            for nn in names:
                want = frozen(doing[nn]())
                ctx.state(way, nn)
                if not ctx.check(not isinstance(res[nn], str), 'process-raises', way=way, call=nn, error=res[nn] if isinstance(res[nn], str) else ''):
                    continue
                if any(isinstance(ww, str) for ww in want):
                    # (drawn values may differ in the last digit without compilation)
                    exact = way not in ('no-compilation', 'threads') or nn in ('stats', 'array') or nn.startswith('reject')
                    ctx.check(not exact or equal(res[nn], want), 'process-answer', way=way, call=nn)
                else:
                    c31.same(ctx, res[nn], want, 'process-answer', way=way, call=nn)
    finally:
        plt.close('all')
        shutil.rmtree(work, ignore_errors=True)


IMPORT = """
import sys, json
import os, logging
repo = os.path.realpath(os.environ.get('KALEPY_REPO', '/repo'))
import numpy, scipy, scipy.stats, scipy.interpolate, scipy.ndimage, scipy.spatial, numba, matplotlib, matplotlib.pyplot, matplotlib.patheffects
import kmon.core, kmon.snap as snap
sys.path.insert(0, repo)
one = snap.snapshot()
import kalepy
two = snap.snapshot()
bad = [[kk, str(one[kk])[:200], str(two[kk])[:200]] for kk in one if one[kk] != two[kk]]
handlers = len(logging.getLogger().handlers)
json.dump([bad, handlers], open(sys.argv[1], 'w'))
"""


def case_import(ctx):
    """Importing kalepy changes no setting either (nor consumes random numbers, nor writes files)."""
    import json
    rng = ctx.rng
    flags = gen.pick(rng, [[], ['-O'], ['-X', 'dev']])
    ctx.note(flags=flags, number=ctx.index)
    ctx.state('import', flags)
    work = tempfile.mkdtemp(prefix='kmon-c33-')
    try:
        os.mkdir(os.path.join(work, 'cwd'))
        tgt = os.path.join(work, 'found')
        fault = launch(IMPORT, flags, {'PYTHONHASHSEED': str(int(rng.integers(1, 99)))}, [tgt], os.path.join(work, 'cwd'))
        if not ctx.check(not fault, 'import-works', error=fault):
            return
        bad, handlers = json.load(open(tgt))
        ctx.check(not bad and handlers == 0, 'import-clean', changed=bad, handlers=handlers)
        ctx.check(os.listdir(os.path.join(work, 'cwd')) == ['err'], 'import-files', got=os.listdir(os.path.join(work, 'cwd')))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def settled(ctx, event):
    """Online monitor: settings of the process before and after a call."""
    if ctx.rng.random() < 0.5 or ctx.counts['verdict:borrowed-kept'] > 2000:
        return None
    before = snapshot()
    draws = event['name'].startswith('plot.') or event['name'].split('.')[-1] in ('corner', 'carpet', 'confidence', 'contour', 'dist1d', 'dist2d', 'hist1d', 'hist2d')

    def end(ev):
        after = snapshot()
        bad = [kk for kk in before if kk != '_stream' and not (draws and kk in ('figures', 'descriptors')) and before[kk] != after[kk]]
        ctx.check(not bad, 'borrowed-kept', call=ev['name'], settings=bad, before=[str(before[kk])[:150] for kk in bad], after=[str(after[kk])[:150] for kk in bad])
    return end


def case_borrowed(ctx):
    """The calls of any other check."""
    home = os.getcwd()
    work = tempfile.mkdtemp(prefix='kmon-')
    try:
        os.chdir(work)
        ctx.tap.watch(settled)
        borrow.run(ctx)
    finally:
        os.chdir(home)
        shutil.rmtree(work, ignore_errors=True)


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'borrowed': (case_borrowed, 300, 6000),
    'ambient': (case_ambient, 110, 2500),
    'threads': (case_threads, 60, 900),
    'process': (case_process, 28, 420),
    'import': (case_import, 4, 24),
}
