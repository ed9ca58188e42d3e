"""C27: KDEs can be evaluated from several threads at the same time."""
import os
import random
import sys
import threading
import time
import warnings
import zlib

import numpy as np
import kalepy as kale
from kalepy import utils

from .. import gen, ref
from ..core import Skip
from . import c13, c19

RULE = ("several threads evaluate shared or separate KDEs (densities, grids, projections, CDFs, default points, draws) under two kinds of schedules: controlled ones, in which a scheduler "
        "hands a token between the threads at random lines of kalepy (recorded, a function of the seed), and free-running ones with a switch interval of a microsecond; every value must equal that of a "
        "fresh object asked sequentially")
ASSUMPTIONS = ["plotting (pyplot) is not claimed to be usable from several threads", "draws made meanwhile are only required to be valid, numpy's stream being shared between threads",
               "preemption within one line of Python is only reached by the free-running schedules"]
MIN_VERDICTS = {'value': 600, 'thread-finished': 300, 'draws-valid': 60, 'afterwards': 100, 'helper-value': 60}

FILES = os.path.dirname(os.path.abspath(kale.__file__)) + os.sep
STALL = 3.0


class Scheduler:
    """Only the thread holding the token runs; at each line of kalepy it may hand it on."""

    def __init__(self, seed, num, prob, targets=None):
        self.targets = targets
        self.hits = 0
        self.rand = random.Random(seed)
        self.num, self.prob = num, prob
        self.gates = [threading.Semaphore(0) for _ in range(num)]
        self.alive = set(range(num))
        self.free = False           # given up control (a thread is blocked)
        self.lines = self.switches = 0
        self.trace = 0              # digest of the schedule
        self.places = set()

    def tracer(self, me):
        def local(frame, what, arg):
            if what == 'line' and not self.free:
                self.step(me, frame)
            return local

        def call(frame, what, arg):
            if not frame.f_code.co_filename.startswith(FILES):
                return None
            return local
        return call

    def step(self, me, frame):
        self.lines += 1
        if self.targets is not None:
            # a chosen preemption: at the given occurrence of the given line
            goal = self.targets.get(me)
            if goal is None or (frame.f_code.co_filename, frame.f_lineno) != goal[0]:
                return
            goal[1] -= 1
            if goal[1] > 0:
                return
            del self.targets[me]
            self.hits += 1
        elif self.rand.random() >= self.prob:
            return
        others = sorted(self.alive - {me})
        if not others:
            return
        nxt = others[self.rand.randrange(len(others))]
        self.switches += 1
        place = (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
        self.places.add(place)
        self.trace = zlib.crc32(repr((me, nxt, place)).encode(), self.trace)
        self.gates[nxt].release()
        self.wait(me)

    def wait(self, me):
        if self.free:
            return
        if not self.gates[me].acquire(timeout=STALL):
            # whoever has the token is blocked (e.g. on a lock held by this thread)
            self.free = True
            for gate in self.gates:
                gate.release()

    def done(self, me):
        self.alive.discard(me)
        left = sorted(self.alive)
        if left and not self.free:
            self.gates[left[self.rand.randrange(len(left))]].release()


def run_threads(ctx, works, mode, seed, targets=None):
    """Each of `works` (list of functions) in its own thread; returns lists of results or errors."""
    num = len(works)
    out = [[] for _ in range(num)]
    sched = None
    if mode != 'free':
        sched = Scheduler(seed, num, {'often': 0.4, 'some': 0.08, 'rare': 0.015, 'chosen': 0.0}[mode], targets)
    barrier = threading.Barrier(num)

    def body(me):
        barrier.wait()
        if sched is not None:
            sched.wait(me)
            sys.settrace(sched.tracer(me))
        try:
            for func in works[me]:
                try:
                    out[me].append(('ok', func()))
                except Exception as err:    # noqa -- judged by the oracle
                    out[me].append(('raised', repr(err)[:200]))
        finally:
            sys.settrace(None)
            if sched is not None:
                sched.done(me)

    threads = [threading.Thread(target=body, args=(jj,), daemon=True) for jj in range(num)]
    interval = sys.getswitchinterval()
    if mode == 'free':
        sys.setswitchinterval(1e-6)
    try:
        for th in threads:
            th.start()
        if sched is not None:
            sched.gates[0 if targets is not None else random.Random(seed).randrange(num)].release()
        limit = time.time() + 120
        for th in threads:
            th.join(max(0.1, limit - time.time()))
    finally:
        sys.setswitchinterval(interval)
    for jj, th in enumerate(threads):
        ctx.check(not th.is_alive() and len(out[jj]) == len(works[jj]), 'thread-finished', mode=mode)
    ctx.count('threads', num)
    ctx.count('requests', sum(len(ww) for ww in works))
    if sched is not None:
        ctx.count('lines_scheduled', sched.lines)
        ctx.count('switches', sched.switches)
        ctx.count('schedules_given_up', int(sched.free))
        ctx.count('chosen_preemptions', sched.hits)
        ctx.state('schedule', sched.trace)
        for place in sched.places:
            ctx.state('switch-at', *place)
    else:
        ctx.count('free_running', 1)
    return out


def requests(rng, dim, data, reflect, mat):
    """A menu of evaluations: (name, function of a KDE)."""
    num = int(rng.integers(1, 30))
    span = np.ptp(data, axis=1, keepdims=True)
    pts = data.min(axis=1, keepdims=True) + span * rng.uniform(-0.3, 1.3, size=(dim, num))
    flat = pts if (dim > 1 or rng.random() < 0.5) else pts[0]
    sub = [int(pp) for pp in rng.permutation(dim)[:max(1, dim - 1)]]
    edges = [np.sort(pp[:5]) for pp in pts]
    out = [('density', lambda kde: kde.density(flat)), ('pdf', lambda kde: kde.pdf(flat)),
           ('points', lambda kde: [np.array(pp) for pp in ([kde.points] if np.ndim(kde.points[0]) == 0 else kde.points)]),
           ('cdf', lambda kde: kde.cdf(pts if dim > 1 else pts[0])), ('cdf', lambda kde: kde.cdf(data[:, :4] if dim > 1 else data[0, :4])),
           ('grid', lambda kde: kde.density(edges if dim > 1 else edges[0], grid=dim > 1)),
           ('function', lambda kde: kale.density(data, points=pts if dim > 1 else pts[0])),
           ('other', lambda kde: kale.KDE(data, bandwidth=0.3).pdf(pts))]
    if dim > 1:
        out += [('params', lambda kde: kde.density(pts[sub], params=sub)), ('param', lambda kde: kde.pdf(pts[0], params=0)), ('default', lambda kde: kde.density(params=sub[0]))]
    else:
        out += [('default', lambda kde: kde.density()), ('default-pdf', lambda kde: kde.pdf())]
    if reflect is not None:
        out.append(('no-reflection', lambda kde: kde.density(flat, reflect=False)))
    else:
        lo = data.min(axis=1)
        bounds = [[ll - 0.1 * ss, None] for ll, ss in zip(lo, span[:, 0])]
        out.append(('reflection', lambda kde: kde.density(flat, reflect=bounds)))
    return out


def draws(rng, dim, data, reflect):
    size = int(rng.integers(1, 60))

    def draw(kde):
        return kde.resample(size)

    def keep(kde):
        return kde.resample(size, keep=0, reflect=False)
    return (('draw', draw) if rng.random() < 0.6 or dim == 1 else ('keep', keep)), size


def case_shared(ctx):
    rng = ctx.rng
    dim, num, style, data, ww = c19.shared_pool(ctx, dims=(1, 1, 2, 2, 3))
    nkde = int(rng.integers(1, 3))
    specs = [c19.make_spec(rng, dim, num, data, ww) for _ in range(nkde)]
    for ss in specs:
        if dim > 2 or (dim == 2 and ss['points'] is None):
            # (bounds the size of the default grid)
            ss['points'] = int(rng.integers(4, 12)) if dim < 3 else 4
    nthr = int(rng.integers(2, 5))
    mode = gen.pick(rng, ['often', 'some', 'some', 'rare', 'free', 'free'])
    style_of = gen.pick(rng, ['same', 'same', 'mixed', 'mixed', 'mixed'])
    seed = int(rng.integers(2**31))
    menu = [requests(rng, dim, data, ss['reflect'], None) for ss in specs]
    if dim > 2:
        menu = [[mm for mm in mnu if mm[0] != 'cdf'] for mnu in menu]
    plan = []
    if style_of == 'same':
        # every thread asks for the same thing first, of the same object
        jj = int(rng.integers(nkde))
        first = gen.pick(rng, [mm for mm in menu[jj] if mm[0] in ('cdf', 'points', 'default', 'default-pdf', 'density', 'params')])
        plan = [[(jj, first)] for _ in range(nthr)]
    else:
        plan = [[] for _ in range(nthr)]
    for tt in range(nthr):
        for _ in range(int(rng.integers(1, 5))):
            jj = int(rng.integers(nkde))
            if rng.random() < 0.12:
                (name, func), size = draws(rng, dim, data, specs[jj]['reflect'])
                plan[tt].append((jj, (name, func, size)))
            else:
                plan[tt].append((jj, gen.pick(rng, menu[jj])))
    ctx.note(dim=dim, num=num, data=style, kdes=nkde, threads=nthr, mode=mode, same=style_of, names=[[it[1][0] for it in pp] for pp in plan])
    ctx.state('shared', mode, style_of, nthr, dim)
    # sequential oracle, each on a fresh object (and everything is compiled)
    want = []
    for row in plan:
        vals = []
        for jj, item in row:
            fresh = c19.build(c19.deep(specs[jj]), data.copy(), c19.deep(ww))
            state = np.random.get_state()
            try:
                vals.append(('ok', c19.deep(item[1](fresh))))
            except Exception as err:    # noqa
                vals.append(('raised', repr(err)[:200]))
            np.random.set_state(state)
        want.append(vals)
    kdes = [c19.build(c19.deep(ss), data, ww) for ss in specs]
    works = [[(lambda jj=jj, item=item: item[1](kdes[jj])) for jj, item in row] for row in plan]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = run_threads(ctx, works, mode, seed)
    for tt, row in enumerate(plan):
        for (jj, item), one, two in zip(row, got[tt], want[tt]):
            judge(ctx, item, one, two, data, specs[jj], mode, nthr)
    # the shared objects are sound afterwards
    for jj, kde in enumerate(kdes):
        item = gen.pick(rng, menu[jj])
        fresh = c19.build(c19.deep(specs[jj]), data.copy(), c19.deep(ww))
        ctx.check(c19.same_result(item[1](kde), item[1](fresh)), 'afterwards', what=item[0], mode=mode)


def close_result(one, two):
    fa, fb = c19.flatten_result(one), c19.flatten_result(two)
    if len(fa) != len(fb):
        return False
    for xx, yy in zip(fa, fb):
        if xx.shape != yy.shape:
            return False
        top = np.max(np.abs(yy), initial=0.0)
        if not np.all((np.abs(xx - yy) <= 1e-12 * top) | (xx == yy) | (np.isnan(xx) & np.isnan(yy))):
            return False
    return True


def judge(ctx, item, one, two, data, spec, mode, nthr):
    name = item[0]
    if name in ('draw', 'keep'):
        ok = one[0] == two[0]
        if ok and one[0] == 'ok':
            res = np.atleast_2d(np.asarray(one[1], dtype=float))
            ok = res.shape == (len(data), item[2]) and np.all(np.isfinite(res))
            if ok and name == 'keep':
                ok = np.all(np.isin(res[0], data[0]))
            if ok and name == 'draw' and spec['reflect'] is not None:
                for rr, vals in zip(spec['reflect'], res):
                    if rr is not None:
                        ok = ok and (rr[0] is None or np.all(vals >= rr[0])) and (rr[1] is None or np.all(vals <= rr[1]))
        ctx.check(ok, 'draws-valid', what=name, got=one[1] if one[0] == 'raised' else 'values', mode=mode, threads=nthr)
        return
    if one[0] != two[0]:
        ctx.check(False, 'value', what=name, got=one[1], want=two[1], mode=mode, threads=nthr)
    elif one[0] == 'ok':
        ctx.check(close_result(one[1], two[1]), 'value', what=name, mode=mode, threads=nthr)


def case_helpers(ctx):
    """Helpers and grids used from several threads (each on its own arguments)."""
    rng = ctx.rng
    nthr = int(rng.integers(2, 5))
    mode = gen.pick(rng, ['often', 'some', 'rare', 'free'])
    seed = int(rng.integers(2**31))
    works, names = [], []
    for _ in range(nthr):
        row, nms = [], []
        for _ in range(int(rng.integers(2, 6))):
            name = gen.pick(rng, ['quantiles', 'trapz', 'cumtrapz', 'cumsum', 'edges', 'histogram', 'midpoints', 'centroids', 'sample', 'outliers', 'minmax', 'spacing'])
            vals = rng.normal(size=int(rng.integers(8, 40)))
            ww = rng.uniform(0.1, 2, size=vals.size)
            gdim = int(rng.integers(1, 4))
            edges = c13.make_edges(rng, gdim, most=6, least=3)
            dens = rng.uniform(0.1, 2, size=[ee.size for ee in edges])
            size = int(rng.integers(5, 60))
            func = {
                'quantiles': lambda v=vals, w=ww: utils.quantiles(v, [0.1, 0.5, 0.8], weights=w),
                'trapz': lambda e=edges, d=dens: utils.trapz_nd(d, e),
                'cumtrapz': lambda e=edges, d=dens: utils.cumtrapz(d, e),
                'cumsum': lambda d=dens: utils.cumsum(d),
                'edges': lambda v=vals, w=ww: utils.parse_edges(v, weights=w),
                'histogram': lambda v=vals, w=ww: utils.histogram(v, weights=w, bins=7)[0],
                'midpoints': lambda d=dens: utils.midpoints(d, axis=0),
                'centroids': lambda e=edges, d=dens: utils.centroids(e, d),
                'sample': lambda e=edges, d=dens, s=size: ('grid', e, s, kale.sample_grid(e, d, s)),
                'outliers': lambda e=edges, d=dens: ('outliers', e, None, kale.sample_outliers(e, d * 20, 4.0)),
                'minmax': lambda v=vals: utils.minmax(v, stretch=0.2),
                'spacing': lambda v=vals: utils.spacing(v, 'lin', num=9),
            }[name]
            row.append(func)
            nms.append(name)
        works.append(row)
        names.append(nms)
    ctx.note(threads=nthr, mode=mode, names=names)
    ctx.state('helpers', mode, nthr)
    state = np.random.get_state()
    want = [[func() for func in row] for row in works]
    np.random.set_state(state)
    got = run_threads(ctx, works, mode, seed)
    for row_n, row_g, row_w in zip(names, got, want):
        for name, (stat, res), two in zip(row_n, row_g, row_w):
            if stat != 'ok':
                ctx.check(False, 'helper-value', what=name, got=res, mode=mode)
            elif name in ('sample', 'outliers'):
                _, edges, size, draw = res
                pts = np.atleast_2d(draw[0] if isinstance(draw, tuple) else draw)
                ok = pts.shape[0] == len(edges) and (size is None or pts.shape[1] == size)
                ok = ok and all(np.all((pp >= ee[0]) & (pp <= ee[-1])) for pp, ee in zip(pts, edges))
                ctx.check(ok, 'draws-valid', what=name, mode=mode)
            else:
                ctx.check(close_result(res, two), 'helper-value', what=name, mode=mode)


def places_of(func):
    """Lines of kalepy executed by one call, with the number of times of each."""
    seen = {}

    def local(frame, what, arg):
        if what == 'line':
            key = (frame.f_code.co_filename, frame.f_lineno)
            seen[key] = seen.get(key, 0) + 1
        return local

    def call(frame, what, arg):
        return local if frame.f_code.co_filename.startswith(FILES) else None

    sys.settrace(call)
    try:
        func()
    finally:
        sys.settrace(None)
    return seen


def case_first(ctx):
    """One thread is preempted at a chosen line of its (first) evaluation, others run to their end meanwhile."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 1, 2])
    num = int(rng.integers(15, 50))
    data = gen.dataset(rng, dim, num, gen.pick(rng, ['normal', 'clusters', 'lognormal', 'offset']))
    ww = gen.weights(rng, num, gen.pick(rng, ['none', 'uniform']))
    if not gen.well_conditioned(data, ww):
        raise Skip
    spec = c19.make_spec(rng, dim, num, data, ww)
    if dim == 2:
        spec['points'] = int(rng.integers(5, 12))
    menu = requests(rng, dim, data, spec['reflect'], None)
    lazy = [mm for mm in menu if mm[0] in ('cdf', 'points', 'default', 'default-pdf')]
    item = gen.pick(rng, lazy) if rng.random() < 0.7 else gen.pick(rng, menu)
    used = gen.pick(rng, [None, None, gen.pick(rng, menu)])

    def make():
        kde = c19.build(c19.deep(spec), data, ww)
        if used is not None:
            used[1](kde)
        return kde

    def oracle(it):
        return ('ok', c19.deep(it[1](c19.build(c19.deep(spec), data.copy(), c19.deep(ww)))))

    want = oracle(item)
    twin = make()
    seen = places_of(lambda: item[1](twin))
    places = sorted(seen)
    core = [pp for pp in places if pp[0].endswith('kde.py')]
    ctx.note(dim=dim, num=num, weighted=spec['weighted'], what=item[0], used=None if used is None else used[0], lines=len(places))
    ctx.state('first', item[0], dim, None if used is None else used[0])
    ctx.count('lines_known', len(places))
    trials = [pp for pp in core] if len(core) <= 40 else [core[ii] for ii in rng.permutation(len(core))[:40]]
    rest = [pp for pp in places if pp not in core]
    trials += [rest[ii] for ii in rng.permutation(len(rest))[:40 if ctx.thorough else 12]]
    for place in trials:
        other = item if rng.random() < 0.5 else gen.pick(rng, menu)
        rows = [[item], [other]]
        if rng.random() < 0.3:
            rows.append([gen.pick(rng, menu)])
        if rng.random() < 0.5:
            rows[0] = rows[0] + [item]
        wants = [[want if it is item else oracle(it) for it in row] for row in rows]
        kde = make()
        occ = 1 if rng.random() < 0.6 else int(rng.integers(1, seen[place] + 1))
        targets = {0: [place, occ]}
        if rng.random() < 0.4:
            # the other one is preempted as well
            targets[1] = [gen.pick(rng, core or places), 1]
        got = run_threads(ctx, [[(lambda it=it: it[1](kde)) for it in row] for row in rows], 'chosen', int(rng.integers(2**31)), targets)
        for row, one, two in zip(rows, got, wants):
            for it, aa, bb in zip(row, one, two):
                judge(ctx, it, aa, bb, data, spec, 'chosen', len(rows))
    # free-running, all at once
    for _ in range(3):
        nthr = int(rng.integers(2, 6))
        kde = make()
        for row in run_threads(ctx, [[lambda: item[1](kde)] for _ in range(nthr)], 'free', 0):
            for one in row:
                judge(ctx, item, one, want, data, spec, 'free', nthr)


KINDS = {'shared': (case_shared, 120, 1500), 'helpers': (case_helpers, 60, 700), 'first': (case_first, 64, 800)}
