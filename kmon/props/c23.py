"""C23: the compiled evaluation stays inside of its arrays, and agrees with the interpreted code."""
import ctypes
import mmap
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
import kalepy as kale

from .. import gen, ref
from ..core import Infra

RULE = ("the same seeded workload (shapes, dtypes, memory layouts, sub-dimensions, reflections, malformed shapes) runs in three builds of the real code: compiled as "
        "delivered with arrays placed against protected guard pages, compiled with numba's bounds checks, and interpreted; an out-of-bounds access is a crash, an "
        "IndexError, or a difference in values (also between arrays embedded in poisoned and in clean memory)")
ASSUMPTIONS = ["agreement to 1e-9 relative (the builds use different exponential functions)", "accepted means accepted by the compiled code"]
MIN_VERDICTS = {'bounds': 500, 'interpreted': 300, 'poison': 60}

PAGE = mmap.PAGESIZE
_keep = []

DTYPES = ['f8', 'f4', 'i8', 'i4', 'u1', 'b1']
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'readonly', 'guard-end', 'guard-start', 'transposed', 'broadcast']


def _mprotect():
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    return libc.mprotect


def guarded(arr, end=True):
    """A copy of the array directly before (after) an inaccessible page."""
    arr = np.ascontiguousarray(arr)
    size = max(arr.nbytes, 1)
    pages = -(-size // PAGE)
    mem = mmap.mmap(-1, (pages + 2) * PAGE)
    base = ctypes.addressof(ctypes.c_char.from_buffer(mem))
    offset = PAGE + (pages * PAGE - arr.nbytes if end else 0)
    out = np.frombuffer(mem, dtype=arr.dtype, count=arr.size, offset=offset).reshape(arr.shape)
    out[...] = arr
    prot = _mprotect()
    for beg in (base, base + (pages + 1) * PAGE):
        if prot(beg, PAGE, 0) != 0:
            raise Infra('mprotect failed')
    _keep.append((mem, out))
    return out


def release():
    prot = _mprotect()
    for mem, out in _keep:
        base = ctypes.addressof(ctypes.c_char.from_buffer(mem))
        prot(base, PAGE, 3)
        prot(base + len(mem) - PAGE, PAGE, 3)
    _keep.clear()


def lay(arr, layout):
    if layout == 'F':
        return np.asfortranarray(arr)
    if layout == 'strided':
        big = np.full(arr.shape[:-1] + (3 * arr.shape[-1] + 2,), 1, dtype=arr.dtype)
        if arr.dtype.kind == 'f':
            big[...] = np.nan
        view = big[..., 1:1 + 3 * arr.shape[-1]:3]
        view[...] = arr
        return view
    if layout == 'reversed':
        return arr[..., ::-1].copy()[..., ::-1]
    if layout == 'readonly':
        arr = arr.copy()
        arr.setflags(write=False)
        return arr
    if layout == 'guard-end':
        return guarded(arr, True)
    if layout == 'guard-start':
        return guarded(arr, False)
    if layout == 'transposed':
        return np.ascontiguousarray(arr.T).T
    if layout == 'broadcast' and arr.ndim == 1:
        return np.broadcast_to(arr[:1], arr.shape)
    return arr.copy()


def cast(arr, dtype):
    if dtype in ('u1', 'b1'):
        arr = np.abs(arr) * 10
    if dtype == 'b1':
        return arr > np.median(arr)
    if dtype[0] in 'iu':
        return np.round(arr * 5).astype(dtype)
    return arr.astype(dtype)


COMBOS = []
for _ii in range(512):
    _rng = np.random.default_rng(_ii)
    COMBOS.append(dict(kernel=ref.KERNELS[_ii % 4], data=(gen.pick(_rng, DTYPES[:5]), gen.pick(_rng, LAYOUTS[:-1])),
                       points=(gen.pick(_rng, DTYPES), gen.pick(_rng, LAYOUTS[:-1])), weights=(gen.pick(_rng, DTYPES), gen.pick(_rng, LAYOUTS))))


def outcome(label, func):
    try:
        res = func()
    except (Infra, MemoryError):
        raise
    except Exception as err:    # noqa
        return (label, 'raised', type(err).__name__)
    if isinstance(res, tuple):
        res = res[1]
    return (label, 'ok', np.array(res, dtype=float))


def inputs(rng, combo, dims=(1, 2, 2, 3, 4), plain=False):
    dim = gen.pick(rng, dims)
    num = int(gen.pick(rng, [dim + 3, 20, 64, 257]))
    npts = int(gen.pick(rng, [1, 2, 7, 33, 100]))
    data = cast(rng.normal(size=(dim, num)), combo['data'][0])
    pts = cast(rng.normal(size=(dim, npts)), combo['points'][0])
    ww = None
    if rng.random() < 0.7:
        ww = cast(rng.uniform(0.3, 2.0, size=num), combo['weights'][0])
        if not np.any(ww[:1]):
            ww[:] = np.ones(num)
    if not plain:
        data, pts = lay(data, combo['data'][1]), lay(pts, combo['points'][1])
        ww = ww if ww is None else lay(ww, combo['weights'][1])
    return dim, num, npts, data, pts, ww


def workload_values(key):
    """Accepted calls of every shape."""
    rng = np.random.default_rng(key)
    combo = COMBOS[key[0] % len(COMBOS)]
    dim, num, npts, data, pts, ww = inputs(rng, combo)
    out = []
    kernel = combo['kernel']
    bw = float(rng.uniform(0.4, 1.2))
    cov = np.diag(rng.uniform(0.5, 2.0, size=dim)) if rng.random() < 0.4 else None
    try:
        kde = kale.KDE(data, weights=ww, kernel=kernel, bandwidth=bw, covariance=cov)
    except Exception as err:    # noqa
        return [('construct', 'raised', type(err).__name__)]
    out.append(outcome('density', lambda: kde.density(pts)))
    out.append(outcome('pdf', lambda: kde.pdf(pts)))
    out.append(outcome('empty', lambda: kde.density(pts[:, :0])))
    out.append(outcome('kernel', lambda: kde.kernel.density(pts, data, ww)))
    if dim > 1:
        size = int(rng.integers(1, dim))
        par = [int(pp) for pp in rng.permutation(dim)[:size]]
        out.append(outcome('params', lambda: kde.density(pts[par], params=par)))
        out.append(outcome('params-kernel', lambda: kde.kernel.density(pts[par], data[par], ww, params=par)))
        axes = [pts[jj, :4] for jj in range(min(dim, 2))]
        out.append(outcome('grid', lambda: kde.density(axes, params=[0, 1][:len(axes)], grid=True)))
    else:
        out.append(outcome('flat', lambda: kde.density(pts[0])))
        out.append(outcome('flat-data', lambda: kale.KDE(data[0], weights=ww, kernel=kernel, bandwidth=bw).density(pts[0])))
    lim = [[float(np.min(dd)) - 0.1, float(np.max(dd)) + 0.1] for dd in data]
    if rng.random() < 0.5:
        lim[0] = [None, lim[0][1]]
    if dim > 1 and rng.random() < 0.5:
        lim[-1] = None
    out.append(outcome('reflect', lambda: kde.density(pts, reflect=lim)))
    out.append(outcome('points', lambda: kde.density(params=0)))
    out.append(outcome('distribution', lambda: kde.kernel.distribution.evaluate(np.asarray(pts, dtype=float))))
    return out


def workload_hostile(key):
    """Malformed shapes, which must be rejected or stay inside."""
    rng = np.random.default_rng(key)
    combo = COMBOS[key[0] % len(COMBOS)]
    dim, num, npts, data, pts, ww = inputs(rng, combo, dims=(1, 2, 3))
    ww = np.linspace(1, 2, num) if ww is None else ww
    kde = kale.KDE(np.array(data, dtype=float), weights=np.array(ww, dtype=float), kernel=combo['kernel'], bandwidth=0.8, covariance=np.eye(dim))
    kern = kde.kernel
    more = np.vstack([data, data[:1]])
    calls = dict(
        points_less=lambda: kern.density(pts[:-1], data, ww), points_more=lambda: kern.density(np.vstack([pts, pts]), data, ww),
        data_more=lambda: kern.density(pts, more, ww), data_less=lambda: kern.density(pts, data[:-1], ww),
        both_more=lambda: kern.density(np.vstack([pts, pts[:1]]), more, ww), both_less=lambda: kern.density(pts[:-1], data[:-1], ww),
        weights_short=lambda: kern.density(pts, data, ww[:-1]), weights_long=lambda: kern.density(pts, data, np.append(ww, 1.0)),
        weights_one=lambda: kern.density(pts, data, ww[:1]), weights_2d=lambda: kern.density(pts, data, ww[None, :]),
        weights_scalar=lambda: kern.density(pts, data, 1.0), weights_empty=lambda: kern.density(pts, data, ww[:0]),
        data_flipped=lambda: kern.density(pts, data.T, ww), points_flipped=lambda: kern.density(pts.T, data, ww),
        data_empty=lambda: kern.density(pts, data[:, :0], ww[:0]), no_weights=lambda: kern.density(pts, data[:, :2]),
        params_long=lambda: kern.density(pts, data, ww, params=list(range(dim + 1))), params_far=lambda: kern.density(pts[:1], data[:1], ww, params=[dim]),
        params_negative=lambda: kern.density(pts[:1], data[-1:], ww, params=[-1]), params_mismatch=lambda: kern.density(pts[:1], data, ww, params=[0]),
        params_data=lambda: kern.density(pts, data[:1], ww, params=list(range(dim))), points_3d=lambda: kern.density(pts[None], data, ww),
        points_flat=lambda: kern.density(pts[0], data, ww), points_scalar=lambda: kern.density(0.5, data, ww),
        reflect_less=lambda: kern.density(pts, data, ww, reflect=[[-9, 9]] * (dim - 1)), reflect_more=lambda: kern.density(pts, data, ww, reflect=[[-99, 99]] * (dim + 1)),
        kde_less=lambda: kde.density(pts[:-1]), kde_more=lambda: kde.density(np.vstack([pts, pts])), kde_flipped=lambda: kde.density(pts.T),
        kde_params=lambda: kde.density(pts, params=[0]), kde_params_far=lambda: kde.density(pts[:1], params=[dim + 3]),
        kde_grid=lambda: kde.density([pts[0]] * (dim + 1), grid=True), kde_repeat=lambda: kde.density(np.vstack([pts[:1]] * 2), params=[0, 0]),
    )
    names = sorted(calls)
    rng.shuffle(names)
    return [outcome(name, calls[name]) for name in names[:12]]


WORK = dict(values=workload_values, hostile=workload_hostile)


# ---- The other builds

def serve():
    """Main loop of a worker: (name, key) requests on stdin, outcomes on stdout."""
    import numba
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    out.write(struct.pack('<q', 1))
    info = pickle.dumps(dict(boundscheck=repr(numba.config.BOUNDSCHECK), disabled=bool(numba.config.DISABLE_JIT), file=kale.__file__))
    out.write(struct.pack('<q', len(info)) + info)
    out.flush()
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        name, key = pickle.loads(inp.read(struct.unpack('<q', head)[0]))
        try:
            with np.errstate(all='ignore'):
                res = WORK[name](key)
        except Exception as err:    # noqa
            res = [('workload', 'raised', repr(err)[:300])]
        release()
        blob = pickle.dumps(res)
        out.write(struct.pack('<q', len(blob)) + blob)
        out.flush()


class Worker:

    def __init__(self, mode):
        env = dict(os.environ, KALEPY_REPO=os.path.dirname(os.path.dirname(os.path.realpath(kale.__file__))))
        env['NUMBA_BOUNDSCHECK' if mode == 'bounds' else 'NUMBA_DISABLE_JIT'] = '1'
        self.mode = mode
        code = 'from kmon import cli; cli.import_kalepy(); from kmon.props import c23; c23.serve()'
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        self.proc.stdout.read(8)
        self.info = self._read()
        if self.info is None:
            raise Infra('worker ({}) did not start'.format(mode))
        if os.path.realpath(self.info['file']) != os.path.realpath(kale.__file__):
            raise Infra('worker ({}) uses {}'.format(mode, self.info['file']))
        if (mode == 'bounds' and self.info['boundscheck'] not in ('1', 'True')) or (mode == 'nojit' and not self.info['disabled']):
            raise Infra('worker ({}) has the wrong build: {}'.format(mode, self.info))

    def _read(self):
        head = self.proc.stdout.read(8)
        if len(head) < 8:
            return None
        return pickle.loads(self.proc.stdout.read(struct.unpack('<q', head)[0]))

    def ask(self, name, key):
        blob = pickle.dumps((name, key))
        self.proc.stdin.write(struct.pack('<q', len(blob)) + blob)
        self.proc.stdin.flush()
        res = self._read()
        if res is None:
            code = self.proc.wait()
            raise WorkerDied(self.mode, code)
        return res


class WorkerDied(Exception):
    pass


_workers = {}


def worker(mode):
    if mode not in _workers or _workers[mode][0] != os.getpid():
        _workers[mode] = (os.getpid(), Worker(mode))
    return _workers[mode][1]


def compare(ctx, name, key, combo):
    base = WORK[name](key)
    release()
    for mode, label in (('bounds', 'bounds'), ('nojit', 'interpreted')):
        try:
            other = worker(mode).ask(name, key)
        except WorkerDied as err:
            _workers.pop(mode, None)
            if err.args[1] < 0:
                ctx.check(False, 'native-crash', build=mode, code=err.args[1], combo=combo)
                continue
            raise Infra('worker ({}) ended with {}'.format(*err.args))
        ctx.count('outcomes:' + mode, len(other))
        if not ctx.check(len(base) == len(other), label, got=[oo[:2] for oo in other], want=[bb[:2] for bb in base], combo=combo):
            continue
        for (what, st, val), (what2, st2, val2) in zip(base, other):
            if st == 'raised' and st2 == 'raised':
                ctx.count('rejected')
                if mode == 'bounds':
                    ctx.check(val == val2, label, call=what, got=val2, want=val, combo=combo)
                continue
            if st == 'raised' and mode == 'nojit':
                ctx.count('rejected-compiled-only')
                continue
            if not ctx.check(st == st2, label, call=what, got=[st2, val2], want=[st, val if st == 'raised' else 'values'], combo=combo):
                continue
            ok = val.shape == val2.shape
            if ok:
                top = np.nanmax(np.abs(val)) if val.size else 1.0
                diff = np.abs(val - val2) <= 1e-9 * np.abs(val) + 1e-300
                if combo['kernel'] != 'gaussian':
                    diff |= np.abs(val - val2) <= 1e-12 * top
                diff |= (np.isnan(val) & np.isnan(val2)) | (val == val2)
                if combo['kernel'] == 'box':
                    # positions exactly at the edge of a kernel
                    diff |= (np.abs(val - val2) <= 0.3 * top) & (np.mean(diff) > 0.9)
                ok = bool(np.all(diff))
            ctx.count('values', val.size)
            ctx.check(ok, label, call=what, got=val2, want=val, combo=combo)
    return base


def case_values(ctx):
    combo = COMBOS[ctx.index % len(COMBOS)]
    key = [ctx.index, int(ctx.rng.integers(2**31))]
    ctx.note(combo=ctx.index, **{kk: '/'.join(vv) if isinstance(vv, tuple) else vv for kk, vv in combo.items()})
    for kk in ('data', 'points', 'weights'):
        ctx.state(combo['kernel'], kk, *combo[kk])
    base = compare(ctx, 'values', key, combo)
    if base and base[0][0] == 'construct':
        ctx.nontrivial = False


def case_hostile(ctx):
    combo = COMBOS[ctx.index % len(COMBOS)]
    key = [ctx.index, int(ctx.rng.integers(2**31))]
    ctx.note(combo=ctx.index, **{kk: '/'.join(vv) if isinstance(vv, tuple) else vv for kk, vv in combo.items()})
    base = compare(ctx, 'hostile', key, combo)
    for what, st, val in base:
        ctx.state('hostile', what, st if st == 'ok' else val)


def embed(rng, arr, fill):
    """The array as a window of a larger one."""
    before, after = int(rng.integers(1, 4)), int(rng.integers(1, 9))
    big = np.full([nn + before + after for nn in arr.shape], fill)
    sl = tuple(slice(before, before + nn) for nn in arr.shape)
    big[sl] = arr
    return big[sl]


def case_poison(ctx):
    """Values do not depend on the memory around of the arrays."""
    rng = ctx.rng
    dim = gen.pick(rng, [1, 2, 3, 4])
    num, npts = int(gen.pick(rng, [6, 17, 64])), int(gen.pick(rng, [1, 8, 40]))
    data, pts, ww = rng.normal(size=(dim, num)), rng.normal(size=(dim, npts)), rng.uniform(0.5, 2, size=num)
    kernel = gen.pick(rng, ref.KERNELS)
    reflect = None
    if rng.random() < 0.4:
        reflect = [[dd.min() - 0.2, None] for dd in data]
    par = [int(pp) for pp in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]
    ctx.note(dim=dim, num=num, points=npts, kernel=kernel, reflect=reflect is not None, params=par)
    ctx.state('poison', kernel, dim, reflect is not None)
    seed = int(rng.integers(2**31))
    res = []
    for fill in (0.0, np.nan, 1e300):
        sub = np.random.default_rng(seed)
        dd, pp, wt = embed(sub, data, fill), embed(sub, pts, fill), embed(sub, ww, fill)
        kde = kale.KDE(dd, weights=wt, kernel=kernel, bandwidth=0.7, covariance=np.eye(dim), reflect=reflect)
        res.append([np.array(kde.density(pp)[1]), np.array(kde.density(pp[par], params=par)[1]),
                    np.array(kde.kernel.density(pp, dd, wt, reflect=reflect))])
    for other in res[1:]:
        for aa, bb in zip(res[0], other):
            ctx.count('values', aa.size)
            ctx.check(np.array_equal(aa, bb), 'poison', got=bb, want=aa, kernel=kernel)
    for aa in res[0]:
        ctx.check(np.all(np.isfinite(aa)), 'poison', got=aa, kernel=kernel)


QUICK = 1      # (factor of the numbers of cases of the quick tier: these take longer)

KINDS = {
    'values': (case_values, 64, 512),
    'hostile': (case_hostile, 64, 768),
    'poison': (case_poison, 80, 2000),
}
