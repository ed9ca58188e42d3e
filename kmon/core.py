"""Case loop, verdicts, evidence and replay files shared by every check.

A property module (`kmon/props/cXX.py`) provides

    TITLE, RULE, LEVEL_NOTE, ASSUMPTIONS
    KINDS = {kind: (run_case, n_quick, n_thorough), ...}

Each `run_case(ctx)` drives the real kalepy with inputs drawn from `ctx.rng` and reports what the
oracle saw with `ctx.check(...)`.  A case is a pure function of (seed, property, kind, index), which
is all a replay file needs.
"""
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('KMON_NPROC', 0)) or min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 300          # seconds of one case before it counts as not terminating
RUN_TIMEOUT = 840           # seconds before the run gives up (error, no verdict)


class CaseHang(Exception):
    pass


class Infra(Exception):
    """The check itself could not run: no verdict."""


class Skip(Exception):
    """The drawn input is outside of the property's domain."""


def jsonable(x, depth=0):
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, np.ndarray):
        if x.size <= 24:
            return jsonable(x.tolist(), depth + 1)
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': jsonable(x.ravel()[:6].tolist())}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > 24 or depth > 4:
            return {'len': len(x), 'head': [jsonable(v, depth + 1) for v in list(x)[:6]]}
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:200]


class Ctx:
    """One case: its random stream, and what the monitors observed in it."""

    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index, self.seed, self.tier = prop, kind, index, seed, tier
        key = [seed & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), index]
        self.rng = np.random.default_rng(key)
        # the code under test draws from numpy's global stream
        np.random.seed(np.random.SeedSequence(key).generate_state(4))
        self.violations = []
        self.counts = Counter()
        self.states = set()
        self.desc = {}
        self.nontrivial = True

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def note(self, **kw):
        """Describe the case (for evidence samples, replay files and distinctness)."""
        self.desc.update({k: jsonable(v) for k, v in kw.items()})

    def state(self, *parts):
        self.states.add('|'.join(str(p) for p in parts))

    def count(self, name, num=1):
        self.counts[name] += int(num)

    def check(self, ok, key, **detail):
        """One verdict of the oracle.  `key` names what failed (the mechanism), never the input."""
        self.counts['verdicts'] += 1
        self.counts['verdict:' + key] += 1
        if not bool(ok):
            if sum(v['key'] == key for v in self.violations) < 3:
                self.violations.append(dict(key=key, detail=jsonable(detail)))
        return bool(ok)

    def close(self, got, want, key, rtol=1e-7, atol=0.0, **detail):
        """Elementwise agreement of an observed array with the oracle's."""
        want = np.asarray(want, dtype=float)
        try:
            got = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            return self.check(False, key, got=repr(got)[:200], want=want, **detail)
        if got.shape != want.shape:
            return self.check(False, key, got_shape=list(got.shape), want_shape=list(want.shape), **detail)
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
            tol = atol + rtol * np.abs(want)
            bad = ~((err <= tol) | (got == want))
        self.count('values_compared', want.size)
        if not bad.any():
            return self.check(True, key)
        worst = int(np.argmax(np.where(bad, np.where(np.isfinite(err), err / np.maximum(tol, 1e-300), np.inf), -1.0)))
        return self.check(False, key, nbad=int(bad.sum()), size=int(want.size), at=worst,
                          got=float(got.ravel()[worst]), want=float(want.ravel()[worst]), **detail)

    def raises(self, func, key, types=(Exception,), **detail):
        """`func()` must raise one of `types`."""
        try:
            rv = func()
        except types as err:
            self.count('rejections')
            return self.check(True, key), err
        except CaseHang:
            raise
        except Exception as err:    # noqa
            return self.check(False, key, raised=repr(err)[:200], wanted=[t.__name__ for t in types], **detail), err
        return self.check(False, key, returned=repr(rv)[:200], **detail), None


def _alarm(signum, frame):
    raise CaseHang('case did not finish within {} s'.format(CASE_TIMEOUT))


def run_case(mod, prop, kind, index, seed, tier, tap=None):
    func = mod.KINDS[kind][0]
    ctx = Ctx(prop, kind, index, seed, tier)
    if tap is not None:
        tap.begin(ctx)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        with np.errstate(all='ignore'):
            func(ctx)
    except Skip:
        ctx.nontrivial = False
        ctx.counts['skipped'] += 1
    except (Infra, MemoryError, KeyboardInterrupt):
        raise
    except CaseHang as err:
        ctx.check(False, 'hang', error=str(err), where=traceback.format_exc()[-1500:])
    except OSError as err:
        raise Infra(repr(err))
    except Exception as err:    # noqa  -- valid use of the code under test never raises
        ctx.check(False, 'exception:{}:{}'.format(kind, type(err).__name__),
                  error=repr(err)[:300], where=traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        if tap is not None:
            tap.end()
    ctx.counts['cases'] += 1
    ctx.wall = time.time() - t0
    return ctx


def _shard(mod, prop, jobs, seed, tier, out, tap):
    with open(out, 'w') as ff:
        for kind, index in jobs:
            ff.write(json.dumps(dict(start=[kind, index])) + '\n')
            ff.flush()
            try:
                ctx = run_case(mod, prop, kind, index, seed, tier, tap)
            except (Infra, MemoryError) as err:
                ff.write(json.dumps(dict(infra=repr(err)[:500], where=traceback.format_exc()[-2000:])) + '\n')
                continue
            rec = dict(kind=kind, index=index, violations=ctx.violations, counts=dict(ctx.counts),
                       states=sorted(ctx.states), desc=ctx.desc, nontrivial=ctx.nontrivial, wall=ctx.wall)
            ff.write(json.dumps(rec) + '\n')
            ff.flush()


def run_jobs(mod, prop, jobs, seed, tier, tap, nproc):
    """Run the jobs in `nproc` forked processes; a child that dies of a signal is itself an observation."""
    work = tempfile.mkdtemp(prefix='kmon-')
    recs, infra, crashes = [], [], []
    try:
        shards = [jobs[ii::nproc] for ii in range(nproc)]
        shards = [ss for ss in shards if ss]
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for ii, ss in enumerate(shards):
            out = os.path.join(work, 'shard{}.jsonl'.format(ii))
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    err = os.open(os.path.join(work, 'shard{}.err'.format(ii)), os.O_WRONLY | os.O_CREAT, 0o600)
                    os.dup2(err, 1)
                    os.dup2(err, 2)
                    _shard(mod, prop, ss, seed, tier, out, tap)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (ii, out)
        deadline = time.time() + (RUN_TIMEOUT if tier == 'quick' else 6 * 3600)
        status = {}
        while len(status) < len(pids):
            for pid in pids:
                if pid in status:
                    continue
                done, st = os.waitpid(pid, os.WNOHANG)
                if done:
                    status[pid] = st
            if time.time() > deadline:
                for pid in pids:
                    if pid not in status:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        status[pid] = None
                infra.append('run did not finish in time')
                break
            time.sleep(0.02)
        for pid, (ii, out) in pids.items():
            last = None
            if os.path.exists(out):
                for line in open(out):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in rec:
                        last = rec['start']
                    elif 'infra' in rec:
                        infra.append(rec['infra'] + rec.get('where', ''))
                    else:
                        recs.append(rec)
                        last = None
            st = status[pid]
            if st is None:
                continue
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                crashes.append((last, signal.Signals(os.WTERMSIG(st)).name))
            elif st != 0:
                msg = 'shard {} ended with status {}'.format(ii, st)
                err = os.path.join(work, 'shard{}.err'.format(ii))
                if os.path.exists(err):
                    msg += ': ' + open(err).read()[-2000:]
                infra.append(msg)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for last, name in crashes:
        kind, index = last if last else ('?', -1)
        recs.append(dict(kind=kind, index=index, counts={'cases': 1}, states=[], desc={}, nontrivial=True, wall=0.0,
                         violations=[dict(key='native-crash', detail=dict(signal=name))]))
    return recs, infra
