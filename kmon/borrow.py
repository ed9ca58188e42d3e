"""Cases of other checks as workloads: their calls are made, with monitors of ours watching, and their verdicts ignored."""
import importlib

import matplotlib.pyplot as plt
import numpy as np

from .core import CaseHang, Ctx, Infra, Skip

# (no processes, threads, signals, changed settings, measurements, or injected faults)
MODULES = ['c{:02d}'.format(ii) for ii in range(1, 35) if ii not in (19, 22, 23, 24, 27, 30, 31, 33)]


class _Deaf:
    """Stands in for the tap: monitors of the borrowed case are not asked."""

    def watch(self, monitor):
        pass


def options(modules=MODULES):
    """(module, kind, weight)"""
    out = []
    for name in modules:
        mod = importlib.import_module('kmon.props.' + name)
        total = sum(vv[1] for vv in mod.KINDS.values())
        out += [(name, kind, vv[1] / total) for kind, vv in mod.KINDS.items()]
    return out


def run(ctx, modules=MODULES):
    """One random case of another check; what its own oracle says is not used."""
    opts = options(modules)
    weights = np.array([oo[2] for oo in opts])
    name, kind, _ = opts[int(ctx.rng.choice(len(opts), p=weights / weights.sum()))]
    index = int(ctx.rng.integers(10**6))
    mod = importlib.import_module('kmon.props.' + name)
    other = Ctx(name.upper(), kind, index, ctx.seed, 'quick')
    other.tap = _Deaf()
    ctx.note(borrowed=name, workload=kind, number=index, **{'of_' + kk: vv for kk, vv in list(other.desc.items())[:4]})
    ctx.state(name, kind)
    try:
        with np.errstate(all='ignore'):
            mod.KINDS[kind][0](other)
    except (CaseHang, Infra, MemoryError, KeyboardInterrupt):
        raise
    except Skip:
        ctx.count('borrowed_skipped')
    except Exception:   # noqa  -- for the check of that property to judge
        ctx.count('borrowed_error')
    finally:
        plt.close('all')
    ctx.count('borrowed_calls', sum(vv for kk, vv in ctx.counts.items() if kk.startswith('event:')))
    return name, kind
