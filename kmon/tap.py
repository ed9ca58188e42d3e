"""Instrumentation of kalepy's public API: every call is an event, seen by the online monitors.

`Tap.install()` wraps the public entry points at runtime (nothing in /repo is changed).  For every
call the tap records an event, and asks each monitor registered by the running check for a verdict.
A monitor is `monitor(ctx, event)`, with `event` a dict: name, args, kwargs, result, error, obj,
rng_before, rng_after.
"""
import functools

import numpy as np

TARGETS = {
    'kde.KDE': ['__init__', 'density', 'pdf', 'cdf', 'resample', 'from_hist'],
    'kernels.Kernel': ['density', 'resample'],
    '': ['density', 'pdf', 'resample', 'corner', 'sample_grid', 'sample_grid_proportional', 'sample_outliers',
         'carpet', 'confidence', 'contour', 'dist1d', 'dist2d', 'hist1d', 'hist2d'],
    'plot.Corner': ['__init__', 'plot', 'clean', 'hist', 'plot_kde', 'plot_data', 'target', 'legend'],
    'utils': ['bound_indices', 'centroids', 'cumsum', 'cumtrapz', 'histogram', 'meshgrid', 'midpoints', 'minmax',
              'parse_edges', 'quantiles', 'spacing', 'subdivide', 'trapz_nd', 'trapz_dens_to_mass', 'iqrange',
              'add_cov', 'rem_cov', 'cov_keep_vars', 'isinteger', 'really1d', 'isjagged', 'jshape', 'flatten', 'flatlen',
              'stats_str', 'array_str'],
    'sample.Sample_Grid': ['__init__', 'sample'],
    'sample.Sample_Outliers': ['__init__', 'sample'],
}


class Tap:

    def __init__(self):
        self.ctx = None
        self.monitors = []
        self.depth = 0

    def begin(self, ctx):
        self.ctx = ctx
        self.monitors = []
        self.depth = 0
        ctx.tap = self

    def end(self):
        self.ctx = None
        self.monitors = []

    def watch(self, monitor):
        self.monitors.append(monitor)

    # -- instrumentation

    def install(self):
        import kalepy
        for owner, names in TARGETS.items():
            obj = kalepy
            for part in owner.split('.') if owner else []:
                obj = getattr(obj, part, None)
            if obj is None:
                continue
            for name in names:
                self._wrap(obj, owner, name)

    def _wrap(self, obj, owner, name):
        raw = obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name, None)
        if raw is None:
            return
        is_cm = isinstance(raw, classmethod)
        func = raw.__func__ if is_cm else raw
        if not callable(func):
            return
        label = (owner + '.' if owner else 'kalepy.') + name
        tap = self
        is_method = isinstance(obj, type)

        @functools.wraps(func)
        def wrapper(*args, **kwargs):
            ctx = tap.ctx
            if ctx is None:
                return func(*args, **kwargs)
            ctx.counts['event:' + label] += 1
            if not tap.monitors or tap.depth > 0:
                return func(*args, **kwargs)
            event = dict(name=label, obj=args[0] if is_method else None, args=args[1:] if is_method else args,
                         kwargs=kwargs, result=None, error=None)
            tap.depth += 1
            try:
                ends = [mon(ctx, event) for mon in tap.monitors]
                try:
                    event['result'] = func(*args, **kwargs)
                except Exception as err:
                    event['error'] = err
                    raise
                finally:
                    for end in ends:
                        if end is not None:
                            end(event)
            finally:
                tap.depth -= 1
            return event['result']

        setattr(obj, name, classmethod(wrapper) if is_cm else wrapper)


def default_warmup():
    """Compile the native kernels once, before forking."""
    import kalepy as kale
    state = np.random.get_state()
    data = np.random.default_rng(0).normal(size=(2, 12))
    for kern in ['gaussian', 'box', 'parabola', 'triweight']:
        for dd in (data, data[0]):
            kde = kale.KDE(dd, kernel=kern, bandwidth=0.5)
            kde.density(dd[..., :4])
        kde = kale.KDE(data, kernel=kern, bandwidth=0.5, reflect=[[-9, 9], None])
        kde.density(data[:, :3])
        kde.density(data[:1, :3], params=[0])
    np.random.set_state(state)
