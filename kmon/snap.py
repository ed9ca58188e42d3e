"""A snapshot of the process-wide settings (does not import kalepy)."""
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np


def snapshot():
    """Settings of the process which no call has a reason to change."""
    cwd = os.getcwd()
    root = logging.getLogger()
    kind, keys, pos, gauss, cached = np.random.get_state()
    return {
        'numpy-errors': np.geterr(), 'numpy-error-call': repr(np.geterrcall()), 'numpy-print': repr(sorted(np.get_printoptions().items(), key=str)),
        'warning-filters': [repr(ff) for ff in warnings.filters], 'showwarning': id(warnings.showwarning),
        'matplotlib': {kk: repr(vv) for kk, vv in mpl.rcParams.items()}, 'backend': mpl.get_backend(), 'interactive': mpl.is_interactive(),
        'figures': plt.get_fignums(),
        'log-level': (root.level, root.disabled, logging.root.manager.disable, repr(logging.getLoggerClass())),
        'python-random': hash(random.getstate()), 'cwd': cwd, 'files': sorted(os.listdir(cwd)), 'environment': dict(os.environ), 'path': list(sys.path),
        'recursion': sys.getrecursionlimit(), 'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug()), 'switch': sys.getswitchinterval(),
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)), 'hooks': (id(sys.excepthook), id(sys.displayhook)), 'trace': repr(sys.gettrace()),
        'signals': [repr(signal.getsignal(ss)) for ss in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGFPE)],
        'threads': threading.active_count(), 'descriptors': len(os.listdir('/proc/self/fd')), 'locale': locale.setlocale(locale.LC_ALL),
        '_stream': (kind, keys.tobytes(), pos, gauss, cached),
    }
