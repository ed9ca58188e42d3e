#!/bin/bash
# Nothing to compile: check that the interpreter, its libraries and the code under test can be imported.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$here:${KALEPY_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -c "import numpy, scipy, numba, matplotlib, kmon.core, kmon.tap, kalepy; print('kmon ready', kalepy.__file__)"
