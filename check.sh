#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra arguments of kmon.cli]
# Runs one check against the tree in $KALEPY_REPO (default: /repo).
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || { echo "check.sh: no $py" >&2; exit 2; }
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
export KALEPY_REPO="${KALEPY_REPO:-/repo}"
export PYTHONPATH="$here"
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
exec "$py" -W ignore -m kmon.cli "$prop" --tier "$tier" "$@"
