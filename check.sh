#!/bin/bash
# check.sh ID [quick|thorough]   |   check.sh replay FILE
# Runs the generated-input check of one property against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = selftest ]; then
  exec "$PY" -W ignore "$here/run.py" selftest </dev/null
fi
if [ "$1" = replay ]; then
  exec "$PY" -W ignore "$here/run.py" replay "$2" </dev/null
fi
exec "$PY" -W ignore "$here/run.py" check "$1" "${2:-${VERIF_TIER:-quick}}" </dev/null
