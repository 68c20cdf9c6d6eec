#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/pycba-verif-mpl"
mkdir -p "$MPLCONFIGDIR"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" harness/run.py "$1"
