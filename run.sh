#!/bin/sh
# usage: run.sh <property> | run.sh --replay <file>
here=$(cd "$(dirname "$0")" && pwd)
. /opt/venv/bin/activate 2>/dev/null || true
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python "$here/lib/run.py" "$@"
