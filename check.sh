#!/bin/bash
# check.sh Cxx [args]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B mon/run.py "$@"
