#!/bin/bash
# check.sh <property> <quick|thorough> [options]: simulate /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
JIT=""
if "$PY" -c 'import sys; sys.exit("PyPy" not in sys.version)'; then JIT="--jit off"; fi
exec "$PY" $JIT dst/run.py "$@"
