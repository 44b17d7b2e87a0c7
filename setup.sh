#!/bin/bash
# Nothing to compile: check that the simulator and the code under test can be imported.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
"$PY" -c '
import sys
sys.path.insert(0, ".")
from dst import boot
boot.boot()
boot.preload()
print("simulator ready")
'
