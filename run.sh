#!/bin/bash
# run.sh <property id> <quick|thorough> [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 LANG=C.UTF-8 PYTHONPATH="$here:/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
py=${RV_PYTHON:-/opt/venv/bin/python}
[ -x "$py" ] || py=python3-vt
cd "$here" && exec "$py" -m rv.main "$@"
