#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PY=/opt/venv/bin/python
if [ "$1" = replay ]; then exec $PY -m sim.run replay "$2"; fi
exec $PY -m sim.run check "$1" --tier "${2:-quick}"
