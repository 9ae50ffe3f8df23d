#!/bin/bash
# nothing to download or install: the checks compile what they need themselves; this verifies the tool chain
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
/opt/venv/bin/python -c "from sim import boot; boot.init(); print('ready')"
