#!/bin/bash
# determinism.sh [runs]: event hashes of the first runs of each property must not depend on the number of workers,
# on the hash seed of the interpreter or on the repetition
cd "$(dirname "$0")/.." || exit 3
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
n=${1:-60}; bad=0
for c in sim/props/c[0-9]*.py; do
  p=$(basename "$c" .py | tr c C)
  a=$(PYTHONHASHSEED=0 /opt/venv/bin/python -m sim.run hashes "$p" --runs "$n" --workers 8 | md5sum)
  b=$(PYTHONHASHSEED=4711 /opt/venv/bin/python -m sim.run hashes "$p" --runs "$n" --workers 3 | md5sum)
  if [ "$a" = "$b" ]; then echo "$p identical ($n runs)"; else echo "$p DIFFERS"; bad=1; fi
done
exit $bad
