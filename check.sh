#!/bin/bash
# check.sh <PROPERTY> [--thorough] : decides one property on /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} LANG=C.UTF-8
unset CC MPICC
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/run.py" "$@"
