#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay file]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/check.py" "$@"
