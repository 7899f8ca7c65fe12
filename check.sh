#!/bin/bash
# usage: check.sh <property> [quick|thorough]   |   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m sim.runner "$@"
