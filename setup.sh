#!/bin/bash
# Nothing to compile: the framework is Python and imports /repo's working tree.
# This only checks that it can be loaded.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "
import glob, importlib, os
from sim import harness
harness.preload(2)
for p in sorted(glob.glob('sim/checks/C*.py')):
    importlib.import_module('sim.checks.' + os.path.basename(p)[:-3])
print('framework ready')
"
