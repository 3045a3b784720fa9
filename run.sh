#!/bin/bash
# run.sh ID [quick|thorough] [--only CASE]   -- one model-checking check against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here:${MC_REPO:-/repo}" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=/opt/vp/mplconfig
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$here" && exec "$PY" -m mc.run "$@"
